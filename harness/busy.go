package props

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/vearutop/flatjsonl/flatjsonl"
)

// Busy is a run whose SQLite output is locked by another user for some time:
// between the first and the second malformed line of the input.
type Busy struct {
	N     int    `json:"n"`     // lines
	Cols  int    `json:"cols"`  // columns
	From  int    `json:"from"`  // line of the lock
	To    int    `json:"to"`    // line of the release
	Lock  string `json:"lock"`  // "write" or "read", or nothing
	Trans bool   `json:"trans"` // child tables
	File  string `json:"file"`
	In    string `json:"in"`
}

func (b *Busy) lines() []B {
	var ls []B
	for i := 0; i < b.N; i++ {
		if i == b.From || i == b.To {
			ls = append(ls, "{bad")
		}
		var l strings.Builder
		for k := 0; k < b.Cols; k++ {
			if k == 0 || i < 2 || k == i%b.Cols {
				l.WriteString(`,"k` + strconv.Itoa(k) + `":` + strconv.Itoa(i))
			}
		}
		if b.Trans {
			l.WriteString(`,"t":[` + strconv.Itoa(i) + `,"x"]`)
		}
		ls = append(ls, B("{"+l.String()[1:]+"}"))
	}
	return ls
}

// busyHelper is the process in which the run happens: flatjsonl may end it.
func busyHelper(spec string) {
	var b Busy
	if err := json.Unmarshal([]byte(spec), &b); err != nil {
		die("%v", err)
	}
	f := F{SQLite: filepath.Base(b.File), Concurrency: 1, Verbosity: 2, BufSize: 1 << 20}
	cfg := flatjsonl.Config{}
	if b.Trans {
		cfg.Transpose = map[string]string{".t": "kids"}
	}
	p, err := flatjsonl.NewProcessor(f.real(filepath.Dir(b.File)), cfg, flatjsonl.Input{FileName: b.In})
	if err != nil {
		die("%v", err)
	}
	db, err := sql.Open("sqlite", b.File)
	if err != nil {
		die("%v", err)
	}
	c, err := db.Conn(context.Background())
	if err != nil {
		die("%v", err)
	}
	exec := func(s string) bool {
		_, err := c.ExecContext(context.Background(), s)
		return err == nil
	}
	flattening, locked := false, false
	p.Log = func(a ...any) {
		msg := fmt.Sprint(a...)
		switch {
		case strings.HasPrefix(msg, "flattening"):
			flattening = true
		case !flattening || !strings.Contains(msg, "malformed") || b.Lock == "":
		case locked:
			exec("ROLLBACK")
		case b.Lock == "write":
			locked = exec("BEGIN EXCLUSIVE")
		default:
			locked = exec("BEGIN") && exec(`SELECT count(*) FROM sqlite_master`)
			r, err := c.QueryContext(context.Background(), `SELECT count(*) FROM "flatjsonl"`)
			if err == nil {
				for r.Next() {
				}
				r.Close()
			}
		}
	}
	if err := p.Process(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	exec("ROLLBACK")
	if locked {
		os.Exit(4)
	}
	os.Exit(0)
}

// checkBusy requires a failure or a complete database.
func checkBusy(e *Env, b Busy) error {
	dir := e.Dir()
	defer os.RemoveAll(dir)
	b.In = filepath.Join(dir, "in.jsonl")
	if err := os.WriteFile(b.In, joinLines(b.lines()), 0o644); err != nil {
		die("%v", err)
	}
	run := func(name, lock string) (int, string) {
		b.File, b.Lock = filepath.Join(dir, name, "o.sqlite"), lock
		if err := os.Mkdir(filepath.Dir(b.File), 0o755); err != nil {
			die("%v", err)
		}
		dog(true)
		defer dog(false)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestProp$")
		cmd.Env = append(os.Environ(), "VERIF_HELPER="+js(b))
		setKill(cmd)
		out, err := cmd.CombinedOutput()
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			die("%v", err)
		}
		return cmd.ProcessState.ExitCode(), string(out)
	}
	lock := b.Lock
	if code, out := run("ref", ""); code != 0 {
		return fmt.Errorf("run without fault fails: %s", short(out))
	}
	code, out := run("out", lock)
	switch code {
	case 0, 4:
	case 1, 3:
		return nil
	default:
		die("helper: exit status %d: %s", code, out)
	}
	if err := sameOutputs(listFiles(filepath.Join(dir, "ref")), listFiles(filepath.Join(dir, "out")), e.Dir()); err != nil {
		return fmt.Errorf("database is locked (%s) for a while, processing succeeds, but the output is not complete: %w", lock, err)
	}
	return nil
}
