package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// CLIRun is the outcome of one run of a command.
type CLIRun struct {
	Code   int
	Stdout string
	Stderr string
}

func (r CLIRun) String() string {
	s := r.Stderr
	if len(s) > 400 {
		s = "..." + s[len(s)-400:]
	}
	return fmt.Sprintf("exit status %d, standard error %q", r.Code, s)
}

// runCmd runs a command in dir. A positive fsize limits the size of files it
// can write (minus one: no limit); writing past it is an error, not a signal.
func (e *Env) runCmd(bin, dir string, fsize int64, stdout string, args ...string) CLIRun {
	dog(true)
	defer dog(false)
	var cmd *exec.Cmd
	if fsize >= 0 {
		cmd = exec.Command("env", append([]string{"--block-signal=XFSZ", "prlimit", fmt.Sprintf("--fsize=%d:%d", fsize, fsize), bin}, args...)...)
	} else {
		cmd = exec.Command(bin, args...)
	}
	cmd.Dir = dir
	// The local time zone of the machine is no option of a run.
	cmd.Env = append(os.Environ(), "TZ=Asia/Colombo")
	setKill(cmd)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if stdout != "" {
		f, err := os.OpenFile(stdout, os.O_WRONLY, 0)
		if err != nil {
			die("%v", err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	r := CLIRun{Stdout: so.String(), Stderr: se.String()}
	var ee *exec.ExitError
	switch {
	case errors.As(err, &ee):
		r.Code = ee.ExitCode()
		if r.Code == 125 || r.Code == 126 || r.Code == 127 {
			die("cannot run %s: %s", bin, r.Stderr)
		}
	case err != nil:
		die("cannot run %s: %v", bin, err)
	}
	return r
}

// listFiles reads all files of a directory, recursively, by relative name.
func listFiles(dir string) map[string][]byte {
	res := map[string][]byte{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		res[rel] = b
		return err
	})
	if err != nil {
		die("%v", err)
	}
	return res
}

// content is the comparable content of an output file.
func content(name string, b []byte, scratch string) (string, error) {
	if strings.HasSuffix(strings.ToLower(name), ".sqlite") {
		ts, err := sqliteTables(b, scratch)
		if err != nil {
			return "", fmt.Errorf("%s: %w", name, err)
		}
		type tt struct {
			Name, Cols, Types, Seq, Rows string
		}
		m := map[string]tt{}
		for n, t := range ts {
			m[n] = tt{t.name, js(t.cols), js(t.types), js(t.seq), js(t.rows)}
		}
		return js(m), nil
	}
	s, err := decompressByName(strings.ToLower(name), b)
	if err != nil {
		return "", err
	}
	return statusLine.ReplaceAllString(s, ""), nil
}

// sameOutputs compares the output files of two runs.
func sameOutputs(want, got map[string][]byte, scratch string) error {
	for n, w := range want {
		g, ok := got[n]
		if !ok {
			return fmt.Errorf("no file %s", n)
		}
		ws, err := content(n, w, scratch)
		if err != nil {
			return fmt.Errorf("reference: %w", err)
		}
		gs, err := content(n, g, scratch)
		if err != nil {
			return err
		}
		if ws != gs {
			return fmt.Errorf("%s: want %s, got %s", n, short(ws), short(gs))
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			return fmt.Errorf("unexpected file %s", n)
		}
	}
	return nil
}
