package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/vearutop/flatjsonl/flatjsonl"
)

// Env is what a check gets to work with.
type Env struct {
	Scratch string // directory of this shard, removed by the driver
	Repo    string
	CLI     string // path of the built command, if the property needs it
	CSVEq   string
	Tier    string
	n       int
}

// Dir makes a fresh directory for one execution.
func (e *Env) Dir() string {
	e.n++
	d := filepath.Join(e.Scratch, fmt.Sprintf("x%d", e.n))
	if err := os.MkdirAll(d, 0o755); err != nil {
		die("scratch: %v", err)
	}
	return d
}

// die reports trouble of the harness itself: never a violation.
func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+f+"\n", a...)
	os.Exit(98)
}

// Out is what one run of the library produced.
type Out struct {
	Err    error
	Stdout string
	Files  map[string]string // decompressed contents by base name
	Raw    map[string][]byte
	Logs   []string
	Dir    string
}

// In is one input of a run.
type In struct {
	Name  string // file name in the case's directory, .gz/.zst are compressed by the caller
	Data  []byte
	Mem   bool   // give as a reader instead of a file
	Compr string // compression announced by the reader
}

type memReader struct {
	b []byte
	r *bytes.Reader
	c string
}

func (m *memReader) Read(p []byte) (int, error) { return m.r.Read(p) }
func (m *memReader) Size() int64                { return int64(len(m.b)) }
func (m *memReader) Reset()                     { m.r = bytes.NewReader(m.b) }
func (m *memReader) Compression() string        { return m.c }

// hangLimit is how long one execution of a tiny case may take before it is
// handed to the driver as a suspected hang (which the driver confirms alone).
var hangLimit = 60 * time.Second

var (
	dogMu   sync.Mutex
	dogFrom time.Time
	dogOn   bool
)

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		dogMu.Lock()
		on, from := dogOn, dogFrom
		dogMu.Unlock()
		if on && time.Since(from) > hangLimit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG: no result after %v\n%s\n", hangLimit, buf[:n])
			os.Exit(97)
		}
	}
}

func dog(on bool) {
	dogMu.Lock()
	dogOn, dogFrom = on, time.Now()
	dogMu.Unlock()
}

func (f F) real(dir string) flatjsonl.Flags {
	j := func(s string) string {
		if s == "" || s == flatjsonl.NopFile {
			return s
		}
		return filepath.Join(dir, s)
	}
	tbl := f.SQLTable
	if tbl == "" {
		tbl = "flatjsonl"
	}
	return flatjsonl.Flags{
		CSV: j(f.CSV), SQLite: j(f.SQLite), SQLMaxCols: f.SQLMaxCols, SQLTable: tbl, PGDump: j(f.PGDump),
		Raw: j(f.Raw), RawDelim: string(f.RawDelim),
		MaxLines: f.MaxLines, OffsetLines: f.OffsetLines, MaxLinesKeys: f.MaxLinesKeys,
		FieldLimit: f.FieldLimit, ChildrenLimit: f.ChildrenLimit, KeyLimit: f.KeyLimit, BufSize: f.BufSize,
		GetKey: f.GetKey, ReplaceKeys: f.ReplaceKeys, ExtractStrings: f.ExtractStrings,
		SkipZeroCols: f.SkipZeroCols, AddSequence: f.AddSequence, MatchLinePrefix: f.MatchLinePrefix,
		CaseSensitiveKeys: f.CaseSensitiveKeys,
		ShowKeysFlat:      f.ShowKeysFlat, ShowKeysHier: f.ShowKeysHier, ShowKeysInfo: f.ShowKeysInfo,
		ShowJSONSchema: f.ShowJSONSchema,
		Concurrency:    f.Concurrency, MemLimit: f.MemLimit, Verbosity: f.Verbosity,
	}
}

func joinLines(lines []B) []byte {
	var b bytes.Buffer
	for _, l := range lines {
		b.WriteString(string(l))
		b.WriteByte('\n')
	}
	return b.Bytes()
}

// RunCase executes a case in-process with all its lines in one plain file.
func (e *Env) RunCase(c *Case) *Out {
	return e.Run(c, In{Name: "in.jsonl", Data: joinLines(c.Lines)})
}

// Run executes a case in-process over the given inputs.
func (e *Env) Run(c *Case, ins ...In) *Out { return e.runWith(c, nil, ins...) }

func (e *Env) runWith(c *Case, onLog func(string), ins ...In) *Out {
	dir := e.Dir()
	defer os.RemoveAll(dir)
	o := &Out{Dir: dir, Files: map[string]string{}, Raw: map[string][]byte{}}
	inDir := filepath.Join(dir, "in")
	if err := os.MkdirAll(inDir, 0o755); err != nil {
		die("%v", err)
	}
	var inputs []flatjsonl.Input
	for _, in := range ins {
		if in.Mem {
			inputs = append(inputs, flatjsonl.Input{Reader: &memReader{b: in.Data, r: bytes.NewReader(in.Data), c: in.Compr}})
			continue
		}
		fn := filepath.Join(inDir, in.Name)
		if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(fn, in.Data, 0o644); err != nil {
			die("%v", err)
		}
		inputs = append(inputs, flatjsonl.Input{FileName: fn})
	}
	outDir := filepath.Join(dir, "out.v1 d")
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		die("%v", err)
	}
	o.Dir = outDir

	dog(true)
	defer dog(false)

	proc, err := flatjsonl.NewProcessor(c.F.real(outDir), c.Cfg.Real(), inputs...)
	if err != nil {
		o.Err = err
		return o
	}
	var so bytes.Buffer
	var mu sync.Mutex
	proc.Stdout = &so
	proc.Log = func(a ...any) {
		if onLog != nil {
			onLog(fmt.Sprint(a...))
		}
		mu.Lock()
		defer mu.Unlock()
		o.Logs = append(o.Logs, fmt.Sprintln(a...))
	}
	o.Err = proc.Process()
	o.Stdout = so.String()

	des, err := os.ReadDir(outDir)
	if err != nil {
		die("%v", err)
	}
	for _, de := range des {
		b, err := os.ReadFile(filepath.Join(outDir, de.Name()))
		if err != nil {
			die("%v", err)
		}
		o.Raw[de.Name()] = b
		if o.Err == nil {
			s, err := decompressByName(de.Name(), b)
			if err != nil {
				o.Err = fmt.Errorf("output not readable: %w", err)
			}
			o.Files[de.Name()] = s
		}
	}
	return o
}

func js(v any) string {
	var sb strings.Builder
	e := json.NewEncoder(&sb)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return err.Error()
	}
	return strings.TrimSpace(sb.String())
}
