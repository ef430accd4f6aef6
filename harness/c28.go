package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vearutop/flatjsonl/flatjsonl"
	"pgregory.net/rapid"
)

// C28Case is a history of runs in one directory and one process.
type C28Case struct {
	Steps []C28Step `json:"steps"`
}

// C28Step is one run.
type C28Step struct {
	Case
	In       string `json:"in"`
	Together bool   `json:"together,omitempty"` // at the same time as the previous step
	Rep      int    `json:"rep,omitempty"`      // lines are repeated
	Bad      bool   `json:"bad,omitempty"`      // the input breaks off
}

func (s *C28Step) data() []byte {
	var ls []B
	for i := 0; i < max(1, s.Rep); i++ {
		ls = append(ls, s.Lines...)
	}
	d := joinLines(ls)
	switch {
	case s.Bad:
		d = gz(d, 6)
		d = d[:len(d)-1]
	case strings.HasSuffix(s.In, ".gz"):
		d = gz(d, 6)
	}
	return d
}

// outs are the names of the output files, without child tables.
func (s *C28Step) outs() []string {
	var r []string
	for _, n := range []string{s.F.CSV, s.F.Raw, s.F.PGDump, s.F.SQLite} {
		if n != "" && n != flatjsonl.NopFile {
			r = append(r, n)
		}
	}
	return r
}

func genC28(t *rapid.T) any {
	c := &C28Case{}
	pick := func(name string, n int) bool { return rapid.IntRange(0, n-1).Draw(t, name) == 0 }
	str := func(name string, v ...string) string { return rapid.SampledFrom(v).Draw(t, name) }
	inUse := map[string]bool{}
	n := rapid.IntRange(2, 6).Draw(t, "steps")
	for i := 0; i < n; i++ {
		var s C28Step
		if len(c.Steps) > 0 && pick("again", 5) {
			// The same once more.
			s = c.Steps[rapid.IntRange(0, len(c.Steps)-1).Draw(t, "which")]
			s.Together = false
		} else {
			o := &GenOpt{Keys: rapid.SampledFrom([][]string{{"a", "b"}, keysPlain, noNULKeys(keysOdd)}).Draw(t, "keys"), MaxLines: 5, MaxDepth: 3, Str: genStrNoNUL}
			s.Lines = o.Lines(t)
			if pick("nested", 3) {
				s.Lines = append(s.Lines, `{"a":"{\"x\":[1,null],\"y\":\"http://h/p?q=1\"}","b":"https://e.com:8/a/b"}`, `{"l":[1,{"v":2}],"m":{"p":1,"q":2,"r":3}}`)
			}
			if pick("bad", 6) {
				s.Lines = append(s.Lines, "no json", `{"a":`)
			}
			s.In = str("in", "a.jsonl", "b.jsonl", "c.jsonl.gz")
			if pick("long", 4) {
				s.Rep = rapid.IntRange(2, 60).Draw(t, "rep")
			}
			s.F.Concurrency = 1
			if pick("csv", 2) {
				s.F.CSV = str("csvName", "x.csv", "y.csv", "x.csv.gz", "x.csv.zst", flatjsonl.NopFile)
			}
			if pick("raw", 3) {
				s.F.Raw = str("rawName", "x.raw", "y.raw.gz", "y.raw.zst", flatjsonl.NopFile)
				s.F.RawDelim = B(str("delim", "", ",", "|"))
			}
			if pick("pg", 3) {
				s.F.PGDump = str("pgName", "x.sql", "y.sql.gz", flatjsonl.NopFile)
			}
			if pick("sqlite", 3) || len(s.outs()) == 0 {
				s.F.SQLite = str("sqliteName", "x.sqlite", "y.sqlite")
			}
			s.F.SQLTable = str("table", "t", "u", "t_kids", "my \"t\"")
			s.F.SQLMaxCols = rapid.SampledFrom([]int{500, 500, 3}).Draw(t, "maxCols")
			for i := rapid.IntRange(0, 3).Draw(t, "options"); i > 0; i-- {
				switch rapid.IntRange(0, 24).Draw(t, "option") {
				case 0:
					s.F.AddSequence = true
				case 1:
					s.F.ExtractStrings = true
				case 2:
					s.F.ReplaceKeys = true
				case 3:
					s.F.ChildrenLimit = 2
				case 4:
					s.F.ShowKeysFlat = true
				case 5:
					s.F.CaseSensitiveKeys = true
				case 6:
					s.Cfg.Transpose = map[string]string{".l": "kids", ".m": str("dst", "kids2", "k\"2")}
				case 7:
					s.Cfg.IncludeKeys = []string{".b", ".a", ".id"}
					s.F.Concurrency = rapid.SampledFrom([]int{1, 3, 8}).Draw(t, "concurrency")
					s.F.GetKey = str("get", "", ".c", ".name")
				case 8:
					s.Cfg.KeepJSON = []string{".a", ".m", ".fooBar"}
				case 9:
					s.Cfg.ExcludeKeys = []string{".a"}
				case 10:
					s.Cfg.ReplaceKeys = map[string]string{".a": "A", ".b": "B", ".id": "B"}
				case 11:
					s.F.OffsetLines, s.F.MaxLines = 1, 2
				case 12:
					s.Cfg.ExtractValuesRegex = map[string]string{".b": "URL"}
				case 13, 14:
					// The same instants, written in many ways.
					s.Lines = append(s.Lines, `{"t":"2021-03-04T05:06:07Z","u":"2021-03-04 05:06"}`, `{"t":"1999-12-31T23:59:59.5+03:00","u":"x"}`)
					s.Cfg.ParseTime = map[string]string{".t": str("layout", time.RFC3339, time.RFC3339Nano, "2006-01-02", "RAW"), ".u": str("layout", "2006-01-02 15:04", "2006-02-01 15:04", "RAW")}
					s.Cfg.OutputTimezone = str("tz", "", "UTC", "Asia/Tokyo", "America/New_York")
					s.Cfg.OutputTimeFormat = str("otf", "", time.RFC3339Nano, "2006-01-02 15:04:05", "Mon Jan _2")
				case 15:
					s.Lines = append(s.Lines, `x=1 y {"a":5}`, `k9 {"b":6}`)
					s.Cfg.MatchLinePrefix = str("prefixRe", `^(\w)(\d)`, `(\w+)=(\d) `, `(.*?)\{`)
				case 16:
					s.Cfg.IncludeKeysRegex = []string{str("incRe", ".*", `^\.a`, `\.b$`, ".l.*")}
				case 17:
					s.Cfg.ExcludeKeysRegex = []string{str("exRe", ".*.*", `^\.a$`, `\.b`, ".l.*")}
				case 18:
					s.Cfg.ReplaceKeysRegex = map[string]string{str("renRe", `^\.a(.*)$`, `^\.(.*)$`, ".m.*"): str("tpl", "x$1", "y_$1", "$1")}
				case 19:
					d := str("concat", "", ";", "--")
					s.Cfg.ConcatDelimiter = &d
					s.Cfg.ReplaceKeys = map[string]string{".a": "N", ".b": "N"}
				case 20:
					s.F.KeyLimit = rapid.IntRange(3, 8).Draw(t, "keyLimit")
				case 22:
					// Several patterns match a key.
					s.Lines = append(s.Lines, `{"b":"{\"q\":1}","a":"http://h/p?q=1"}`, `{"b":"http://h/p?q=1","a":"{\"q\":1}"}`)
					s.Cfg.ExtractValuesRegex = map[string]string{"b": "JSON", `^\.b$`: "URL", ".*": str("x", "URL", "JSON")}
				case 23:
					// A key in several spellings.
					s.Lines = append(s.Lines, `{"A":7,"b":1}`, `{"a":8,"B":2}`)
					s.Cfg.ReplaceKeys = map[string]string{".a": "u", ".A": "v", ".B": "w", ".b": "z"}
				case 24:
					s.Lines = append(s.Lines, `{"A":7,"b":1}`, `{"a":8,"B":2}`)
					s.Cfg.IncludeKeys = []string{".A", ".B", ".b", ".a"}
					s.F.CaseSensitiveKeys = false
				case 21:
					s.F.FieldLimit = rapid.IntRange(1, 6).Draw(t, "fieldLimit")
					s.F.SkipZeroCols = rapid.Bool().Draw(t, "skipZero")
				}
			}
			if len(s.Cfg.IncludeKeysRegex) > 0 {
				s.F.Concurrency = 1 // the order of columns depends on it
			}
			if s.F.ChildrenLimit == 0 {
				s.F.ChildrenLimit = 100
			}
			if len(s.Cfg.IncludeKeys) > 0 {
				s.F.ReplaceKeys = false
			}
			if strings.HasSuffix(s.In, ".gz") && pick("broken", 4) {
				s.Bad = true
			}
			if i > 0 && pick("sameCfg", 3) {
				s.Cfg = c.Steps[rapid.IntRange(0, i-1).Draw(t, "cfgOf")].Cfg
				s.F.ReplaceKeys = false
				s.F.Concurrency = 1
				if len(s.Cfg.IncludeKeys) > 0 {
					s.F.GetKey = str("getToo", "", ".c", ".name")
				}
			}
		}
		if len(s.Cfg.IncludeKeys) == 0 {
			s.F.GetKey = ""
		}
		// Runs at the same time have outputs of their own, and inputs they
		// share are the same.
		if i > 0 && pick("together", 2) {
			s.Together = true
			for _, n := range append(s.outs(), "<"+s.In) {
				s.Together = s.Together && !inUse[n]
			}
		}
		if !s.Together {
			inUse = map[string]bool{}
		}
		for _, n := range append(s.outs(), "<"+s.In) {
			inUse[n] = true
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// sqlTable is the comparable content of a table.
func sqlTable(t *tab) string { return js([]any{t.name, t.cols, t.types, t.seq, t.rows}) }

func sqlTabs(b []byte, scratch string) (map[string]string, error) {
	ts, err := sqliteTables(b, scratch)
	if err != nil {
		return nil, err
	}
	r := map[string]string{}
	for n, t := range ts {
		r[n] = sqlTable(t)
	}
	return r, nil
}

type c28Run struct {
	s      *C28Step
	want   map[string][]byte // files of a run in a fresh directory and process
	code   CLIRun
	err    error // of the run in the history
	stdout string
}

func checkC28(e *Env, x any) error {
	c := x.(*C28Case)
	dir := e.Dir()
	defer os.RemoveAll(dir)
	work, etc := filepath.Join(dir, "w"), filepath.Join(dir, "etc")
	for _, d := range []string{work, etc} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			die("%v", err)
		}
	}
	fds, grs := openFDs(), runtime.NumGoroutine()
	inputs := map[string][]byte{}
	files := map[string]string{}          // expected contents
	dbs := map[string]map[string]string{} // expected tables of databases
	loose := map[string]bool{}            // files of failed runs: not judged
	cfgs := map[string]flatjsonl.Config{}

	for i := 0; i < len(c.Steps); {
		// Steps that run at the same time.
		var rs []*c28Run
		for j := i; j < len(c.Steps) && (j == i || c.Steps[j].Together); j++ {
			rs = append(rs, &c28Run{s: &c.Steps[j]})
		}
		at := fmt.Sprintf("step %d", i+1)
		if len(rs) > 1 {
			at = fmt.Sprintf("steps %d-%d at the same time", i+1, i+len(rs))
		}
		i += len(rs)
		for _, r := range rs {
			d := r.s.data()
			inputs[r.s.In] = d
			if err := os.WriteFile(filepath.Join(work, r.s.In), d, 0o644); err != nil {
				die("%v", err)
			}
			// Alone: in a directory and a process of its own.
			fresh := e.Dir()
			if err := os.WriteFile(filepath.Join(fresh, r.s.In), d, 0o644); err != nil {
				die("%v", err)
			}
			a := &C27Case{Case: r.s.Case, Names: []string{r.s.In}}
			r.code = e.runCmd(e.CLI, fresh, -1, "", a.args(etc)...)
			r.want = listFiles(fresh)
			os.RemoveAll(fresh)
			delete(r.want, r.s.In)
			if r.code.Code == 0 && r.s.Bad {
				return nil // C21
			}
		}
		// In the history.
		var wg sync.WaitGroup
		dog(true)
		for _, r := range rs {
			k := js(r.s.Cfg)
			cfg, ok := cfgs[k]
			if !ok {
				cfg = r.s.Cfg.Real()
				cfgs[k] = cfg
			}
			f := r.s.F
			f.BufSize = 100000
			f.MemLimit = 1000
			p, err := flatjsonl.NewProcessor(f.real(work), cfg, flatjsonl.Input{FileName: filepath.Join(work, r.s.In)})
			if err != nil {
				dog(false)
				return fmt.Errorf("%s: %w", at, err)
			}
			var so bytes.Buffer
			p.Stdout = &so
			p.Log = func(...any) {}
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.err = p.Process()
				r.stdout = so.String()
			}()
		}
		wg.Wait()
		dog(false)

		got := listFiles(work)
		for _, r := range rs {
			s := r.s
			// Databases take what is not there yet.
			taken := ""
			if s.F.SQLite != "" && r.code.Code == 0 {
				ts, err := sqlTabs(r.want[s.F.SQLite], etc)
				if err != nil {
					return fmt.Errorf("%s, alone: %w", at, err)
				}
				db := dbs[s.F.SQLite]
				if db == nil {
					db = map[string]string{}
					dbs[s.F.SQLite] = db
				}
				var ns []string
				for n := range ts {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				for _, n := range ns {
					if _, ok := db[n]; ok {
						taken = n
					}
				}
				if taken == "" {
					for n, x := range ts {
						db[n] = x
					}
				}
			}
			fails := r.code.Code != 0 || taken != ""
			if fails != (r.err != nil) {
				if taken != "" {
					return fmt.Errorf("%s: table %s was there, but the run succeeded", at, taken)
				}
				return fmt.Errorf("%s: alone: %v, here: %v", at, r.code, r.err)
			}
			if fails {
				// Its files are not judged any more, tables of databases stay.
				for _, n := range s.outs() {
					if n != s.F.SQLite {
						loose[n] = true
						for k := range files {
							if c28Of(k, n, s) {
								delete(files, k)
								loose[k] = true
							}
						}
						for k := range got {
							if c28Of(k, n, s) {
								loose[k] = true
							}
						}
					}
				}
				if db := dbs[s.F.SQLite]; s.F.SQLite != "" {
					if db == nil {
						db = map[string]string{}
						dbs[s.F.SQLite] = db
					}
					// Tables it left behind.
					if b, ok := got[s.F.SQLite]; ok {
						now, err := sqlTabs(b, etc)
						if err != nil {
							return fmt.Errorf("%s: %s after a failed run: %w", at, s.F.SQLite, err)
						}
						for n, x := range now {
							if _, ok := db[n]; !ok {
								db[n] = x
							}
						}
					}
				}
				continue
			}
			if r.stdout != r.code.Stdout {
				return fmt.Errorf("%s: standard output: alone %s, here %s", at, short(r.code.Stdout), short(r.stdout))
			}
			for n, b := range r.want {
				if n == s.F.SQLite {
					continue
				}
				x, err := content(n, b, etc)
				if err != nil {
					return fmt.Errorf("%s, alone: %w", at, err)
				}
				files[n] = x
				delete(loose, n)
			}
		}
		// The directory is as expected.
		for n, b := range got {
			if d, ok := inputs[n]; ok {
				if !bytes.Equal(b, d) {
					return fmt.Errorf("%s: input %s is changed", at, n)
				}
				continue
			}
			if db, ok := dbs[n]; ok {
				now, err := sqlTabs(b, etc)
				if err != nil {
					return fmt.Errorf("%s: %s: %w", at, n, err)
				}
				for t, w := range db {
					if now[t] != w {
						return fmt.Errorf("%s: %s, table %s: want %s, got %s", at, n, t, short(w), short(now[t]))
					}
				}
				for t := range now {
					if _, ok := db[t]; !ok {
						return fmt.Errorf("%s: %s: unexpected table %s", at, n, t)
					}
				}
				continue
			}
			if loose[n] {
				continue
			}
			w, ok := files[n]
			if !ok {
				return fmt.Errorf("%s: unexpected file %s", at, n)
			}
			x, err := content(n, b, etc)
			if err != nil {
				return fmt.Errorf("%s: %w", at, err)
			}
			if x != w {
				return fmt.Errorf("%s: %s: want %s, got %s", at, n, short(w), short(x))
			}
		}
		for n := range files {
			if _, ok := got[n]; !ok {
				return fmt.Errorf("%s: file %s is gone", at, n)
			}
		}
		for n := range inputs {
			if _, ok := got[n]; !ok {
				return fmt.Errorf("%s: input %s is gone", at, n)
			}
		}
		for n := range dbs {
			if _, ok := got[n]; !ok && len(dbs[n]) > 0 {
				return fmt.Errorf("%s: database %s is gone", at, n)
			}
		}
	}
	// Nothing is left running or open.
	for i := 0; ; i++ {
		f, g := openFDs(), runtime.NumGoroutine()
		if f <= fds && g <= grs {
			return nil
		}
		if i > 1000 {
			buf := make([]byte, 1<<16)
			return fmt.Errorf("%d files and %d goroutines were open before, now %d and %d: %s", fds, grs, f, g, buf[:runtime.Stack(buf, true)])
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func openFDs() int {
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		die("%v", err)
	}
	return len(ds)
}

// c28Of tells if a file can be a child table of an output of a step.
func c28Of(file, out string, s *C28Step) bool {
	if file == out {
		return true
	}
	base := out
	if i := strings.IndexByte(base, '.'); i >= 0 {
		base = base[:i]
	}
	for _, dst := range s.Cfg.Transpose {
		if strings.HasPrefix(file, base) && strings.Contains(file, "_"+dst) {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{
		ID:    "C28",
		New:   func() any { return &C28Case{} },
		Draw:  genC28,
		Check: checkC28,
		Classify: func(x any) ([]string, bool) {
			c := x.(*C28Case)
			wrote := map[string]bool{}
			tabs := map[string]bool{}
			again, together, bad, added, nop := false, false, false, false, false
			for i := range c.Steps {
				s := &c.Steps[i]
				for _, n := range s.outs() {
					again = again || wrote[n] && n != s.F.SQLite
					if n == s.F.SQLite && wrote[n] && !tabs[n+s.F.SQLTable] {
						added = true
					}
				}
				for _, n := range s.outs() {
					wrote[n] = true
				}
				tabs[s.F.SQLite+s.F.SQLTable] = true
				together = together || s.Together
				bad = bad || s.Bad
				nop = nop || s.F.CSV == flatjsonl.NopFile || s.F.Raw == flatjsonl.NopFile || s.F.PGDump == flatjsonl.NopFile
			}
			var l []string
			for n, v := range map[string]bool{"overwrites": again, "together": together, "failing-run": bad, "table-added": added, "nop": nop} {
				if v {
					l = append(l, n)
				}
			}
			return l, again || added || together
		},
	})
}
