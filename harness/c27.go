package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C27Case is one invocation of the command.
type C27Case struct {
	Case
	Names   []string `json:"names"`             // inputs
	Parts   []int    `json:"parts"`             // lines of each input but the last, which takes the rest
	InFlag  int      `json:"inFlag"`            // how many of the inputs (the last ones) are given with -input
	Outs    []string `json:"outs,omitempty"`    // names given with -output
	Order   []int    `json:"order,omitempty"`   // order of flags
	Style   []int    `json:"style,omitempty"`   // how flags are spelled
	CfgFile bool     `json:"cfgFile,omitempty"` // the configuration is a file
	Rep     int      `json:"rep,omitempty"`     // lines are repeated
	Wide    int      `json:"wide,omitempty"`    // the first line gets so many columns
	Kids    int      `json:"kids,omitempty"`    // the first line gets an object of so many keys
	Long    int      `json:"long,omitempty"`    // the first line gets so long a string
	Loop    int      `json:"loop,omitempty"`    // the (only) input is repeated by a flag
	// The size to reach is less than that of the repetitions, the last one is begun nevertheless.
	LoopLess int    `json:"loopLess,omitempty"`
	Prof     bool   `json:"prof,omitempty"`    // profiles are asked for
	Tick     string `json:"tick,omitempty"`    // interval of progress messages
	Version  bool   `json:"version,omitempty"` // the version is asked for
	Late     bool   `json:"late,omitempty"`    // some flag follows the inputs, a failure
	NoInput  bool   `json:"noInput,omitempty"` // no input is given, a failure
	Empty    bool   `json:"empty,omitempty"`   // the last input has no bytes, a failure
}

func (c *C27Case) lines() []B {
	var ls []B
	for i := 0; i < max(1, c.Rep); i++ {
		ls = append(ls, c.Lines...)
	}
	if c.Wide > 0 || c.Kids > 0 || c.Long > 0 {
		var b strings.Builder
		b.WriteString(`{"first":1`)
		for i := 0; i < c.Wide; i++ {
			fmt.Fprintf(&b, `,"w%d":%d`, i, i)
		}
		if c.Kids > 0 {
			b.WriteString(`,"kids":{"k0":0`)
			for i := 1; i < c.Kids; i++ {
				fmt.Fprintf(&b, `,"k%d":%d`, i, i)
			}
			b.WriteString("}")
		}
		if c.Long > 0 {
			b.WriteString(`,"long":"` + strings.Repeat("x", c.Long) + `"`)
		}
		b.WriteString("}")
		ls = append([]B{B(b.String())}, ls...)
	}
	return ls
}

// all are the lines that are processed.
func (c *C27Case) all() []B {
	ls := c.lines()
	n := len(ls)
	for i := 1; i < c.Loop; i++ {
		ls = append(ls, ls[:n]...)
	}
	return ls
}

func (c *C27Case) inputs() []In {
	ls := c.lines()
	var ins []In
	for i, n := range c.Names {
		part := ls
		if i < len(c.Names)-1 && i < len(c.Parts) && c.Parts[i] < len(ls) {
			part = ls[:c.Parts[i]]
		}
		if i < len(c.Names)-1 {
			ls = ls[len(part):]
		}
		d := joinLines(part)
		switch {
		case strings.HasSuffix(n, ".gz"):
			d = gz(d, 6)
		case strings.HasSuffix(n, ".zst"):
			d = zst(d, 3)
		}
		if c.Empty && i == len(c.Names)-1 {
			d = nil
		}
		ins = append(ins, In{Name: n, Data: d})
	}
	return ins
}

func (c *C27Case) reports() bool {
	return c.F.ShowKeysFlat || c.F.ShowKeysHier || c.F.ShowKeysInfo || c.F.ShowJSONSchema
}

// unmodelled cases are compared with library runs only.
func (c *C27Case) unmodelled() bool {
	return c.F.ReplaceKeys || c.F.KeyLimit != 0 || c.F.FieldLimit != 0 && c.F.ChildrenLimit != 0
}

// plan is the specification of the outputs: format to file. It fails if a
// name has no format.
func (c *C27Case) plan() (F, error) {
	f := c.F
	outs := c.Outs
	if len(outs) == 0 && !c.reports() && f.CSV == "" && f.Raw == "" && f.SQLite == "" && f.PGDump == "" {
		outs = []string{c.Names[0] + ".csv"}
	}
	for _, o := range outs {
		l := strings.ToLower(o)
		if t := strings.TrimSuffix(l, ".gz"); t != l {
			l = t
		} else {
			l = strings.TrimSuffix(l, ".zst")
		}
		var dst *string
		switch {
		case strings.HasSuffix(l, ".csv"):
			dst = &f.CSV
		case strings.HasSuffix(l, ".raw"):
			dst = &f.Raw
		case strings.HasSuffix(strings.ToLower(o), ".sqlite"):
			dst = &f.SQLite
		default:
			return f, fmt.Errorf("no format for %s", o)
		}
		if *dst == "" {
			*dst = o
		}
	}
	return f, nil
}

// args spells the command line.
func (c *C27Case) args(dir string) []string {
	var fl [][2]string
	s := func(n, v string) {
		if v != "" {
			fl = append(fl, [2]string{n, v})
		}
	}
	i := func(n string, v int) {
		if v != 0 {
			fl = append(fl, [2]string{n, fmt.Sprint(v)})
		}
	}
	b := func(n string, v bool) {
		if v {
			fl = append(fl, [2]string{n, ""})
		}
	}
	f := c.F
	s("csv", f.CSV)
	s("sqlite", f.SQLite)
	i("sql-max-cols", f.SQLMaxCols)
	s("sql-table", f.SQLTable)
	s("pg-dump", f.PGDump)
	s("raw", f.Raw)
	s("raw-delim", string(f.RawDelim))
	i("max-lines", f.MaxLines)
	i("offset-lines", f.OffsetLines)
	i("max-lines-keys", f.MaxLinesKeys)
	i("field-limit", f.FieldLimit)
	i("children-limit", f.ChildrenLimit)
	i("key-limit", f.KeyLimit)
	i("buf-size", f.BufSize)
	s("get-key", f.GetKey)
	s("match-line-prefix", f.MatchLinePrefix)
	b("replace-keys", f.ReplaceKeys)
	b("extract-strings", f.ExtractStrings)
	b("skip-zero-cols", f.SkipZeroCols)
	b("add-sequence", f.AddSequence)
	b("case-sensitive-keys", f.CaseSensitiveKeys)
	b("show-keys-flat", f.ShowKeysFlat)
	b("show-keys-hier", f.ShowKeysHier)
	b("show-keys-info", f.ShowKeysInfo)
	b("show-json-schema", f.ShowJSONSchema)
	i("concurrency", f.Concurrency)
	i("mem-limit", f.MemLimit)
	if f.Verbosity != 1 {
		fl = append(fl, [2]string{"verbosity", fmt.Sprint(f.Verbosity)})
	}
	s("output", strings.Join(c.Outs, ","))
	if len(c.Cfg.fields()) > 0 {
		conf := js(c.Cfg)
		if c.CfgFile {
			fn := filepath.Join(dir, "conf.json")
			if err := os.WriteFile(fn, []byte(conf), 0o644); err != nil {
				die("%v", err)
			}
			conf = fn
		}
		s("config", conf)
	}
	direct := c.Names[:len(c.Names)-c.InFlag]
	if !c.NoInput {
		s("input", strings.Join(c.Names[len(direct):], ","))
	}
	if c.Loop > 0 {
		i("dbg-loop-input-size", c.Loop*len(joinLines(c.lines()))-c.LoopLess)
	}
	if c.Prof {
		s("dbg-cpu-prof", filepath.Join(dir, "cpu.prof"))
		s("dbg-mem-prof", filepath.Join(dir, "mem.prof"))
	}

	s("progress-interval", c.Tick)
	b("version", c.Version)

	// Any order of flags.
	for i := range fl {
		if len(c.Order) > 0 {
			j := i + c.Order[i%len(c.Order)]%(len(fl)-i)
			fl[i], fl[j] = fl[j], fl[i]
		}
	}
	st := &styler{st: c.Style}
	var as []string
	for i, x := range fl {
		if c.Late && i == len(fl)-1 {
			as = append(as, direct...)
		}
		dash := []string{"-", "--"}[st.n(2)]
		switch {
		case x[1] == "" && st.n(2) == 1:
			as = append(as, dash+x[0]+"=true")
		case x[1] == "":
			as = append(as, dash+x[0])
		case st.n(2) == 1:
			as = append(as, dash+x[0]+"="+x[1])
		default:
			as = append(as, dash+x[0], x[1])
		}
	}
	if c.Late || c.NoInput {
		return as
	}
	return append(as, direct...)
}

func init() {
	register(&Prop{
		ID:  "C27",
		New: func() any { return &C27Case{} },
		Draw: func(t *rapid.T) any {
			c := &C27Case{}
			o := &GenOpt{Keys: rapid.SampledFrom([][]string{keysPlain, noNULKeys(keysOdd)}).Draw(t, "keys"), MaxLines: 7, MaxDepth: 2, Str: genStrNoNUL}
			c.Lines = o.Lines(t)
			if rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
				c.Lines = append(c.Lines, "no json")
			}
			pick := func(name string, n int) bool { return rapid.IntRange(0, n-1).Draw(t, name) == 0 }
			for i := 0; i < min(len(c.Lines), rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "inputs")); i++ {
				c.Names = append(c.Names, rapid.SampledFrom([]string{"in%d.jsonl", "in%d", "sub/in%d.log", "in%d.log.gz", "in%d.zst", "two words%d", "in?%d*[a].jsonl", "in%d.csv", "ïn%d.JSONL"}).Draw(t, "name"))
				c.Names[i] = fmt.Sprintf(c.Names[i], i)
				c.Parts = append(c.Parts, 1)
			}
			c.InFlag = rapid.IntRange(0, len(c.Names)).Draw(t, "inFlag")
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 30), 0, 8).Draw(t, "order")
			c.Style = rapid.SliceOfN(rapid.IntRange(0, 1), 0, 5).Draw(t, "style")
			c.CfgFile = rapid.Bool().Draw(t, "cfgFile")
			c.F.Verbosity = rapid.SampledFrom([]int{1, 1, 0, 2, 3}).Draw(t, "verbosity")
			c.Tick = rapid.SampledFrom([]string{"", "", "", "1ms", "100us", "0", "1h"}).Draw(t, "tick")
			c.F.Concurrency = rapid.SampledFrom([]int{1, 1, 1, 1, 0, 2, 8}).Draw(t, "concurrency")
			// Outputs.
			if pick("csv", 3) {
				c.F.CSV = rapid.SampledFrom([]string{"c.csv", "c.csv.gz", "c.csv.zst", "c.txt", "c.gz", "out/c.csv", "c.v1.2.csv", "c.d.csv.gz"}).Draw(t, "csvName")
			}
			if pick("raw", 3) {
				c.F.Raw = rapid.SampledFrom([]string{"r.raw", "r.raw.gz", "r.log.zst", "r", "r.1.txt"}).Draw(t, "rawName")
			}
			if pick("sqlite", 6) {
				c.F.SQLite = rapid.SampledFrom([]string{"s.sqlite", "s.db", "s.sqlite", "s.db", "s?x.sqlite", "s%41#.sqlite", "out/s ?vfs=x&_pragma=y.db", "s:%?.1"}).Draw(t, "sqliteName")
			}
			if pick("pg", 4) {
				c.F.PGDump = rapid.SampledFrom([]string{"p.sql", "p.pg.sql.gz", "p.zst", "p?%.sql"}).Draw(t, "pgName")
			}
			if pick("output", 2) {
				c.Outs = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"o.csv", "o2.csv.gz", "O.CSV", "o3.csv.zst", "o.raw", "o4.raw.gz", "o.Raw.zst", "o5.sqlite", "o.SQLite", "O6.CSV.GZ", "o.csv.sqlite", "out/o.raw", "o.txt", "o.csv.bz2", "o", "o?.sqlite", "o%3f?a=b.csv", "o#&?.raw"}), 1, 3, rapid.ID[string]).Draw(t, "outs")
				if pick("oddOut", 8) {
					// Names next to the known formats.
					end := ""
					for i := rapid.IntRange(1, 3).Draw(t, "ends"); i > 0; i-- {
						end += rapid.SampledFrom([]string{".", ".", ".", "", "_"}).Draw(t, "dot") + rapid.SampledFrom([]string{"csv", "raw", "sqlite", "gz", "zst", "CSV", "Gz", "csvs", "sql", "db", "json", "aw"}).Draw(t, "end")
					}
					if o := "x" + end; !slices.ContainsFunc(c.Outs, func(s string) bool { return strings.EqualFold(s, o) }) {
						c.Outs = append(c.Outs, o)
					}
				}
			}
			if pick("delim", 3) {
				c.F.RawDelim = rapid.SampledFrom([]B{"|", "\t", ", ", "=", "日"}).Draw(t, "delim")
			}
			if pick("maxCols", 4) {
				c.F.SQLMaxCols = rapid.SampledFrom([]int{2, 3, 5, 500}).Draw(t, "maxCols")
			}
			if pick("table", 4) {
				c.F.SQLTable = rapid.SampledFrom([]string{"events", "t 1", "T"}).Draw(t, "table")
			}
			// Reports.
			if pick("reports", 4) {
				c.F.ShowKeysFlat = rapid.Bool().Draw(t, "flat")
				c.F.ShowKeysInfo = rapid.Bool().Draw(t, "info")
				if names := noListKeys(o.Keys); len(names) == len(o.Keys) {
					c.F.ShowKeysHier = rapid.Bool().Draw(t, "hier")
					c.F.ShowJSONSchema = rapid.Bool().Draw(t, "schema")
				}
			}
			// Processing.
			names := colKeys(&c.Case)
			for i := rapid.IntRange(0, 3).Draw(t, "options"); i > 0 && len(names) > 0; i-- {
				name := rapid.SampledFrom(names)
				num := rapid.IntRange(1, 4)
				switch rapid.IntRange(0, 18).Draw(t, "option") {
				case 0:
					c.F.MaxLines = num.Draw(t, "max")
				case 1:
					c.F.OffsetLines = num.Draw(t, "offset")
				case 2:
					c.F.MaxLinesKeys = num.Draw(t, "maxKeys")
				case 3:
					c.F.FieldLimit = rapid.IntRange(1, 12).Draw(t, "field")
				case 4:
					c.F.ChildrenLimit = num.Draw(t, "children")
				case 5:
					c.F.KeyLimit = rapid.IntRange(8, 14).Draw(t, "key")
				case 6:
					c.F.BufSize = rapid.SampledFrom([]int{1000, 100000}).Draw(t, "buf")
				case 7:
					c.F.GetKey = name.Draw(t, "get")
				case 8:
					c.F.MatchLinePrefix = `^(n)o|(j)`
					if rapid.Bool().Draw(t, "cfgToo") {
						c.Cfg.MatchLinePrefix = `(o)`
					}
				case 17:
					c.Cfg.MatchLinePrefix = `^(n)o|(j)`
				case 18:
					c.Cfg.IncludeKeys = []string{name.Draw(t, "include")}
					if rapid.Bool().Draw(t, "getToo") {
						if g := name.Draw(t, "get"); g != c.Cfg.IncludeKeys[0] {
							c.F.GetKey = g
						}
					}
				case 9:
					c.F.ReplaceKeys = true
				case 10:
					c.F.ExtractStrings = true
				case 11:
					c.F.SkipZeroCols = true
				case 12:
					c.F.AddSequence = true
				case 13:
					c.F.CaseSensitiveKeys = true
				case 14:
					c.Cfg.ExcludeKeys = []string{name.Draw(t, "exclude")}
				case 15:
					c.Cfg.ReplaceKeys = map[string]string{name.Draw(t, "from"): "to"}
				case 16:
					if ps := structPaths(c.Lines); len(ps) > 0 {
						if p := rapid.SampledFrom(ps).Draw(t, "prefix"); !strings.HasSuffix(p, ".") {
							c.Cfg.Transpose = map[string]string{p: "kids"}
						}
					}
				}
			}
			for _, l := range c.Lines {
				if c.F.BufSize != 0 && c.F.BufSize <= len(l)+2 { // A line has to fit.
					c.F.BufSize = 100000
				}
			}
			if c.F.MaxLines > 0 || c.F.OffsetLines > 0 || c.F.MaxLinesKeys > 0 {
				// Line windows are promised for one input.
				c.Names, c.Parts, c.InFlag = c.Names[:1], nil, min(c.InFlag, 1)
			}
			if c.F.GetKey != "" && len(c.Cfg.IncludeKeys) > 0 && c.Cfg.IncludeKeys[0] == c.F.GetKey {
				c.Cfg.IncludeKeys = nil
			}
			if c.F.ReplaceKeys {
				c.Cfg.Transpose = nil
			}
			switch rapid.IntRange(0, 19).Draw(t, "rare") {
			case 12:
				// One flag at least besides -input, and something that stops their parsing.
				c.Late, c.InFlag, c.F.AddSequence = true, 0, true
			case 13:
				c.NoInput, c.InFlag, c.F.AddSequence = true, len(c.Names), true
			case 2, 3:
				if !strings.HasSuffix(c.Names[0], ".gz") && !strings.HasSuffix(c.Names[0], ".zst") {
					c.Names, c.Parts, c.InFlag = c.Names[:1], nil, min(c.InFlag, 1)
					c.Loop = rapid.IntRange(1, 4).Draw(t, "loop")
					if n := len(joinLines(c.lines())); n > 1 && n < 1<<16 && c.F.BufSize == 0 {
						c.LoopLess = rapid.IntRange(0, n-1).Draw(t, "less")
					}
				}
			case 4:
				c.Prof = true
				c.Version = rapid.IntRange(0, 5).Draw(t, "version") == 0
			case 5:
				c.Empty = true
				if rapid.Bool().Draw(t, "loopEmpty") {
					c.Names, c.Parts, c.InFlag, c.Loop = []string{"in.jsonl"}, nil, min(c.InFlag, 1), 2
				}
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			// Defaults of limits.
			base := func() *C27Case {
				return &C27Case{Case: Case{Lines: []B{`{"a":1}`}, F: F{Verbosity: 1, Concurrency: 1}}, Names: []string{"in.jsonl"}}
			}
			for _, n := range []int{497, 498, 499, 500, 501, 1100} {
				c := base()
				c.Wide, c.F.SQLite, c.F.PGDump = n, "s.sqlite", "p.sql"
				if !yield(c) {
					return
				}
			}
			for _, n := range []int{99, 100, 101, 102, 300} {
				c := base()
				c.Kids = n
				if !yield(c) {
					return
				}
			}
			for _, n := range []int{100000, 5000000, 9999000} {
				c := base()
				c.Long = n
				if !yield(c) {
					return
				}
			}
		},
		Check: checkC27,
		Classify: func(x any) ([]string, bool) {
			c := x.(*C27Case)
			f, err := c.plan()
			n := 0
			var l []string
			for k, v := range map[string]string{"csv": f.CSV, "raw": f.Raw, "sqlite": f.SQLite, "pg-dump": f.PGDump} {
				if v != "" {
					n++
					l = append(l, k)
				}
			}
			for k, v := range map[string]bool{"bad-name": err != nil, "reports": c.reports(), "several-outputs": n > 1, "reports-only": n == 0, "several-inputs": len(c.Names) > 1, "input-flag": c.InFlag > 0, "output-flag": len(c.Outs) > 0, "failing-arguments": c.Late || c.NoInput || c.Empty, "looped": c.Loop > 0, "profiled": c.Prof, "default-output": len(c.Outs) == 0 && n == 1 && c.F.CSV == "" && f.CSV != ""} {
				if v {
					l = append(l, k)
				}
			}
			return l, len(c.args(os.TempDir())) > 2
		},
	})
}

// plainName has no characters that are special in names of databases, the
// extension and the length are those of the name.
var plainName = strings.NewReplacer("?", "Q", "%", "P", "#", "H", "&", "A", ":", "C")

func flatName(s string) string { return strings.ReplaceAll(s, "/", "_") }

func checkC27(e *Env, x any) error {
	c := x.(*C27Case)
	dir := e.Dir()
	defer os.RemoveAll(dir)
	for _, d := range []string{"w/sub", "w/out", "etc"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			die("%v", err)
		}
	}
	work := filepath.Join(dir, "w")
	ins := c.inputs()
	for i := range ins {
		if len(ins[i].Data) == 0 && !c.Empty {
			return nil
		}
		if err := os.WriteFile(filepath.Join(work, ins[i].Name), ins[i].Data, 0o644); err != nil {
			die("%v", err)
		}
	}
	r := e.runCmd(e.CLI, work, -1, "", c.args(filepath.Join(dir, "etc"))...)
	got := map[string][]byte{}
	for n, b := range listFiles(work) {
		got[flatName(n)] = b
	}
	for i := range ins {
		n := flatName(ins[i].Name)
		if string(got[n]) != string(ins[i].Data) {
			return fmt.Errorf("input %s is changed", ins[i].Name)
		}
		delete(got, n)
		ins[i].Name = n
	}
	f, err := c.plan()
	switch {
	case c.Late:
		err = errors.New("flag after the inputs")
	case c.NoInput:
		err = errors.New("no input")
	case c.Empty:
		err = errors.New("empty input")
	}
	if c.Version && !c.Late {
		if r.Code != 0 || len(got) > 0 || strings.Count(r.Stdout, "\n") != 1 {
			return fmt.Errorf("want the version only: %s, %d files", r, len(got))
		}
		return nil
	}
	if err != nil {
		if r.Code == 2 && strings.Contains(r.Stderr, "\ngoroutine ") {
			return fmt.Errorf("%w: crash: %s", err, r)
		}
		if r.Code == 0 {
			return fmt.Errorf("%w, but the exit status is 0", err)
		}
		return nil
	}
	if r.Code != 0 {
		return fmt.Errorf("%s", r)
	}

	if c.Prof {
		for _, n := range []string{"cpu.prof", "mem.prof"} {
			if fi, err := os.Stat(filepath.Join(dir, "etc", n)); err != nil || fi.Size() == 0 {
				return fmt.Errorf("profile %s is not written", n)
			}
		}
	}
	if c.Loop > 0 {
		ins[0].Data = joinLines(c.all())
	}

	// Every output and every report by the library, alone.
	want := map[string][]byte{}
	ref := c.Case
	ref.Lines = c.all()
	ref.F = f
	def := func(p *int, v int) {
		if *p == 0 {
			*p = v
		}
	}
	def(&ref.F.SQLMaxCols, 500)
	def(&ref.F.ChildrenLimit, 100)
	if c.Long > 0 {
		def(&ref.F.BufSize, 1e7)
	}
	def(&ref.F.BufSize, 1e5)
	def(&ref.F.MemLimit, 1000)
	ref.F.Concurrency = 1
	// Flags and configuration of the same purpose.
	if ref.F.MatchLinePrefix == "" {
		ref.F.MatchLinePrefix = ref.Cfg.MatchLinePrefix
	}
	ref.Cfg.MatchLinePrefix = ""
	if ref.F.GetKey != "" && len(ref.Cfg.IncludeKeys) > 0 {
		ref.Cfg.IncludeKeys = append(append([]string(nil), ref.Cfg.IncludeKeys...), ref.F.GetKey)
		ref.F.GetKey = ""
	}
	if ref.F.SQLTable == "" {
		ref.F.SQLTable = "flatjsonl"
	}
	ref.F.CSV, ref.F.Raw, ref.F.SQLite, ref.F.PGDump = "", "", "", ""
	ref.F.ShowKeysFlat, ref.F.ShowKeysHier, ref.F.ShowKeysInfo, ref.F.ShowJSONSchema = false, false, false, false
	alone := func(what string, set func(f *F)) (*Out, error) {
		rc := ref
		set(&rc.F)
		o := e.Run(&rc, ins...)
		if o.Err != nil {
			return nil, fmt.Errorf("library run of %s alone: %w", what, o.Err)
		}
		for n, b := range o.Raw {
			want[n] = b
		}
		return o, nil
	}
	for _, x := range []struct {
		what string
		name string
		set  func(f *F, n string)
	}{
		{"CSV", f.CSV, func(f *F, n string) { f.CSV = n }},
		{"RAW", f.Raw, func(f *F, n string) { f.Raw = n }},
		{"SQLite", f.SQLite, func(f *F, n string) { f.SQLite = n }},
		{"PostgreSQL dump", f.PGDump, func(f *F, n string) { f.PGDump = n }},
	} {
		if x.name == "" {
			continue
		}
		odd := flatName(x.name)
		plain := plainName.Replace(odd)
		o, err := alone(x.what, func(f *F) { x.set(f, plain) })
		if err != nil {
			return err
		}
		if plain != odd {
			for n, b := range o.Raw {
				ext := len(odd) - len(path.Ext(odd))
				if !strings.HasPrefix(n, plain[:ext]) {
					return fmt.Errorf("unexpected file %s", n)
				}
				delete(want, n)
				want[odd[:ext]+n[ext:]] = b
			}
		}
		if x.what == "CSV" && !c.unmodelled() {
			rc := ref
			rc.F.CSV = plain
			if err := checkCSV(&rc, o); err != nil {
				return err
			}
			if c.F.ChildrenLimit == 0 && len(rc.Cfg.Transpose) > 0 {
				if err := checkChildren(&rc, o); err != nil {
					return err
				}
			}
		}
	}
	stdout := ""
	text := "" // the part of it whose order matters
	for _, x := range []struct {
		on  bool
		set func(f *F)
	}{
		{c.F.ShowKeysFlat, func(f *F) { f.ShowKeysFlat = true }},
		{c.F.ShowKeysInfo, func(f *F) { f.ShowKeysInfo = true }},
		{c.F.ShowKeysHier, func(f *F) { f.ShowKeysHier = true }},
		{c.F.ShowJSONSchema, func(f *F) { f.ShowJSONSchema = true }},
	} {
		if !x.on {
			continue
		}
		o, err := alone("a report", x.set)
		if err != nil {
			return err
		}
		stdout += o.Stdout
		if !strings.HasPrefix(o.Stdout, "[") && !strings.HasPrefix(o.Stdout, "{") {
			text = stdout
		}
	}
	if c.F.Verbosity == 0 && strings.Contains(r.Stderr, "elapsed") {
		return fmt.Errorf("progress is shown with -verbosity 0: %s", short(r.Stderr))
	}
	if c.F.Concurrency != 1 {
		// The order of columns and what depends on it are up to the workers.
		for n := range want {
			if _, ok := got[n]; !ok {
				return fmt.Errorf("no file %s", n)
			}
		}
		for n := range got {
			if _, ok := want[n]; !ok {
				return fmt.Errorf("unexpected file %s", n)
			}
		}
		if (stdout == "") != (r.Stdout == "") {
			return fmt.Errorf("standard output: want %s, got %s", short(stdout), short(r.Stdout))
		}
		if f.CSV == "" || c.unmodelled() {
			return nil
		}
		rc := ref
		rc.F.Concurrency = c.F.Concurrency
		rc.F.CSV = flatName(f.CSV)
		s, err := content(rc.F.CSV, got[rc.F.CSV], dir)
		if err != nil {
			return err
		}
		return checkCSV(&rc, &Out{Files: map[string]string{rc.F.CSV: s}})
	}
	if err := sameReports(stdout, text, r.Stdout); err != nil {
		return err
	}
	return sameOutputs(want, got, filepath.Join(dir, "etc"))
}

// sameReports compares standard outputs: text has to be equal, JSON documents
// after it are compared as values without regard to the order of lists.
func sameReports(want, text, got string) error {
	if !strings.HasPrefix(got, text) {
		return fmt.Errorf("standard output: want %s, got %s", short(text), short(got))
	}
	var docs [2][]string
	for i, s := range []string{want, got} {
		d := json.NewDecoder(strings.NewReader(s[len(text):]))
		for {
			var v any
			err := d.Decode(&v)
			if err == io.EOF {
				break
			}
			if err != nil {
				return fmt.Errorf("standard output: %w in %s", err, short(s[len(text):]))
			}
			docs[i] = append(docs[i], js(sortLists(v)))
		}
	}
	if js(docs[0]) != js(docs[1]) {
		return fmt.Errorf("standard output: want %s, got %s", short(want), short(got))
	}
	return nil
}

func sortLists(v any) any {
	switch v := v.(type) {
	case map[string]any:
		for k := range v {
			v[k] = sortLists(v[k])
		}
	case []any:
		for i := range v {
			v[i] = sortLists(v[i])
		}
		sort.Slice(v, func(i, j int) bool { return js(v[i]) < js(v[j]) })
	}
	return v
}
