package props

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/klauspost/compress/zstd"
	"github.com/vearutop/flatjsonl/flatjsonl"
	"pgregory.net/rapid"
)

// C21Case is a run of the command in which one thing goes wrong.
type C21Case struct {
	Fault string   `json:"fault"`
	N     int      `json:"n"`             // lines of each input
	Text  int      `json:"text"`          // length of the text in each line
	Modes []string `json:"modes"`         // compression of the inputs
	Bad   int      `json:"bad"`           // input at fault
	Outs  []string `json:"outs"`          // extensions of the outputs
	Fail  int      `json:"fail"`          // output at fault
	Child bool     `json:"child"`         // its child table is
	Trans bool     `json:"transpose"`     // child tables are made
	Pos   int      `json:"pos"`           // position of the fault, in 1/10000
	End   int      `json:"end,omitempty"` // if set, position in bytes from the end
	Parts int      `json:"parts"`         // members or frames of compressed inputs
	Named bool     `json:"named"`         // gzip members with names and extra fields
	Get   bool     `json:"get,omitempty"` // single key: only one pass
	MaxK  int      `json:"maxKeys,omitempty"`
	Conc  int      `json:"concurrency"`
	Busy  *Busy    `json:"busy,omitempty"`   // for an output that is locked
	Args  []string `json:"args,omitempty"`   // for faults of the configuration and flags
	File  string   `json:"config,omitempty"` // content of a configuration file
}

var c21Flag = map[string]string{"csv": "-csv", "raw": "-raw", "sql": "-pg-dump", "sqlite": "-sqlite"}

func (c *C21Case) out(i int) string { return "o" + strconv.Itoa(i) + "." + c.Outs[i] }

func (c *C21Case) args() []string {
	var a []string
	for i, o := range c.Outs {
		a = append(a, c21Flag[strings.Split(o, ".")[0]], "out/"+c.out(i))
	}
	a = append(a, "-verbosity", "0", "-concurrency", strconv.Itoa(c.Conc), "-progress-interval", "1h", "-buf-size", "100000")
	if c.Get {
		a = append(a, "-get-key", ".s")
	}
	if c.MaxK > 0 {
		a = append(a, "-max-lines-keys", strconv.Itoa(c.MaxK))
	}
	if c.Trans {
		a = append(a, "-config", `{"transpose":{".t":"kids"}}`)
	}
	var ins []string
	for i := range c.Modes {
		ins = append(ins, c.in(i))
	}
	return append(a, "-input", strings.Join(ins, ","))
}

func (c *C21Case) in(i int) string {
	n := "in" + strconv.Itoa(i) + ".jsonl"
	if c.Modes[i] != "" {
		n += "." + c.Modes[i]
	}
	return n
}

// plain is the plain content of an input: numbered lines with texts that do
// not compress well.
func (c *C21Case) plain(in int) []byte {
	var b bytes.Buffer
	x := uint32(in*7919 + 12345)
	for i := 0; i < c.N; i++ {
		b.WriteString(`{"n":` + strconv.Itoa(i) + `,"s":"`)
		for k := 0; k < c.Text; k++ {
			x = x*1664525 + 1013904223
			b.WriteByte("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_"[x>>26])
		}
		b.WriteString(`","t":[{"x":` + strconv.Itoa(i) + `},"y"]}` + "\n")
	}
	return b.Bytes()
}

// pack compresses, in several members or frames if asked.
func (c *C21Case) pack(mode string, d []byte) []byte {
	if mode == "" {
		return d
	}
	var b bytes.Buffer
	n := max(1, c.Parts)
	for i := 0; i < n; i++ {
		part := d[len(d)*i/n : len(d)*(i+1)/n]
		if mode == "zst" {
			b.Write(zst(part, 3))
			continue
		}
		w := gzip.NewWriter(&b)
		if c.Named {
			w.Name, w.Comment, w.Extra = "part", "a comment", []byte{1, 2, 3, 4}
		}
		if _, err := w.Write(part); err != nil {
			die("%v", err)
		}
		if err := w.Close(); err != nil {
			die("%v", err)
		}
	}
	return b.Bytes()
}

// unpack is the reference decoder.
func unpack(mode string, d []byte) ([]byte, error) {
	switch mode {
	case "gz":
		r, err := gzip.NewReader(bytes.NewReader(d))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	case "zst":
		r, err := zstd.NewReader(bytes.NewReader(d))
		if err != nil {
			return nil, err
		}
		defer r.Close()
		return io.ReadAll(r)
	}
	return d, nil
}

var c21Invalid = []C21Case{
	{Args: []string{"-match-line-prefix", "("}},
	{Args: []string{"-match-line-prefix", "a**"}},
	{Args: []string{"-config", `{"matchLinePrefix":"("}`}},
	{Args: []string{"-config", `{"includeKeysRegex":["("]}`}},
	{Args: []string{"-config", `{"includeKeysRegex":[".n","[z-a]"]}`}},
	{Args: []string{"-config", `{"excludeKeysRegex":["(?P<x"]}`}},
	{Args: []string{"-config", `{"replaceKeysRegex":{"a(":"x"}}`}},
	{Args: []string{"-config", `{"extractValuesRegex":{"(":"JSON"}}`}},
	{Args: []string{"-config", `{"extractValuesRegex":{"s":"XML"}}`}},
	{Args: []string{"-config", `{"extractValuesRegex":{"s":""}}`}},
	{Args: []string{"-config", `{"outputTZ":"Nowhere/City"}`}},
	{Args: []string{"-config", `{"outputTZ":"utc+3"}`}},
	{Args: []string{"-config", `nosuchfile.json`}},
	{Args: []string{"-config", `.`}},
	{Args: []string{"-config", `{"includeKeys":5}`}},
	{Args: []string{"-config", `{"includeKeys":[".n"]`}},
	{Args: []string{"-config", "c.cfg"}, File: `{"includeKeys":[".n"]`},
	{Args: []string{"-config", "c.cfg"}, File: `{"includeKeys":5}`},
	{Args: []string{"-config", "c.cfg"}, File: "includeKeys: 5\n"},
	{Args: []string{"-config", "c.cfg"}, File: "includeKeys:\n- a\n b\n  c: d\n"},
	{Args: []string{"-config", "c.cfg"}, File: "\tincludeKeys:\n"},
	{Args: []string{"-config", "c.cfg"}, File: "just some text"},
	{Args: []string{"-config", "c.cfg"}, File: `["includeKeys"]`},
	{Args: []string{"-config", "c.cfg"}, File: "outputTZ: Mars/Base\n"},
	{Args: []string{"-config", "c.cfg"}, File: "{outputTZ: 'Mars/Base', /* x */ }"},
	{Args: []string{"-config", "c.cfg"}, File: "excludeKeysRegex:\n- '('\n"},
	{Args: []string{"-config", "c.cfg"}, File: "transpose: [a]\n"},
	{Args: []string{"-output", "x.txt"}},
	{Args: []string{"-output", "x.csv,x.parquet"}},
	{Args: []string{"-output", "x"}},
	{Args: []string{"-output", "x.csv.bz2"}},
	{Args: []string{"-nosuchflag"}},
	{Args: []string{"-max-lines", "many"}},
	{Args: []string{"-progress-interval", "soon"}},
}

func init() {
	register(&Prop{
		ID:  "C21",
		New: func() any { return &C21Case{} },
		Draw: func(t *rapid.T) any {
			c := &C21Case{}
			c.Fault = rapid.SampledFrom([]string{"full", "fsize", "fsize", "fsize", "fsize", "outdir", "trunc", "trunc", "flip", "flip", "junk", "longline", "missing", "dir", "reader", "report", "isdir"}).Draw(t, "fault")
			c.N = rapid.IntRange(1, rapid.SampledFrom([]int{3, 40, 400}).Draw(t, "maxN")).Draw(t, "n")
			c.Text = rapid.SampledFrom([]int{0, 10, 100, 300}).Draw(t, "text")
			inputFault := false
			switch c.Fault {
			case "trunc", "flip", "junk":
				inputFault = true
			}
			for i := rapid.IntRange(1, 3).Draw(t, "inputs"); i > 0; i-- {
				c.Modes = append(c.Modes, rapid.SampledFrom([]string{"", "gz", "zst"}).Draw(t, "mode"))
			}
			c.Bad = rapid.IntRange(0, len(c.Modes)-1).Draw(t, "bad")
			if inputFault {
				c.Modes[c.Bad] = rapid.SampledFrom([]string{"gz", "zst"}).Draw(t, "badmode")
			}
			for i := rapid.IntRange(1, 3).Draw(t, "outputs"); i > 0; i-- {
				o := rapid.SampledFrom([]string{"csv", "csv.gz", "csv.zst", "raw", "raw.gz", "raw.zst", "sql", "sql.gz", "sql.zst", "sqlite"}).Draw(t, "out")
				dup := false
				for _, p := range c.Outs {
					dup = dup || strings.Split(p, ".")[0] == strings.Split(o, ".")[0]
				}
				if !dup {
					c.Outs = append(c.Outs, o)
				}
			}
			c.Fail = rapid.IntRange(0, len(c.Outs)-1).Draw(t, "fail")
			c.Trans = rapid.Bool().Draw(t, "tr")
			k := strings.Split(c.Outs[c.Fail], ".")[0]
			c.Child = c.Trans && (k == "csv" || k == "raw") && rapid.Bool().Draw(t, "child")
			c.Pos = rapid.IntRange(0, 10000).Draw(t, "pos")
			if rapid.IntRange(0, 3).Draw(t, "near the end") == 0 {
				c.Pos = 10000 - rapid.IntRange(0, 40).Draw(t, "from end")
			}
			c.Parts = rapid.IntRange(1, 3).Draw(t, "parts")
			c.Named = rapid.Bool().Draw(t, "named")
			if !c.Trans && rapid.IntRange(0, 2).Draw(t, "get") == 0 {
				c.Get = true
			} else if rapid.IntRange(0, 2).Draw(t, "maxk") == 0 {
				c.MaxK = 1
			}
			c.Conc = rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "conc")
			if c.Fault == "report" {
				c.Args = []string{rapid.SampledFrom([]string{"-show-keys-flat", "-show-keys-info", "-show-keys-hier", "-show-json-schema"}).Draw(t, "report")}
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			for _, b := range []Busy{
				{N: 40, Cols: 3, From: 0, To: 20}, {N: 40, Cols: 3, From: 0, To: 1}, {N: 40, Cols: 3, From: 0, To: -1}, {N: 40, Cols: 3, From: 20, To: -1}, {N: 30, Cols: 700, From: 0, To: 7},
				{N: 450, Cols: 1100, From: 0, To: 150}, {N: 450, Cols: 1100, From: 130, To: 230}, {N: 300, Cols: 1100, From: 100, To: 101}, {N: 300, Cols: 1100, From: 290, To: -1}, {N: 260, Cols: 1100, From: 33, To: 110},
			} {
				for i := 0; i < 4; i++ {
					b.Lock, b.Trans = []string{"write", "read"}[i%2], i > 1
					c := b
					if !yield(&C21Case{Fault: "busy", Busy: &c}) {
						return
					}
				}
			}
			for i, iv := range c21Invalid {
				c := iv
				c.Fault, c.N, c.Text, c.Modes, c.Conc = "invalid", 2, 1, []string{""}, 1
				if iv.Args[0] != "-output" {
					c.Outs = [][]string{{"csv"}, {"raw"}, {"sql"}, {"sqlite"}}[i%4]
				}
				if !yield(&c) {
					return
				}
			}
			// Every position near the end of small compressed inputs, and around
			// the border of their members.
			n, st := 60, 1
			if e.Tier != "thorough" {
				st = 2
			}
			for end := 1; end <= n; end += st {
				for i, m := range []string{"gz", "gz", "zst"} {
					c := &C21Case{Fault: "trunc", N: 2, Modes: []string{m}, Outs: []string{"csv"}, End: end + (end/2)%st, Conc: 1, Parts: 2, Named: i == 0}
					if i == 1 {
						c.N = 300
					}
					if !yield(c) {
						return
					}
				}
			}
			for end := 1; end <= 10; end++ {
				if !yield(&C21Case{Fault: "trunc", N: 4, Text: 10, Modes: []string{"gz"}, Outs: []string{"csv"}, End: end, Conc: 1, Get: end%2 == 0}) {
					return
				}
			}
			// Positions of small compressed inputs and of small outputs.
			step := 500
			if e.Tier == "thorough" {
				step = 50
			}
			for pos := 0; pos <= 10000; pos += step {
				for _, m := range []string{"gz", "zst"} {
					if !yield(&C21Case{Fault: "trunc", N: 5, Text: 20, Modes: []string{m}, Outs: []string{"csv"}, Pos: pos, Conc: 1, Get: pos%1000 == 0}) {
						return
					}
				}
				for i, o := range []string{"csv", "raw", "sql", "sqlite", "csv.gz", "raw.zst", "sql.gz", "sql.zst"} {
					if !yield(&C21Case{Fault: "fsize", N: 30, Text: 30, Modes: []string{""}, Outs: []string{o}, Pos: pos, Conc: 1 + i%2, Trans: i%3 == 0}) {
						return
					}
				}
			}
		},
		Check: checkC21,
		Classify: func(x any) ([]string, bool) {
			c := x.(*C21Case)
			l := []string{c.Fault}
			if c.Child {
				l = append(l, "child")
			}
			if c.Get {
				l = append(l, "one-pass")
			}
			for _, o := range c.Outs {
				l = append(l, "out-"+strings.Split(o, ".")[0])
			}
			return l, true
		},
	})
}

// failing is an input reader that breaks.
type failing struct {
	b  []byte
	at int
	n  int
}

func (f *failing) Read(p []byte) (int, error) {
	if f.n >= f.at {
		return 0, errors.New("the disk is gone")
	}
	n := copy(p, f.b[f.n:f.at])
	f.n += n
	return n, nil
}
func (f *failing) Size() int64         { return int64(len(f.b)) }
func (f *failing) Reset()              { f.n = 0 }
func (f *failing) Compression() string { return "" }

func checkC21(e *Env, x any) error {
	c := x.(*C21Case)
	if c.Busy != nil {
		return checkBusy(e, *c.Busy)
	}
	dir := e.Dir()
	defer os.RemoveAll(dir)
	put := func(name string, b []byte) {
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			die("%v", err)
		}
	}
	outDir := filepath.Join(dir, "out")
	fresh := func() {
		if err := os.RemoveAll(outDir); err != nil {
			die("%v", err)
		}
		if err := os.MkdirAll(outDir, 0o755); err != nil {
			die("%v", err)
		}
	}
	for i, m := range c.Modes {
		put(c.in(i), c.pack(m, c.plain(i)))
	}

	// The same run without the fault.
	fresh()
	ref := e.runCmd(e.CLI, dir, -1, "", c.args()...)
	if ref.Code != 0 {
		return fmt.Errorf("run without fault fails: %v", ref)
	}
	want := listFiles(outDir)
	fresh()

	bad := c.in(c.Bad)
	mustFail := func(r CLIRun, what string) error {
		if r.Code == 0 {
			return fmt.Errorf("%s, but the command succeeds: %v", what, r)
		}
		if strings.Contains(r.Stderr, "\ngoroutine ") {
			return fmt.Errorf("%s: a crash, not a report: %v", what, r)
		}
		return nil
	}
	// Either fails, or everything is complete.
	allOrFail := func(r CLIRun, what string) error {
		if r.Code != 0 {
			return nil
		}
		if err := sameOutputs(want, listFiles(outDir), e.Dir()); err != nil {
			return fmt.Errorf("%s, the command succeeds, but output is not complete: %w", what, err)
		}
		return nil
	}
	target := func() string {
		if len(c.Outs) == 0 {
			return ""
		}
		if c.Child {
			return filepath.Join(outDir, childFile(c.out(c.Fail), "kids"))
		}
		return filepath.Join(outDir, c.out(c.Fail))
	}

	switch c.Fault {
	case "invalid":
		if c.File != "" {
			put("c.cfg", []byte(c.File))
		}
		return mustFail(e.runCmd(e.CLI, dir, -1, "", append(append([]string{}, c.Args...), c.args()...)...), fmt.Sprintf("invalid %q (%s)", c.Args, c.File))
	case "full":
		if err := os.Symlink("/dev/full", target()); err != nil {
			die("%v", err)
		}
		return mustFail(e.runCmd(e.CLI, dir, -1, "", c.args()...), "no space for "+filepath.Base(target()))
	case "isdir":
		if err := os.Mkdir(target(), 0o755); err != nil {
			die("%v", err)
		}
		return mustFail(e.runCmd(e.CLI, dir, -1, "", c.args()...), filepath.Base(target())+" is a directory")
	case "outdir":
		if err := os.RemoveAll(outDir); err != nil {
			die("%v", err)
		}
		return mustFail(e.runCmd(e.CLI, dir, -1, "", c.args()...), "no directory for outputs")
	case "fsize":
		size := 0
		for _, b := range want {
			size = max(size, len(b))
		}
		limit := size * c.Pos / 10000
		return allOrFail(e.runCmd(e.CLI, dir, int64(limit), "", c.args()...), fmt.Sprintf("files limited to %d bytes of %d", limit, size))
	case "trunc", "flip", "junk":
		m := c.Modes[c.Bad]
		d := c.pack(m, c.plain(c.Bad))
		at := min(len(d)-1, max(1, len(d)*c.Pos/10000))
		if c.End > 0 {
			at = max(1, len(d)-c.End)
		}
		switch c.Fault {
		case "trunc":
			d = d[:at]
		case "flip":
			d[at] ^= 1 << (c.Pos % 8)
		case "junk":
			d = append(d, bytes.Repeat([]byte{byte(c.Pos)}, 1+c.Pos%30)...)
		}
		put(bad, d)
		r := e.runCmd(e.CLI, dir, -1, "", c.args()...)
		dec, err := unpack(m, d)
		if err != nil {
			return mustFail(r, fmt.Sprintf("input cannot be decompressed (%s at %d of %d: %v)", c.Fault, at, len(d), err))
		}
		if r.Code != 0 {
			if len(dec) == 0 {
				return nil
			}
			return fmt.Errorf("input decompresses, but the command fails: %v", r)
		}
		got := listFiles(outDir)
		fresh()
		put(bad, c.pack(m, dec))
		if ref := e.runCmd(e.CLI, dir, -1, "", c.args()...); ref.Code != 0 {
			return fmt.Errorf("run over the same content fails: %v", ref)
		}
		want = listFiles(outDir)
		return sameOutputs(want, got, e.Dir())
	case "longline":
		// Longer than the buffer by a bit or a lot, somewhere in the input.
		d := c.plain(c.Bad)
		ls := bytes.SplitAfter(d, []byte("\n"))
		at := (len(ls) - 1) * c.Pos / 10001
		long := 100000 - 40 + []int{0, 20, 30, 50, 5000, 400000}[c.Pos%6]
		l := []byte(`{"s":"` + strings.Repeat("x", long-8) + `"}`)
		var b bytes.Buffer
		for i, s := range ls {
			if i == at {
				b.Write(l)
				b.WriteByte('\n')
			}
			b.Write(s)
		}
		put(bad, c.pack(c.Modes[c.Bad], b.Bytes()))
		r := e.runCmd(e.CLI, dir, -1, "", c.args()...)
		if len(l) > 100000 {
			return mustFail(r, fmt.Sprintf("line of %d bytes in a buffer of 100000", len(l)))
		}
		if r.Code != 0 {
			return fmt.Errorf("line of %d bytes fits the buffer of 100000, but the command fails: %v", len(l), r)
		}
		return nil
	case "missing":
		if err := os.Remove(filepath.Join(dir, bad)); err != nil {
			die("%v", err)
		}
		return mustFail(e.runCmd(e.CLI, dir, -1, "", c.args()...), "input "+bad+" does not exist")
	case "dir":
		if err := os.Remove(filepath.Join(dir, bad)); err != nil {
			die("%v", err)
		}
		if err := os.Mkdir(filepath.Join(dir, bad), 0o755); err != nil {
			die("%v", err)
		}
		return mustFail(e.runCmd(e.CLI, dir, -1, "", c.args()...), "input "+bad+" is a directory")
	case "report":
		a := append(append([]string{}, c.Args...), c.args()...)
		return mustFail(e.runCmd(e.CLI, dir, -1, "/dev/full", a...), "report cannot be printed")
	case "reader":
		f := F{CSV: "o.csv", Concurrency: c.Conc, MaxLinesKeys: c.MaxK, BufSize: 100000}
		if c.Get {
			f.GetKey = ".s"
		}
		var ins []flatjsonl.Input
		for i := range c.Modes {
			d := c.plain(i)
			if i == c.Bad {
				ins = append(ins, flatjsonl.Input{Reader: &failing{b: d, at: min(len(d), len(d)*c.Pos/10000)}})
			} else {
				ins = append(ins, flatjsonl.Input{Reader: &memReader{b: d, r: bytes.NewReader(d)}})
			}
		}
		dog(true)
		defer dog(false)
		p, err := flatjsonl.NewProcessor(f.real(outDir), flatjsonl.Config{}, ins...)
		if err != nil {
			return err
		}
		p.Log = func(...any) {}
		p.Stdout = io.Discard
		if err := p.Process(); err == nil {
			return fmt.Errorf("input breaks after %d of %d bytes, but processing succeeds", min(len(c.plain(c.Bad)), len(c.plain(c.Bad))*c.Pos/10000), len(c.plain(c.Bad)))
		}
		return nil
	}
	die("unknown fault %q", c.Fault)
	return nil
}
