package props

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/klauspost/compress/zstd"
	"pgregory.net/rapid"
)

// C12Case is a case that is run plain and with compressed inputs or outputs.
type C12Case struct {
	WideCase
	InGz   int    `json:"inGz"`           // gzip level of the input, -3: not compressed so
	InZst  int    `json:"inZst"`          // zstd level of the input, 0: not compressed so
	Cuts   []int  `json:"cuts,omitempty"` // where the input is cut into members or frames, in permille
	Reader bool   `json:"reader"`         // give the compressed input as a reader
	Out    string `json:"out"`            // suffix of outputs
	NoNL   bool   `json:"noNL,omitempty"` // the input has no final newline
	Win    int    `json:"win,omitempty"`  // zstd: a stream of unknown size with a window of this power of two
	Head   bool   `json:"head,omitempty"` // gzip: headers with name, comment and extra; zstd: skippable frames
	InName string `json:"inName,omitempty"`
	Base   string `json:"base,omitempty"` // start of output names
}

func (c *C12Case) inName() string {
	if c.InName == "" {
		return "in.jsonl"
	}
	return c.InName
}

// withBase sets the names of outputs.
func (c *C12Case) withBase(f *F) {
	b := c.Base
	if b == "" {
		b = "o"
	}
	f.CSV, f.Raw, f.PGDump = b+".csv", b+".raw", b+".sql"
}

func gz(b []byte, level int) []byte {
	var o bytes.Buffer
	w, err := gzip.NewWriterLevel(&o, level)
	if err != nil {
		die("%v", err)
	}
	_, _ = w.Write(b)
	_ = w.Close()
	return o.Bytes()
}

func zst(b []byte, level int) []byte {
	w, err := zstd.NewWriter(nil, zstd.WithEncoderLevel(zstd.EncoderLevelFromZstd(level)), zstd.WithEncoderConcurrency(1))
	if err != nil {
		die("%v", err)
	}
	defer w.Close()
	return w.EncodeAll(b, nil)
}

// gzMember is a member with all the header fields.
func gzMember(b []byte, level int) []byte {
	var o bytes.Buffer
	w, err := gzip.NewWriterLevel(&o, level)
	if err != nil {
		die("%v", err)
	}
	w.Name, w.Comment, w.Extra, w.ModTime, w.OS = "in.jsonl", "comment", []byte("extra\n{}"), time.Unix(1600000000, 0), 3
	for len(b) > 0 {
		n := min(len(b), 70)
		_, _ = w.Write(b[:n])
		if n == 70 && len(b) < 500 {
			_ = w.Flush()
		}
		b = b[n:]
	}
	_ = w.Close()
	return o.Bytes()
}

// zstStream is a frame as of a tool that does not know the size in advance.
func zstStream(b []byte, level, win int) []byte {
	var o bytes.Buffer
	w, err := zstd.NewWriter(&o, zstd.WithEncoderLevel(zstd.EncoderLevelFromZstd(level)), zstd.WithEncoderConcurrency(1), zstd.WithWindowSize(1<<win), zstd.WithEncoderCRC(win%2 == 0))
	if err != nil {
		die("%v", err)
	}
	for len(b) > 0 {
		n := min(len(b), 1000)
		_, _ = w.Write(b[:n])
		_ = w.Flush()
		b = b[n:]
	}
	_ = w.Close()
	return o.Bytes()
}

func cutBytes(b []byte, cuts []int) [][]byte {
	var r [][]byte
	last := 0
	for _, c := range cuts {
		p := len(b) * c / 1000
		if p > last {
			r = append(r, b[last:p])
			last = p
		}
	}
	return append(r, b[last:])
}

func init() {
	register(&Prop{
		ID:  "C12",
		New: func() any { return &C12Case{} },
		Draw: func(t *rapid.T) any {
			c := &C12Case{InGz: -3}
			o := &GenOpt{Keys: rapid.SampledFrom([][]string{noNULKeys(keysOdd), keysPlain}).Draw(t, "keys"), MaxLines: 8, Str: genStrNoNUL}
			c.Lines = o.Lines(t)
			if rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
				c.Lines = append(c.Lines, "garbage", `{"a"`, "")
			}
			switch rapid.IntRange(0, 30).Draw(t, "size") {
			case 0:
				c.N = rapid.IntRange(1000, 30000).Draw(t, "n")
			case 1, 2, 3:
				c.N = rapid.IntRange(50, 1500).Draw(t, "n")
			}
			switch rapid.IntRange(0, 3).Draw(t, "in") {
			case 0, 1:
				c.InGz = rapid.IntRange(-2, 9).Draw(t, "level")
			case 2:
				c.InZst = rapid.IntRange(1, 9).Draw(t, "zlevel")
				c.Win = rapid.SampledFrom([]int{0, 0, 10, 13, 17, 20, 21, 24}).Draw(t, "window")
			}
			c.Head = rapid.IntRange(0, 2).Draw(t, "head") == 0
			for i := rapid.IntRange(0, 3).Draw(t, "nCuts"); i > 0; i-- {
				last := 0
				if len(c.Cuts) > 0 {
					last = c.Cuts[len(c.Cuts)-1]
				}
				c.Cuts = append(c.Cuts, rapid.IntRange(last, 1000).Draw(t, "cut"))
			}
			c.Reader = rapid.IntRange(0, 3).Draw(t, "reader") == 0
			c.Out = rapid.SampledFrom([]string{"", ".gz", ".gz", ".zst", ".zst"}).Draw(t, "out")
			// Only the ends of names tell about compression.
			c.InName = rapid.SampledFrom([]string{"", "", "in", "in.gz.jsonl", "in.zst.jsonl.1", "x.gzip", "x.gz.d/in.jsonl", "x.zst/in"}).Draw(t, "inName")
			c.Base = rapid.SampledFrom([]string{"", "", "", "o.gz", "o.zst.x", "o.csv.gz"}).Draw(t, "base")
			c.NoNL = rapid.IntRange(0, 3).Draw(t, "noNL") == 0
			c.F = F{CSV: "o.csv", Raw: "o.raw", RawDelim: "|", PGDump: "o.sql", Concurrency: 1}
			c.F.MaxLines = rapid.SampledFrom([]int{0, 0, 0, 2}).Draw(t, "max")
			// The first of the two passes stops before the end.
			c.F.MaxLinesKeys = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "maxKeys")
			if rapid.IntRange(0, 2).Draw(t, "tr") == 0 {
				if ps := structPaths(c.Lines); len(ps) > 0 {
					if p := rapid.SampledFrom(ps).Draw(t, "prefix"); !strings.HasSuffix(p, ".") {
						c.Cfg.Transpose = map[string]string{p: "kids"}
					}
				}
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			// Lines longer than buffers are by default.
			for i, n := range []int{4096, 60000, 65536, 70000, 300000, 1100000} {
				c := &C12Case{InGz: -3, Out: []string{"", ".gz", ".zst"}[i%3]}
				c.Lines = []B{`{"a":1}`, B(`{"b":"` + strings.Repeat("x", n) + `"}`), `{"a":2}`}
				c.F = F{CSV: "o.csv", Raw: "o.raw", PGDump: "o.sql", Concurrency: 1, BufSize: 2 << 20}
				if i%2 == 0 {
					c.InGz = 6
				} else {
					c.InZst = 3
				}
				if !yield(c) {
					return
				}
				x := *c
				x.InGz, x.InZst = 9, 0
				if i%2 == 0 {
					x.InGz, x.InZst, x.Reader = -3, 7, true
				}
				if !yield(&x) {
					return
				}
			}
			// Sizes around the block size of parallel gzip (1 MiB) and beyond.
			big := wideLine(20, `"`+strings.Repeat("x", 30)+`"`)
			for i, n := range []int{900, 1100, 1500, 3300, 6000, 12000} {
				for _, out := range []string{".gz", ".zst"} {
					c := &C12Case{InGz: -3, Out: out, Cuts: []int{300, 301, 800}}
					c.Lines = []B{big, `{"k1":5,"z":[{"a":1},{"a":2}]}`}
					c.N = n
					if i%2 == 0 {
						c.InGz = 6
					} else {
						c.InZst = 3
					}
					c.F = F{CSV: "o.csv", Raw: "o.raw", PGDump: "o.sql", Concurrency: 1}
					c.Cfg.Transpose = map[string]string{".z": "kids"}
					if !yield(c) {
						return
					}
					if c.InZst > 0 {
						c.Win = 22 + i
					}
					if n < 3000 {
						continue
					}
					x := *c
					x.F.MaxLinesKeys, x.Reader, x.Out = 2, true, ""
					if !yield(&x) {
						return
					}
				}
			}
		},
		Check: checkC12,
		Classify: func(x any) ([]string, bool) {
			c := x.(*C12Case)
			var l []string
			for n, v := range map[string]bool{"gz-in": c.InGz >= -2, "zst-in": c.InZst > 0, "stream-window": c.Win > 0, "extra-headers": c.Head && (c.InGz >= -2 || c.InZst > 0), "several-members": len(c.Cuts) > 0 && (c.InGz >= -2 || c.InZst > 0), "reader": c.Reader, "gz-out": c.Out == ".gz", "zst-out": c.Out == ".zst", "large": c.N >= 1000, "transposed": len(c.Cfg.Transpose) > 0} {
				if v {
					l = append(l, n)
				}
			}
			return l, len(c.Lines) > 0 && (c.InGz >= -2 || c.InZst > 0 || c.Out != "")
		},
	})
}

func checkC12(e *Env, x any) error {
	c := x.(*C12Case)
	base := c.full()
	c.withBase(&base.F)
	data := joinLines(base.Lines)
	if c.NoNL {
		data = bytes.TrimSuffix(data, []byte("\n"))
	}
	if len(data) == 0 {
		return nil
	}
	plain := e.Run(base, In{Name: c.inName(), Data: data})
	if plain.Err != nil {
		return fmt.Errorf("plain run failed: %w", plain.Err)
	}
	if !c.NoNL {
		if err := checkCSV(base, plain); err != nil {
			return err
		}
	}
	in := In{Name: c.inName(), Data: data}
	switch {
	case c.InGz >= -2:
		in = In{Name: c.inName() + ".gz", Compr: "gzip"}
		for _, p := range cutBytes(data, c.Cuts) {
			if c.Head {
				in.Data = append(in.Data, gzMember(p, c.InGz)...)
				continue
			}
			in.Data = append(in.Data, gz(p, c.InGz)...)
		}
	case c.InZst > 0:
		in = In{Name: c.inName() + ".zst", Compr: "zst"}
		for _, p := range cutBytes(data, c.Cuts) {
			if c.Head {
				in.Data = append(in.Data, "\x52\x2a\x4d\x18\x05\x00\x00\x00{\"a\"\n"...)
			}
			if c.Win > 0 {
				in.Data = append(in.Data, zstStream(p, c.InZst, c.Win)...)
				continue
			}
			in.Data = append(in.Data, zst(p, c.InZst)...)
		}
	}
	in.Mem = c.Reader
	cc := *base
	cc.F.CSV += c.Out
	cc.F.Raw += c.Out
	cc.F.PGDump += c.Out
	o := e.Run(&cc, in)
	if o.Err != nil {
		return fmt.Errorf("run with compression failed: %w", o.Err)
	}
	want := map[string]string{}
	for n, s := range plain.Files {
		w := n + c.Out
		if c.Out != "" {
			for _, b := range []string{base.F.CSV, base.F.Raw} {
				if d := strings.TrimSuffix(childFile(b, "kids"), ""); n == d {
					w = childFile(b+c.Out, "kids")
				}
			}
		}
		want[w] = s
	}
	for n, s := range want {
		g, ok := o.Files[n]
		if !ok {
			return fmt.Errorf("output %s is missing", n)
		}
		if statusLine.ReplaceAllString(g, "") != statusLine.ReplaceAllString(s, "") {
			return fmt.Errorf("output %s: content differs from the plain run: want %s, got %s", n, short(s), short(g))
		}
	}
	for n := range o.Files {
		if _, ok := want[n]; !ok {
			return fmt.Errorf("unexpected output %s", n)
		}
	}
	return nil
}

// statusLine is a progress message in PostgreSQL dumps, it depends on how much
// of the input has been read.
var statusLine = regexp.MustCompile(`(?m)^SELECT '[^']*' AS status;$`)

func short(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}
