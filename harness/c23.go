package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// C23Part is one input.
type C23Part struct {
	N    int    `json:"n"`              // number of lines
	Mode string `json:"mode"`           // "", "gz", "zst"
	Mem  bool   `json:"mem,omitempty"`  // given as a reader
	NoNL bool   `json:"noNL,omitempty"` // without final newline
	Same int    `json:"same,omitempty"` // the same file as this earlier part, from 1
}

// C23Case is a case whose lines are spread over several inputs.
type C23Case struct {
	Case
	Parts []C23Part `json:"parts"`
	CLI   int       `json:"cli,omitempty"` // by the command, so many of the inputs (plus one) with -input
}

func (c *C23Case) inputs() []In {
	var ins []In
	at := 0
	for i, p := range c.Parts {
		ls := c.Lines[at : at+p.N]
		at += p.N
		if p.Same > 0 {
			ins = append(ins, ins[p.Same-1])
			continue
		}
		d := joinLines(ls)
		if p.NoNL && len(ls[len(ls)-1]) > 0 {
			d = bytes.TrimSuffix(d, []byte("\n"))
		}
		in := In{Name: fmt.Sprintf("in%d.jsonl", i), Data: d, Mem: p.Mem}
		switch p.Mode {
		case "gz":
			in.Data, in.Compr = gz(d, 6), "gzip"
			in.Name += ".gz"
		case "zst":
			in.Data, in.Compr = zst(d, 3), "zst"
			in.Name += ".zst"
		}
		ins = append(ins, in)
	}
	return ins
}

func init() {
	register(&Prop{
		ID:  "C23",
		New: func() any { return &C23Case{} },
		Draw: func(t *rapid.T) any {
			c := &C23Case{}
			o := &GenOpt{Keys: rapid.SampledFrom([][]string{{"a", "b"}, keysPlain, noNULKeys(keysOdd)}).Draw(t, "keys"), MaxLines: 12, MinLines: 2, MaxDepth: 2, Str: genStrNoNUL}
			c.Lines = o.Lines(t)
			for i := range c.Lines {
				switch rapid.IntRange(0, 15).Draw(t, "bad") {
				case 0:
					c.Lines[i] = ""
				case 1:
					c.Lines[i] = "no json"
				case 2:
					c.Lines[i] = `{"a":`
				case 3:
					c.Lines[i] += "\r"
				}
			}
			left := len(c.Lines)
			for left > 0 {
				n := rapid.IntRange(1, max(1, left)).Draw(t, "n")
				if len(c.Parts) == 0 && n == left {
					n = 1
				}
				left -= n
				c.Parts = append(c.Parts, C23Part{
					N: n, Mode: rapid.SampledFrom([]string{"", "", "gz", "zst"}).Draw(t, "mode"),
					Mem: rapid.IntRange(0, 2).Draw(t, "mem") == 0, NoNL: rapid.IntRange(0, 2).Draw(t, "noNL") == 0,
				})
			}
			for i := rapid.IntRange(-2, 2).Draw(t, "again"); i > 0; i-- {
				k := rapid.IntRange(0, len(c.Parts)-1).Draw(t, "same")
				at := 0
				for _, p := range c.Parts[:k] {
					at += p.N
				}
				p := C23Part{N: c.Parts[k].N, Same: k + 1}
				if s := c.Parts[k].Same; s > 0 {
					p.Same = s
				}
				c.Parts = append(c.Parts, p)
				c.Lines = append(c.Lines, c.Lines[at:at+p.N:at+p.N]...)
			}
			c.F = F{CSV: "o.csv", Raw: "o.raw", RawDelim: "|", PGDump: "o.sql", Concurrency: genConc(t)}
			c.F.AddSequence = rapid.IntRange(0, 2).Draw(t, "seq") == 0
			if names := colKeys(&c.Case); len(names) > 0 {
				name := rapid.SampledFrom(names)
				switch rapid.IntRange(0, 9).Draw(t, "opt") {
				case 0:
					c.F.GetKey = name.Draw(t, "get")
				case 1:
					c.Cfg.IncludeKeys = []string{name.Draw(t, "inc"), name.Draw(t, "inc"), "._sequence"}
				case 2:
					c.Cfg.Transpose = map[string]string{".a": "kids"}
				case 3:
					c.F.SkipZeroCols = true
				case 4:
					c.F.ChildrenLimit = 2
				case 5:
					c.F.ExtractStrings = true
				case 6:
					c.Cfg.MatchLinePrefix = "^(n)o|(j)"
				case 7:
					c.Cfg.ExcludeKeys = []string{name.Draw(t, "ex")}
				case 8:
					if rapid.Bool().Draw(t, "sqlite") {
						c.F.SQLite = "o.sqlite"
					}
				}
			}
			if rapid.IntRange(0, 11).Draw(t, "command") == 7 {
				c.CLI = 1 + rapid.IntRange(0, len(c.Parts)).Draw(t, "inFlag")
				c.Cfg = Cfg{}
				c.F = F{CSV: "o.csv", Concurrency: c.F.Concurrency, AddSequence: c.F.AddSequence}
			}
			return c
		},
		Check: checkC23,
		Classify: func(x any) ([]string, bool) {
			c := x.(*C23Case)
			var l []string
			seen := map[string]bool{}
			for _, p := range c.Parts {
				seen["plain"] = seen["plain"] || p.Mode == ""
				seen[p.Mode] = true
				seen["same-file-again"] = seen["same-file-again"] || p.Same > 0
				seen["reader"] = seen["reader"] || p.Mem && c.CLI == 0
				seen["command"] = c.CLI > 0
				seen["no-final-newline"] = seen["no-final-newline"] || p.NoNL
			}
			seen["multi-worker"] = c.F.Concurrency > 1
			for k, v := range seen {
				if v && k != "" {
					l = append(l, k)
				}
			}
			return l, len(c.Parts) > 1 && len(NewModel(&c.Case).Main.Cols) > 1
		},
	})
}

func checkC23(e *Env, x any) error {
	c := x.(*C23Case)
	if c.CLI > 0 {
		return c.command(e)
	}
	several := e.Run(&c.Case, c.inputs()...)
	if err := checkCSV(&c.Case, several); err != nil {
		return fmt.Errorf("several inputs: %w", err)
	}
	if c.F.ChildrenLimit == 0 {
		if err := checkChildren(&c.Case, several); err != nil {
			return fmt.Errorf("several inputs: %w", err)
		}
	}
	if c.F.Concurrency == 1 {
		one := e.RunCase(&c.Case)
		if one.Err != nil {
			return fmt.Errorf("one input: %w", one.Err)
		}
		for fn, s := range one.Files {
			g, ok := several.Files[fn]
			if strings.HasSuffix(fn, ".sqlite") {
				continue
			}
			s, g = statusLine.ReplaceAllString(s, ""), statusLine.ReplaceAllString(g, "")
			if !ok || s != g {
				return fmt.Errorf("%s: one input gives %s, several inputs give %s", fn, short(s), short(g))
			}
		}
		if len(one.Files) != len(several.Files) {
			return fmt.Errorf("one input gives %d files, several inputs give %d", len(one.Files), len(several.Files))
		}
	}
	m := NewModel(&c.Case)
	if c.F.SQLite != "" || c.F.Concurrency != 1 {
		main, kids, err := csvTables(several, "o.csv", m.dsts())
		if err != nil {
			return err
		}
		return compareOthers(&c.Case, several, m, main, kids, len(m.lines))
	}
	return nil
}

// command runs the case by the command, with the last inputs given by a flag.
func (c *C23Case) command(e *Env) error {
	dir := e.Dir()
	defer os.RemoveAll(dir)
	var names []string
	for _, in := range c.inputs() {
		if err := os.WriteFile(filepath.Join(dir, in.Name), in.Data, 0o644); err != nil {
			die("%v", err)
		}
		names = append(names, in.Name)
	}
	args := []string{"-csv", "o.csv", "-concurrency", fmt.Sprint(c.F.Concurrency), "-verbosity", "0"}
	if c.F.AddSequence {
		args = append(args, "-add-sequence")
	}
	direct := len(names) - (c.CLI - 1)
	if direct < len(names) {
		args = append(args, "-input", strings.Join(names[direct:], ","))
	}
	r := e.runCmd(e.CLI, dir, -1, "", append(args, names[:direct]...)...)
	if r.Code != 0 {
		return fmt.Errorf("%s", r)
	}
	b, err := os.ReadFile(filepath.Join(dir, "o.csv"))
	if err != nil {
		return err
	}
	return checkCSV(&c.Case, &Out{Files: map[string]string{"o.csv": string(b)}})
}
