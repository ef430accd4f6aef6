package props

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	register(&Prop{
		ID:  "C14",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			keys := rapid.SampledFrom([][]string{{"a", "ab", "a1"}, {"a", "b"}, {"a", "A", "b", "B"}, {"a", "ab", "b", "c", "d", "e", "f", "g"}, keysOdd, keysPlain}).Draw(t, "keys")
			o := &GenOpt{Keys: keys, MaxLines: 7, MaxDepth: rapid.IntRange(2, 4).Draw(t, "depth"), MaxKids: rapid.IntRange(2, 7).Draw(t, "kids")}
			c.Lines = o.Lines(t)
			ps := structPaths(c.Lines)
			if len(ps) == 0 {
				ps = []string{".a"}
			}
			c.F = F{CSV: "o.csv", Concurrency: genConc(t)}
			if rapid.IntRange(0, 5).Draw(t, "extract") == 0 {
				// Documents inside of texts are kept and limited as any other.
				c.F.ExtractStrings = true
				io := *o
				io.MaxLines = 2
				for i, l := range io.Lines(t) {
					c.Lines = append(c.Lines, B(`{"s":`+js(string(l))+`,"u":"https://h/p`+strconv.Itoa(i)+`/r?q=1&`+keys[0]+`=2"}`))
					for _, p := range structPaths([]B{l}) {
						ps = append(ps, ".s.JSON"+p)
					}
				}
				ps = append(ps, ".s.JSON", ".u.URL", ".u.URL.path", ".u.URL.query")
			}
			if len(keys) > 1 && keys[1] == "A" {
				c.F.CaseSensitiveKeys = true
			}
			mode := rapid.IntRange(0, 3).Draw(t, "mode")
			if mode != 0 {
				c.F.ChildrenLimit = rapid.IntRange(1, 6).Draw(t, "limit")
				if rapid.Bool().Draw(t, "allow") {
					c.Cfg.AllowCardinality = rapid.SliceOfN(rapid.SampledFrom(ps), 1, 3).Draw(t, "allowed")
				}
			}
			if mode == 0 || mode == 3 {
				c.Cfg.KeepJSON = rapid.SliceOfN(rapid.SampledFrom(append(ps, ".none", ".b")), 1, 3).Draw(t, "keep")
			}
			if rapid.IntRange(0, 5).Draw(t, "pref") == 0 {
				c.F.MatchLinePrefix = `([a-z])(\d)(x)?(y)?`
				for i := range c.Lines {
					c.Lines[i] = rapid.SampledFrom([]B{"", "a1 ", "b2x "}).Draw(t, "prefix") + c.Lines[i]
				}
			}
			if rapid.IntRange(0, 5).Draw(t, "dup") == 0 {
				// More lines with the shapes of the first ones.
				c.Lines = append(c.Lines, c.Lines...)
			}
			if rapid.IntRange(0, 5).Draw(t, "inc") == 0 && mode == 0 {
				c.Cfg.IncludeKeys = rapid.SliceOfN(rapid.SampledFrom(ps), 1, 2).Draw(t, "include")
				for _, k := range c.Cfg.IncludeKeys {
					for _, p := range c.Cfg.KeepJSON {
						if strings.HasPrefix(k, p+".") {
							c.Cfg.IncludeKeys = nil // a part of a kept document
							return c
						}
					}
				}
			}
			if mode == 0 && rapid.IntRange(0, 4).Draw(t, "seq") == 0 {
				c.F.AddSequence = true
			}
			return c
		},
		Check: func(e *Env, x any) error {
			c := x.(*Case)
			return checkCSV(c, e.RunCase(c))
		},
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			m := NewModel(c)
			var l []string
			kept := false
			for _, r := range m.Main.Rows {
				for _, cell := range r {
					kept = kept || cell.Doc != nil
				}
			}
			lim := len(m.keep) > 0 && c.F.ChildrenLimit > 0
			for n, v := range map[string]bool{"kept-document": kept, "over-limit": lim, "allowed": len(c.Cfg.AllowCardinality) > 0, "listed": len(c.Cfg.KeepJSON) > 0, "extraction": c.F.ExtractStrings} {
				if v {
					l = append(l, n)
				}
			}
			return l, kept && len(m.Main.Cols) > 1
		},
	})
}
