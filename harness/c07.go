package props

import (
	"slices"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	register(&Prop{
		ID:  "C07",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			o := &GenOpt{Keys: rapid.SampledFrom([][]string{{"a", "b"}, {"a", "b", "c", "d"}, keysPlain, keysOdd}).Draw(t, "keys"), MaxLines: 7, MaxDepth: rapid.IntRange(1, 3).Draw(t, "depth"), MaxKids: 5}
			if rapid.Bool().Draw(t, "short") {
				o.Str = func(t *rapid.T) string {
					return rapid.SampledFrom([]string{"", "x", "y", ",", "NULL", "ABSENT"}).Draw(t, "s")
				}
				o.Num = func(t *rapid.T) string { return rapid.SampledFrom([]string{"0", "1", "1.50", "-2e3"}).Draw(t, "n") }
			}
			c.Lines = o.Lines(t)
			names := keyNames(c.Lines)
			c.F = F{CSV: "o.csv", Concurrency: genConc(t)}
			if rapid.Bool().Draw(t, "concat") {
				d := rapid.SampledFrom([]string{",", "", "; ", "\n", "|", "\"", "x"}).Draw(t, "delim")
				c.Cfg.ConcatDelimiter = &d
			}
			if len(names) == 0 {
				return c
			}
			c.Cfg.ReplaceKeys = map[string]string{}
			for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
				k := rapid.SampledFrom(names).Draw(t, "k")
				if rapid.IntRange(0, 4).Draw(t, "up") == 0 {
					k = strings.ToLower(k)
				}
				for p := range c.Cfg.ReplaceKeys {
					if strings.EqualFold(p, k) {
						delete(c.Cfg.ReplaceKeys, p)
					}
				}
				c.Cfg.ReplaceKeys[k] = rapid.SampledFrom([]string{"X", "X", "Y", names[0]}).Draw(t, "target")
			}
			if rapid.IntRange(0, 2).Draw(t, "re?") == 0 {
				c.Cfg.ReplaceKeysRegex = map[string]string{genPattern(t, names): rapid.SampledFrom([]string{"X", "Z"}).Draw(t, "tpl")}
			}
			if rapid.IntRange(0, 3).Draw(t, "inc?") == 0 {
				for i := rapid.IntRange(1, 5).Draw(t, "nInc"); i > 0; i-- {
					c.Cfg.IncludeKeys = append(c.Cfg.IncludeKeys, rapid.SampledFrom(names).Draw(t, "inc"))
				}
			}
			if rapid.IntRange(0, 5).Draw(t, "mix") == 0 {
				drawMix(t, c)
				// A constant that a rule merges into a shared column is not specified.
				c.Cfg.IncludeKeys = slices.DeleteFunc(c.Cfg.IncludeKeys, func(k string) bool { return strings.HasPrefix(k, "const:") })
			}
			return c
		},
		Check: func(e *Env, x any) error {
			c := x.(*Case)
			return checkCSV(c, e.RunCase(c))
		},
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			m := NewModel(c)
			var l []string
			if m.mergedCols > 0 {
				l = append(l, "coalesced-columns")
			}
			if m.mergedCells > 0 {
				l = append(l, "several-values-in-one-cell")
			}
			if c.Cfg.ConcatDelimiter != nil {
				l = append(l, "concatenated")
			}
			if len(c.Cfg.IncludeKeys) > 0 {
				l = append(l, "one-pass")
			}
			return l, m.mergedCells > 0
		},
	})
}
