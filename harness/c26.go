package props

import (
	"fmt"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// respell draws another letter case.
func respell(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 4).Draw(t, "spelling") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		r := []rune(s)
		for i := range r {
			if rapid.Bool().Draw(t, "up") {
				r[i] = unicode.ToUpper(r[i])
			} else {
				r[i] = unicode.ToLower(r[i])
			}
		}
		return string(r)
	}
	return s
}

func init() {
	register(&Prop{
		ID:  "C26",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			keys := rapid.SampledFrom([][]string{{"a", "b"}, {"userId", "name", "x"}, {"é", "дом", "k"}, {"a", "b", "c", "0"}}).Draw(t, "keys")
			o := &GenOpt{}
			o.norm()
			for i := rapid.IntRange(1, 7).Draw(t, "lines"); i > 0; i-- {
				var obj func(depth int) string
				obj = func(depth int) string {
					var p []string
					used := map[string]bool{}
					for j := rapid.IntRange(0, 3).Draw(t, "n"); j > 0; j-- {
						k := rapid.SampledFrom(keys).Draw(t, "key")
						if used[k] {
							continue
						}
						used[k] = true
						v := ""
						if depth < 3 && rapid.IntRange(0, 3).Draw(t, "nest") == 0 {
							v = obj(depth + 1)
							if rapid.IntRange(0, 2).Draw(t, "arr") == 0 {
								v = "[" + v + "," + obj(depth+1) + "]"
							}
						} else {
							o.MaxDepth = 1
							v = o.Value(t, 3)
						}
						p = append(p, o.lit(t, respell(t, k))+":"+v)
					}
					return "{" + strings.Join(p, ",") + "}"
				}
				c.Lines = append(c.Lines, B(obj(1)))
			}
			c.F = F{CSV: "o.csv", Concurrency: genConc(t)}
			c.F.CaseSensitiveKeys = rapid.IntRange(0, 2).Draw(t, "sensitive") == 0
			names := colKeys(c)
			if len(names) > 0 {
				name := rapid.SampledFrom(names)
				switch rapid.IntRange(0, 11).Draw(t, "opt") {
				case 0:
					c.Cfg.ExcludeKeys = []string{respell(t, name.Draw(t, "ex")), respell(t, name.Draw(t, "ex"))}
				case 1:
					c.Cfg.ReplaceKeys = map[string]string{respell(t, name.Draw(t, "ren")): "new"}
				case 2:
					c.Cfg.Transpose = map[string]string{"." + keys[0]: "kids"}
					c.F.Concurrency = 1
				case 3:
					c.Cfg.IncludeKeysRegex = []string{"^" + strings.ReplaceAll(name.Draw(t, "inc"), "[", `\[`)}
					c.F.Concurrency = 1
				case 4, 5, 6:
					for i := rapid.IntRange(1, 3).Draw(t, "nInc"); i > 0; i-- {
						c.Cfg.IncludeKeys = append(c.Cfg.IncludeKeys, respell(t, name.Draw(t, "inc")))
					}
					if rapid.IntRange(0, 3).Draw(t, "incToo") == 0 {
						c.Cfg.IncludeKeysRegex = []string{"(?i)" + strings.ReplaceAll(name.Draw(t, "inc"), "[", `\[`)}
						c.F.Concurrency = 1
					}
				case 7:
					c.F.GetKey = respell(t, name.Draw(t, "get"))
				case 8:
					c.F.MaxLinesKeys = rapid.IntRange(1, 4).Draw(t, "window")
					c.F.Concurrency = 1
				}
				if rapid.IntRange(0, 4).Draw(t, "time") == 0 {
					k := name.Draw(t, "timeKey")
					c.Cfg.OutputTimeFormat = "06.1.2"
					for i, l := range c.Lines {
						if rapid.Bool().Draw(t, "isTime") {
							c.Lines[i] = B(strings.TrimSuffix(string(l), "}"))
							if c.Lines[i] != "{" {
								c.Lines[i] += ","
							}
							c.Lines[i] += B(js(respell(t, "when")) + `:` + js(rapid.SampledFrom([]string{"2024-02-29", "2023-02-29", "x", ""}).Draw(t, "date")) + "}")
							k = ".when"
						}
					}
					c.Cfg.ParseTime = map[string]string{respell(t, k): "2006-01-02"}
				}
			}
			return c
		},
		Check: checkC26,
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			m := NewModel(c)
			var l []string
			variants := false
			seen := map[string]string{}
			for _, evs := range m.lines {
				for _, e := range evs {
					f := flat(e.path)
					if p := seen[strings.ToLower(f)]; p != "" && p != f {
						variants = true
					}
					seen[strings.ToLower(f)] = f
				}
			}
			for n, v := range map[string]bool{"variants": variants, "sensitive": c.F.CaseSensitiveKeys, "excluded": len(c.Cfg.ExcludeKeys) > 0, "renamed": len(c.Cfg.ReplaceKeys) > 0, "listed": len(c.Cfg.IncludeKeys) > 0 || c.F.GetKey != "", "time": len(c.Cfg.ParseTime) > 0, "multi-worker": c.F.Concurrency > 1} {
				if v {
					l = append(l, n)
				}
			}
			return l, variants
		},
	})
}

func checkC26(e *Env, x any) error {
	c := x.(*Case)
	o := e.RunCase(c)
	if c.F.Concurrency == 1 || c.F.CaseSensitiveKeys {
		if err := checkCSV(c, o); err != nil {
			return err
		}
		return checkChildren(c, o)
	}
	// With several workers a column has the name of any of its spellings.
	if o.Err != nil {
		return fmt.Errorf("processing failed: %w", o.Err)
	}
	rows, err := parseCSV(o.Files["o.csv"])
	if err != nil {
		return err
	}
	m := NewModel(c)
	if len(rows) > 0 && len(m.Main.Cols) > 0 {
		for i, h := range rows[0] {
			for _, col := range m.Main.Cols {
				k := m.keys[m.ck(col.Key)]
				if k == nil || col.Name != k.name || m.ck(h) != m.ck(col.Name) {
					continue
				}
				for _, sp := range k.spells {
					if sp.name == h && sp.column() {
						rows[0][i] = col.Name
					}
				}
			}
		}
	}
	return m.CompareMain(rows, false)
}
