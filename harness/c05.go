package props

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

func keyNames(lines []B) []string {
	m := NewModel(&Case{Lines: lines})
	var r []string
	for _, k := range m.list {
		r = append(r, k.name)
	}
	return r
}

// genPattern draws a pattern that is meant to hit some of the keys: the
// simplified syntax with stars, or a regular expression.
func genPattern(t *rapid.T, names []string) string {
	k := rapid.SampledFrom(names).Draw(t, "patKey")
	switch rapid.IntRange(0, 5).Draw(t, "patKind") {
	case 0: // star segment
		segs := strings.Split(k, ".")
		i := rapid.IntRange(1, len(segs)-1).Draw(t, "seg")
		for j := range segs {
			if strings.ContainsAny(segs[j], `\*+?()|^$`) {
				segs[j] = "*"
			}
		}
		segs[i] = "*"
		p := strings.Join(segs, ".")
		if strings.HasSuffix(p, "$") {
			return "^" + regexp.QuoteMeta(k) + "$"
		}
		return p
	case 1:
		return "^" + regexp.QuoteMeta(k) + "$"
	case 2:
		return "^" + regexp.QuoteMeta(k)
	case 3:
		segs := strings.Split(k, ".")
		return regexp.QuoteMeta(segs[len(segs)-1]) + "$"
	case 4:
		return rapid.SampledFrom([]string{`\[\d+\]`, `^\.[a-b]$`, `a`, `^\.[^.]+$`, `\.b\.`, `(a|b)$`, `.b$`, `.*b$`, `.*\.a$`, `.$`, `.\[0\]$`}).Draw(t, "re")
	default:
		return rapid.SampledFrom([]string{".*", ".*.*", ".a.*", ".*.a", ".*.[0]", ".a.[*]"}).Draw(t, "star")
	}
}

func init() {
	register(&Prop{
		ID:  "C05",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			o := &GenOpt{Keys: rapid.SampledFrom([][]string{keysPlain, {"a", "b"}, keysOdd, {"a", "b", "0", "[0]", "e.f"}}).Draw(t, "keys"), MaxLines: 6}
			c.Lines = o.Lines(t)
			names := append(keyNames(c.Lines), ".missing", ".a.zz", ".a", ".a.[0]", ".b.[7]")
			name := rapid.SampledFrom(names)
			konst := rapid.SampledFrom([]string{"const:x", "const:", "const:a.b,c", "const:\"q\""})
			list := func(n int) (r []string) {
				for i := rapid.IntRange(1, n).Draw(t, "n"); i > 0; i-- {
					if rapid.IntRange(0, 7).Draw(t, "const") == 0 {
						r = append(r, konst.Draw(t, "konst"))
					} else {
						r = append(r, name.Draw(t, "inc"))
					}
				}
				return r
			}
			switch rapid.IntRange(0, 9).Draw(t, "mode") {
			case 0:
				c.F.GetKey = name.Draw(t, "get")
			case 1:
				c.Cfg.IncludeKeys = []string{name.Draw(t, "inc")}
			case 2:
				c.Cfg.IncludeKeys = list(5)
			case 3:
				for i := rapid.IntRange(1, 3).Draw(t, "nIncR"); i > 0; i-- {
					c.Cfg.IncludeKeysRegex = append(c.Cfg.IncludeKeysRegex, genPattern(t, names))
				}
			case 4:
				c.Cfg.IncludeKeys = list(4)
				c.Cfg.IncludeKeysRegex = []string{genPattern(t, names)}
			case 5:
			case 6:
				c.Cfg.IncludeKeys = list(2)
				c.F.GetKey = name.Draw(t, "get")
			}
			if c.Cfg.IncludeKeys == nil && c.Cfg.IncludeKeysRegex == nil && c.F.GetKey == "" || rapid.IntRange(0, 2).Draw(t, "excl") == 0 {
				for i := rapid.IntRange(0, 2).Draw(t, "nEx"); i > 0; i-- {
					k := name.Draw(t, "ex")
					if rapid.IntRange(0, 3).Draw(t, "up") == 0 {
						k = strings.ToUpper(k)
					}
					c.Cfg.ExcludeKeys = append(c.Cfg.ExcludeKeys, k)
				}
				for i := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "nExR"); i > 0; i-- {
					c.Cfg.ExcludeKeysRegex = append(c.Cfg.ExcludeKeysRegex, genPattern(t, names))
				}
			}
			c.F.CSV = "o.csv"
			c.F.Concurrency = genConc(t)
			if rapid.IntRange(0, 4).Draw(t, "scan") == 0 {
				// Some keys are not found by scanning.
				c.F.MaxLinesKeys = rapid.IntRange(1, 3).Draw(t, "maxKeys")
			}
			c.F.AddSequence = rapid.IntRange(0, 5).Draw(t, "seq") == 0
			return c
		},
		Check: func(e *Env, x any) error {
			c := x.(*Case)
			o := e.RunCase(c)
			if err := checkCSV(c, o); err != nil {
				return err
			}
			return projection(e, c, o)
		},
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			m := NewModel(c)
			full := NewModel(&Case{Lines: c.Lines})
			var l []string
			if len(m.Main.Cols) == 1 {
				l = append(l, "single-column")
			}
			if len(c.Cfg.IncludeKeysRegex) > 0 {
				l = append(l, "include-pattern")
			} else if len(c.Cfg.IncludeKeys) > 0 || c.F.GetKey != "" {
				l = append(l, "one-pass")
			} else {
				l = append(l, "exclude-only")
			}
			ne := 0
			for _, r := range m.Main.Rows {
				for _, cell := range r {
					if cell.text() != "" {
						ne++
					}
				}
			}
			return l, ne > 0 && len(full.list) >= 2 && len(m.Main.Cols) != len(full.list)
		},
	})
}

// projection compares with the output of the same input without selection.
func projection(e *Env, c *Case, o *Out) error {
	full := *c
	full.Cfg = Cfg{}
	full.F.GetKey = ""
	fo := e.RunCase(&full)
	if fo.Err != nil {
		return fmt.Errorf("unrestricted run: %w", fo.Err)
	}
	fr, err := parseCSV(fo.Files["o.csv"])
	if err != nil {
		return err
	}
	rr, err := parseCSV(o.Files["o.csv"])
	if err != nil {
		return err
	}
	if len(fr) == 0 || len(rr) == 0 {
		return nil
	}
	pos := map[string]int{}
	for i, h := range fr[0] {
		pos[h] = i
	}
	for j, h := range rr[0] {
		p, ok := pos[h]
		if !ok || len(rr) != len(fr) {
			continue // constants, missing keys; no columns at all (checked against the model)
		}
		for i := 1; i < len(fr); i++ {
			if fr[i][p] != rr[i][j] {
				return fmt.Errorf("row %d, column %q: %q with selection, %q without", i, h, rr[i][j], fr[i][p])
			}
		}
	}
	return nil
}
