package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

var zeroValues = []string{"null", "false", "0", `""`, "0.0", "-0", "0e3", "-0.00E+5"}

// wholeZeros tells if columns of child tables are either dropped or complete:
// a column has several keys, and some of them may be zeros only.
func wholeZeros(skip, full *Model) bool {
	for dst, ch := range skip.Children {
		n := map[string]int{}
		for _, r := range full.Children[dst].Rows {
			for k := range r.Cells {
				n[k]++
			}
		}
		for _, r := range ch.Rows {
			for k := range r.Cells {
				n[k]--
			}
		}
		for _, col := range ch.Cols {
			if n[col.Key] != 0 {
				return false
			}
		}
	}
	return true
}

func init() {
	register(&Prop{
		ID:  "C19",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			keys := rapid.SampledFrom([][]string{{"a", "b", "c", "d"}, keysPlain, keysOdd, {"k", "K", "l", "L"}}).Draw(t, "keys")
			rare := rapid.IntRange(1, 30).Draw(t, "rare") // one value in so many is not zero
			scalar := func() string {
				if rapid.IntRange(0, rare).Draw(t, "zero?") > 0 {
					return rapid.SampledFrom(zeroValues).Draw(t, "zero")
				}
				return rapid.SampledFrom([]string{"true", "1", "-1", "0.001", "1e-5", "0.0000000001", "-1e-12", "2e-300", "5e-324", "1e-400", "-1E-999", "0.1e-330", `" "`, `"0"`, `"false"`, `"null"`, `"x"`, "{}", "[]"}).Draw(t, "value")
			}
			o := &GenOpt{Keys: keys}
			for i := rapid.IntRange(1, 7).Draw(t, "lines"); i > 0; i-- {
				var obj func(depth int) string
				obj = func(depth int) string {
					var p []string
					used := map[string]bool{}
					for j := rapid.IntRange(0, 4).Draw(t, "n"); j > 0; j-- {
						k := rapid.SampledFrom(keys).Draw(t, "key")
						if used[strings.ToLower(k)] {
							continue
						}
						used[strings.ToLower(k)] = true
						v := ""
						switch x := rapid.IntRange(0, 7).Draw(t, "kind"); {
						case x == 0 && depth < 3:
							v = obj(depth + 1)
						case x == 1 && depth < 3:
							var e []string
							for n := rapid.IntRange(0, 3).Draw(t, "len"); n > 0; n-- {
								e = append(e, scalar())
							}
							v = "[" + strings.Join(e, ",") + "]"
						default:
							v = scalar()
						}
						p = append(p, o.lit(t, k)+":"+v)
					}
					return "{" + strings.Join(p, ",") + "}"
				}
				c.Lines = append(c.Lines, B(obj(1)))
			}
			c.F = F{CSV: "o.csv", SkipZeroCols: true, Concurrency: genConc(t)}
			c.F.MaxLinesKeys = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "keyLines")
			c.F.OffsetLines = rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "offset")
			c.F.AddSequence = rapid.IntRange(0, 5).Draw(t, "seq") == 0
			switch rapid.IntRange(0, 9).Draw(t, "opt") {
			case 0:
				c.Cfg.ExcludeKeysRegex = []string{"a"}
			case 1:
				c.Cfg.MatchLinePrefix = "(p)?(q)?$"
				for i := range c.Lines {
					c.Lines[i] = rapid.SampledFrom([]B{"", "p", "q", "r"}).Draw(t, "prefix") + c.Lines[i]
				}
			case 2:
				c.F.ExtractStrings = true
				c.Lines = append(c.Lines, B(fmt.Sprintf(`{"doc":%s}`, js(`{"x":`+scalar()+`,"y":[`+scalar()+`]}`))))
			case 3:
				c.F.CaseSensitiveKeys = true
			case 4:
				c.Cfg.KeepJSON = []string{".a", ".k"}
			case 5, 6:
				c.Cfg.Transpose = map[string]string{rapid.SampledFrom([]string{".a", ".b", ".k"}).Draw(t, "transposed"): "kids"}
				c.F.CaseSensitiveKeys = true
			}
			if keys[0] == "k" && !c.F.CaseSensitiveKeys {
				c.F.Concurrency = 1 // the first spelling names the column
				c.F.MaxLinesKeys = 0
			}
			if rapid.IntRange(0, 5).Draw(t, "mix") == 0 {
				drawMix(t, c)
			}
			return c
		},
		Check: func(e *Env, x any) error {
			c := x.(*Case)
			if err := checkCSV(c, e.RunCase(c)); err != nil {
				return err
			}
			full := *c
			full.F.SkipZeroCols = false
			if len(c.Cfg.Transpose) > 0 && wholeZeros(NewModel(c), NewModel(&full)) {
				if err := checkChildren(c, e.RunCase(c)); err != nil {
					return err
				}
			}
			if len(NewModel(c).Main.Cols) == 0 {
				return nil
			}
			return subTable(e, c, &full)
		},
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			full := *c
			full.F.SkipZeroCols = false
			a, b := len(NewModel(c).Main.Cols), len(NewModel(&full).Main.Cols)
			var l []string
			for n, v := range map[string]bool{"some-dropped": a < b, "all-dropped": a == 0 && b > 0, "none-dropped": a == b, "transposed": len(c.Cfg.Transpose) > 0 && wholeZeros(NewModel(c), NewModel(&full)), "case-variants": strings.Contains(js(c.Lines), `K\"`) && !c.F.CaseSensitiveKeys} {
				if v {
					l = append(l, n)
				}
			}
			return l, a > 0 && a < b
		},
	})
}
