package props

import (
	"strings"

	"pgregory.net/rapid"
)

var prefixPatterns = []string{
	`^(\w+)`, `(\w+) (\w+)`, `^([\w\d-]+) [\w\d]+ ([\d/]+\s[\d:\.]+)`, `^(.*)$`, `(\d+)`, `^(a)?(b)?(.*)`, `\[(\w+)\]\s*(.*)`,
	`^$`, `(x)|(y)`, `(\w)(\w)(\w)(\w)(\w)(\w)(\w)(\w)(\w)(\w)(\w)?`, `no groups`, `([^ ]*) `, `^([^:]*):([^:]*):?`, `(\w+)=(\w*)`,
}

func init() {
	register(&Prop{
		ID:  "C04",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			pat := rapid.SampledFrom(prefixPatterns).Draw(t, "pattern")
			o := &GenOpt{MaxKids: 3}
			o.norm()
			n := rapid.IntRange(1, 8).Draw(t, "lines")
			for i := 0; i < n; i++ {
				pre := ""
				switch rapid.IntRange(0, 5).Draw(t, "pre") {
				case 0:
				case 1, 2:
					pre = rapid.StringMatching(`[abxy0-9:=\[\] .,"-]{1,14}`).Draw(t, "text")
				case 3:
					pre = rapid.SampledFrom([]string{"host1 app 2021/01/02 10:11:12.5 ", "[INFO] started", "a b c", "x", "y x", "k=v k2=", "日本 é:", "\xff\xfe ", " ", "\t\r", "no groups", "1 22 333", "a\x00b "}).Draw(t, "special")
				case 4:
					pre = strings.Repeat("ab 1", rapid.IntRange(1, 60).Draw(t, "rep"))
				default:
					pre = rapid.StringMatching(`[a-z]{1,5} [a-z0-9]{1,5} [0-9/]{1,6} [0-9:.]{1,6} `).Draw(t, "log")
				}
				body := string(o.Line(t))
				if rapid.IntRange(0, 3).Draw(t, "nojson") == 0 {
					body = rapid.SampledFrom([]string{"", "text", "{\"a\":", "{]}", "{", "{}"}).Draw(t, "body")
				}
				c.Lines = append(c.Lines, B(pre+body))
			}
			if rapid.Bool().Draw(t, "inConfig") {
				c.Cfg.MatchLinePrefix = pat
				if rapid.IntRange(0, 3).Draw(t, "both") == 0 {
					c.Cfg.MatchLinePrefix = rapid.SampledFrom(prefixPatterns).Draw(t, "pattern2")
					c.F.MatchLinePrefix = pat
				}
			} else {
				c.F.MatchLinePrefix = pat
			}
			c.F.CSV = "o.csv"
			c.F.Concurrency = genConc(t)
			c.F.ChildrenLimit = rapid.SampledFrom([]int{0, 0, 100}).Draw(t, "limit")
			c.F.AddSequence = rapid.IntRange(0, 4).Draw(t, "seq") == 0
			if rapid.IntRange(0, 5).Draw(t, "mix") == 0 {
				drawMix(t, c)
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			// Long prefixes with captures at both ends, and texts without a document.
			for _, n := range []int{100, 255, 256, 1000, 1023, 1024, 4000, 4095, 4096, 5000, 33000, 66000, 140000, 300000} {
				for i, pat := range []string{`^(\w+) .* (\w+=\w+)`, `^(.*)$`, `(\w)=(\w)`, `(x+)y`} {
					fill := strings.Repeat("x", n)
					c := &Case{Lines: []B{
						B("id1 " + fill + " k=v "), `{"a":1}`, B("id2 " + fill + ` w=z {"a":2,"b":"` + fill + `"}`),
						B("id3 " + fill + "y k=v k=w"), B(`s {"b":"x"}`), B(fill + `y=z{"a":"{"}`),
					}}
					c.F = F{CSV: "o.csv", Concurrency: 1 + i, MatchLinePrefix: pat, BufSize: 1 << 20}
					if !yield(c) {
						return
					}
				}
			}
		},
		Check: func(e *Env, x any) error {
			c := x.(*Case)
			return checkCSV(c, e.RunCase(c))
		},
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			m := NewModel(c)
			caps, nojson, plain := 0, 0, 0
			for _, evs := range m.lines {
				hasP, hasJ := false, false
				for _, e := range evs {
					if e.path[0] == "_prefix" {
						hasP = true
					} else {
						hasJ = true
					}
				}
				if hasP {
					caps++
				} else {
					plain++
				}
				if !hasJ {
					nojson++
				}
			}
			var l []string
			if caps > 0 && plain > 0 {
				l = append(l, "some-match")
			}
			if nojson > 0 {
				l = append(l, "rows-without-json")
			}
			if c.Cfg.MatchLinePrefix != "" {
				l = append(l, "pattern-in-config")
			}
			return l, caps > 0 && len(c.Lines) > 1
		},
	})
}
