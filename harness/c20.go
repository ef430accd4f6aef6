package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

func init() {
	register(&Prop{
		ID:  "C20",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			str := func(t *rapid.T) string {
				n := rapid.IntRange(0, 20).Draw(t, "chars")
				var b strings.Builder
				al := rapid.SampledFrom([]string{"a", "aé", "é", "日", "a日", "😀", "aé日😀", "\"\\\n", "e\u0301"}).Draw(t, "alphabet")
				for i := 0; i < n; i++ {
					b.WriteRune(rapid.SampledFrom([]rune(al)).Draw(t, "char"))
				}
				return b.String()
			}
			o := &GenOpt{Keys: rapid.SampledFrom([][]string{{"a", "b"}, keysPlain, keysOdd}).Draw(t, "keys"), MaxLines: 5, Str: str}
			c.Lines = o.Lines(t)
			c.F = F{CSV: "o.csv", Concurrency: genConc(t), FieldLimit: rapid.IntRange(1, 24).Draw(t, "limit")}
			switch rapid.IntRange(0, 9).Draw(t, "opt") {
			case 0:
				c.Cfg.MatchLinePrefix = "(?s)(.*)"
				for i := range c.Lines {
					c.Lines[i] = B(strings.NewReplacer("\n", "", "\r", "", "{", "").Replace(str(t))) + " " + c.Lines[i]
				}
			case 1:
				c.F.ExtractStrings = true
				c.Lines = append(c.Lines, B(`{"doc":`+js(`{"x":`+js(str(t))+`,"url":`+js("http://h/"+strings.NewReplacer("\n", "", "\\", "", "\"", "").Replace(str(t)))+`}`)+`}`))
			case 6:
				// Contents are taken from the whole text.
				c.Cfg.ExtractValuesRegex = map[string]string{`^\.(doc|a)$`: rapid.SampledFrom([]string{"JSON", "URL"}).Draw(t, "extract")}
				inner := `{"x":` + js(str(t)) + `,"y":[` + js(str(t)) + `]}`
				if c.Cfg.ExtractValuesRegex[`^\.(doc|a)$`] == "URL" {
					inner = "https://host.example/p/" + rapid.StringMatching(`[a-z]{0,12}\?q=[a-z0-9]{0,12}`).Draw(t, "url")
				}
				c.Lines = append(c.Lines, B(`{"doc":`+js(inner)+`}`))
			case 2:
				c.F.AddSequence = true
			case 3:
				if names := keyNames(c.Lines); len(names) > 0 {
					c.F.GetKey = rapid.SampledFrom(names).Draw(t, "get")
				}
			case 4:
				c.Cfg.Transpose = map[string]string{".a": "kids"}
			case 5:
				c.Cfg.ReplaceKeys = map[string]string{".a": "ab", ".b": "ab"}
				d := "-"
				c.Cfg.ConcatDelimiter = &d
				c.F.Concurrency = 1
			}
			if rapid.IntRange(0, 5).Draw(t, "mix") == 0 {
				drawMix(t, c)
			}
			return c
		},
		Check: checkC20,
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			full := *c
			full.F.FieldLimit = 0
			cut, split := false, false
			for _, evs := range NewModel(&full).lines {
				for _, e := range evs {
					if e.k == jStr && len(e.s) > c.F.FieldLimit {
						cut = true
						if !utf8.RuneStart(e.s[c.F.FieldLimit]) {
							split = true
						}
					}
				}
			}
			var l []string
			for n, v := range map[string]bool{"cut": cut, "inside-character": split, "prefix": c.Cfg.MatchLinePrefix != "", "extracted": c.F.ExtractStrings, "concatenated": c.Cfg.ConcatDelimiter != nil} {
				if v {
					l = append(l, n)
				}
			}
			return l, cut
		},
	})
}

func checkC20(e *Env, x any) error {
	c := x.(*Case)
	o := e.RunCase(c)
	if err := checkCSV(c, o); err != nil {
		return err
	}
	if err := checkChildren(c, o); err != nil {
		return err
	}
	// Directly: each cell against the cell of the run without limit.
	if c.Cfg.ConcatDelimiter != nil || c.F.Concurrency != 1 {
		return nil
	}
	full := *c
	full.F.FieldLimit = 0
	o2 := e.RunCase(&full)
	if o2.Err != nil {
		return o2.Err
	}
	for fn, s := range o.Files {
		a, err := parseCSV(s)
		if err != nil {
			return err
		}
		b, err := parseCSV(o2.Files[fn])
		if err != nil {
			return err
		}
		if len(a) != len(b) || len(a) > 0 && js(a[0]) != js(b[0]) {
			return fmt.Errorf("%s: limit changes the shape of the table", fn)
		}
		for i := range a {
			for j := range a[i] {
				g, w := a[i][j], b[i][j]
				if i == 0 || len(w) <= c.F.FieldLimit {
					if g != w {
						return fmt.Errorf("%s: %q became %q", fn, w, g)
					}
					continue
				}
				if !strings.HasPrefix(w, g) || !utf8.ValidString(g) || g != w && len(g) > c.F.FieldLimit {
					return fmt.Errorf("%s: %q became %q with limit %d", fn, w, g, c.F.FieldLimit)
				}
			}
		}
	}
	return nil
}
