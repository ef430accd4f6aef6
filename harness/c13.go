package props

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

func init() {
	register(&Prop{
		ID:  "C13",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			o := &GenOpt{Keys: rapid.SampledFrom([][]string{{"a", "b"}, keysPlain, keysOdd}).Draw(t, "keys"), MaxLines: 14, MaxDepth: 2, MaxKids: 3}
			c.Lines = o.Lines(t)
			for i := range c.Lines {
				switch rapid.IntRange(0, 14).Draw(t, "bad") {
				case 0:
					c.Lines[i] = ""
				case 1:
					c.Lines[i] = "no json"
				case 2:
					c.Lines[i] = `{"a":`
				}
			}
			n := len(c.Lines)
			c.F = F{CSV: "o.csv", Concurrency: genConc(t)}
			lim := func(l string) int {
				if rapid.IntRange(0, 29).Draw(t, "huge") == 17 {
					return rapid.SampledFrom([]int{math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1 << 32, 1 << 31, 256, 65536}).Draw(t, l)
				}
				return rapid.IntRange(0, n+2).Draw(t, l)
			}
			switch rapid.IntRange(0, 4).Draw(t, "window") {
			case 0:
				c.F.OffsetLines = lim("offset")
			case 1:
				c.F.MaxLines = lim("max")
			case 2:
				c.F.MaxLines, c.F.OffsetLines = lim("max"), lim("offset")
			case 3:
				c.F.MaxLines, c.F.OffsetLines, c.F.MaxLinesKeys = lim("max"), lim("offset"), lim("keys")
			case 4:
				c.F.MaxLinesKeys = lim("keys")
			}
			c.F.AddSequence = rapid.Bool().Draw(t, "seq")
			if names := keyNames(c.Lines); len(names) > 0 {
				switch rapid.IntRange(0, 6).Draw(t, "sel") {
				case 0:
					c.F.GetKey = rapid.SampledFrom(names).Draw(t, "get")
				case 1:
					c.Cfg.IncludeKeys = rapid.SliceOfN(rapid.SampledFrom(names), 1, 3).Draw(t, "inc")
				case 2:
					c.Cfg.IncludeKeysRegex = []string{genPattern(t, names)}
				case 3:
					c.Cfg.ExcludeKeys = []string{rapid.SampledFrom(names).Draw(t, "ex")}
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "pref") == 0 {
				c.F.MatchLinePrefix = `^([a-z]*) ?(\d*)`
				for i := range c.Lines {
					c.Lines[i] = "ab " + B(fmt.Sprint(i)) + c.Lines[i]
				}
			}
			if rapid.IntRange(0, 5).Draw(t, "zero") == 0 {
				c.F.SkipZeroCols = true
			}
			if rapid.IntRange(0, 5).Draw(t, "tr") == 0 && c.Cfg.IncludeKeys == nil && c.F.GetKey == "" {
				c.Cfg.Transpose = map[string]string{".a": "kids"}
			}
			if rapid.IntRange(0, 5).Draw(t, "mix") == 0 {
				drawMix(t, c)
			}
			return c
		},
		Check: func(e *Env, x any) error {
			c := x.(*Case)
			if len(joinLines(c.Lines)) == 0 {
				return nil
			}
			o := e.RunCase(c)
			if err := checkCSV(c, o); err != nil {
				return err
			}
			if err := checkChildren(c, o); err != nil {
				return err
			}
			if c.F.MaxLinesKeys > 0 || c.F.Concurrency != 1 {
				return nil
			}
			// The same lines alone.
			ls := c.Lines[min(c.F.OffsetLines, len(c.Lines)):]
			if c.F.MaxLines > 0 {
				ls = ls[:min(c.F.MaxLines, len(ls))]
			}
			if len(ls) == 0 {
				return nil
			}
			alone := *c
			alone.Lines = ls
			alone.F.OffsetLines, alone.F.MaxLines = 0, 0
			o2 := e.RunCase(&alone)
			if o2.Err != nil {
				return fmt.Errorf("run of the selected lines alone: %w", o2.Err)
			}
			for n, s := range o2.Files {
				if o.Files[n] != s {
					return fmt.Errorf("%s: window gives %s, the same lines alone give %s", n, short(o.Files[n]), short(s))
				}
			}
			return nil
		},
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			m := NewModel(c)
			var l []string
			for n, v := range map[string]bool{"offset": c.F.OffsetLines > 0, "max": c.F.MaxLines > 0, "max-keys": c.F.MaxLinesKeys > 0, "one-pass": c.F.GetKey != "" || len(c.Cfg.IncludeKeys) > 0, "nothing-left": len(m.lines) == 0} {
				if v {
					l = append(l, n)
				}
			}
			return l, len(m.lines) > 0 && (len(m.lines) < len(c.Lines) || c.F.MaxLinesKeys > 0 && c.F.MaxLinesKeys < len(m.lines))
		},
	})
}

// checkChildren compares the child tables of the CSV output with the model.
func checkChildren(c *Case, o *Out) error {
	m := NewModel(c)
	_, kids, err := csvTables(o, c.F.CSV, m.dsts())
	if err != nil {
		return err
	}
	for _, d := range m.dsts() {
		if err := m.CompareChild(d, kids[d].cols, kids[d].strings()); err != nil {
			return err
		}
	}
	return nil
}

func (t *tab) strings() [][]string {
	var rows [][]string
	for _, r := range t.rows {
		var s []string
		for _, cell := range r {
			s = append(s, cell.S)
		}
		rows = append(rows, s)
	}
	return rows
}
