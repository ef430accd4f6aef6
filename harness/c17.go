package props

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// C17Case is a case and another order of its lines.
type C17Case struct {
	Case
	Order []int `json:"order"`
	Conc  int   `json:"conc"`
}

func (c *C17Case) permuted() *Case {
	p := c.Case
	p.Lines = nil
	for _, i := range c.Order {
		p.Lines = append(p.Lines, c.Lines[i])
	}
	p.F.Concurrency = c.Conc
	return &p
}

func genPerm(t *rapid.T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := rapid.IntRange(0, i).Draw(t, "swap")
		p[i], p[j] = p[j], p[i]
	}
	return p
}

var typedValues = []string{
	"1", "0", "-7", "-0", "9223372036854775807", "-9223372036854775808", "1.5", "0.0", "1.0", "-2.25e-3", "1e3", "1E+2",
	"true", "false", "null", "null", `"s"`, `""`, `"1"`, `"true"`, `"null"`, "{}", "[]", `{"x":1}`, `{"x":null}`, `{"x":"q"}`, "[1]", "[1.5,true]", "[null]", `[{"x":2}]`,
}

func init() {
	register(&Prop{
		ID:  "C17",
		New: func() any { return &C17Case{} },
		Draw: func(t *rapid.T) any {
			c := &C17Case{}
			// Each key has a small palette of values, so that pure columns are frequent.
			keys := []string{"a", "b", "c d", "é", "E"}[:rapid.IntRange(1, 5).Draw(t, "nKeys")]
			pal := map[string][]string{}
			for _, k := range keys {
				switch rapid.IntRange(0, 5).Draw(t, "palette") {
				case 0:
					pal[k] = []string{"1", "0", "-7", "null", "9223372036854775807", "{}"}
				case 1:
					pal[k] = []string{"1.5", "2", "null", "0.0", "1e3"}
				case 2:
					pal[k] = []string{"true", "false", "null"}
				case 3:
					pal[k] = []string{"null", "{}", "[]", `{"x":null}`, "null"}
				default:
					pal[k] = rapid.SliceOfN(rapid.SampledFrom(typedValues), 1, 4).Draw(t, "values")
				}
			}
			variants := rapid.IntRange(0, 3).Draw(t, "variants") == 0
			for i := rapid.IntRange(1, 8).Draw(t, "lines"); i > 0; i-- {
				var p []string
				for _, k := range keys {
					if rapid.IntRange(0, 3).Draw(t, "has") > 0 {
						n := k
						if variants && rapid.Bool().Draw(t, "upper") {
							n = strings.ToUpper(k)
						}
						p = append(p, js(n)+":"+rapid.SampledFrom(pal[k]).Draw(t, "v"))
					}
				}
				c.Lines = append(c.Lines, B("{"+strings.Join(p, ",")+"}"))
			}
			c.Order = genPerm(t, len(c.Lines))
			c.Conc = rapid.SampledFrom([]int{1, 2, 3, 8, 16}).Draw(t, "conc")
			c.F = F{PGDump: "o.sql", ShowKeysInfo: true, Concurrency: 1}
			opt := rapid.IntRange(0, 8).Draw(t, "opt")
			if variants && (opt == 2 || opt == 6) { // they mean keys as spelled
				opt = 0
			}
			switch opt {
			case 0, 1:
				c.Cfg.ReplaceKeys = map[string]string{".a": "m", ".b": "m"}
				if rapid.Bool().Draw(t, "three") {
					c.Cfg.ReplaceKeys[".c d"] = "m"
				}
				if rapid.IntRange(0, 3).Draw(t, "concat") == 0 {
					d := "|"
					c.Cfg.ConcatDelimiter = &d
				}
			case 2:
				c.Cfg.Transpose = map[string]string{rapid.SampledFrom([]string{".a", ".b"}).Draw(t, "tr"): "kids"}
			case 3:
				c.F.AddSequence = true
				c.Cfg.IncludeKeysRegex = []string{"(?i)a|b|_seq"}
			case 4:
				c.Cfg.MatchLinePrefix = "(p)(q)?"
				c.Lines[0] = "p" + c.Lines[0]
			case 5:
				c.F.ChildrenLimit = rapid.IntRange(1, 3).Draw(t, "limit")
				c.Lines[0] = B(`{"p":{"x":{"q":1},"y":{"q":{"r":2}},"z":{},"l":[1,{"m":3}]},` + string(c.Lines[0][1:]))
				c.Lines[0] = B(strings.Replace(string(c.Lines[0]), ",}", "}", 1))
			case 6:
				c.Cfg.KeepJSON = []string{rapid.SampledFrom([]string{".a", ".b"}).Draw(t, "keep")}
			}
			return c
		},
		Check: func(e *Env, x any) error {
			c := x.(*C17Case)
			if err := checkTypes(e, &c.Case); err != nil {
				return err
			}
			if err := checkTypes(e, c.permuted()); err != nil {
				return fmt.Errorf("lines in order %v with %d workers: %w", c.Order, c.Conc, err)
			}
			return nil
		},
		Classify: func(x any) ([]string, bool) {
			c := x.(*C17Case)
			m := NewModel(&c.Case)
			var l []string
			mixed := false
			for _, k := range m.list {
				if len(k.types) > 1 {
					mixed = true
				}
			}
			seen := map[string]bool{}
			for _, col := range m.Main.Cols {
				if !seen[col.Type] {
					seen[col.Type] = true
					l = append(l, col.Type)
				}
			}
			if m.mergedCols > 0 {
				l = append(l, "coalesced")
			}
			if len(m.Children) > 0 {
				l = append(l, "transposed")
			}
			return l, mixed && len(c.Lines) > 1
		},
	})
}

var infoLine = regexp.MustCompile(`^\d+: (.*), TYPE ([a-z]*)(, .*)?$`)

// keysInfo reads the keys report: new name to type, for keys that are not skipped.
func keysInfo(stdout string) (map[string]string, error) {
	r := map[string]string{}
	ls := strings.Split(strings.TrimSuffix(stdout, "\n"), "\n")
	if ls[0] != "keys info:" {
		return nil, fmt.Errorf("no keys report: %q", stdout)
	}
	for _, l := range ls[1:] {
		if strings.HasSuffix(l, ", SKIPPED") {
			continue
		}
		sm := infoLine.FindStringSubmatch(l)
		if sm == nil {
			return nil, fmt.Errorf("keys report: unexpected line %q", l)
		}
		n := sm[1]
		if i := strings.Index(n, ", REPLACED WITH "); i >= 0 {
			n = n[i+len(", REPLACED WITH "):]
		}
		if strings.Contains(sm[3], "TRANSPOSED") {
			continue
		}
		if _, ok := r[n]; ok {
			return nil, fmt.Errorf("keys report: %q appears twice in %q", n, stdout)
		}
		r[strings.ToLower(n)] = sm[2]
		if sm[2] == "json" { // documents are strings
			r[strings.ToLower(n)] = "string"
		}
	}
	return r, nil
}

var pgTypes = map[string]string{"int": "INT8", "float": "FLOAT8", "bool": "BOOL", "string": "VARCHAR", "null": "VARCHAR"}

func checkTypes(e *Env, c *Case) error {
	o := e.RunCase(c)
	if o.Err != nil {
		return fmt.Errorf("processing failed: %w", o.Err)
	}
	m := NewModel(c)
	info, err := keysInfo(o.Stdout)
	if err != nil {
		return err
	}
	if len(info) != len(m.Main.Cols) {
		return fmt.Errorf("keys report: want columns %q, got %q", colNames(m.Main.Cols), o.Stdout)
	}
	for _, col := range m.Main.Cols {
		if info[strings.ToLower(col.Name)] != col.Type {
			return fmt.Errorf("column %q: type of its values is %s, reported %q", col.Name, col.Type, info[strings.ToLower(col.Name)])
		}
	}
	ts, err := pgTables(o.Files["o.sql"])
	if err != nil {
		return fmt.Errorf("dump: %w", err)
	}
	for _, t := range ts {
		switch t.name {
		case "flatjsonl":
			for i, n := range t.cols {
				if n == "_seq_id" {
					continue
				}
				for _, col := range m.Main.Cols {
					if strings.EqualFold(col.Name, n) && pgTypes[col.Type] != t.types[i] {
						return fmt.Errorf("dump: column %q of %s values is declared %s", n, col.Type, t.types[i])
					}
				}
			}
		case "flatjsonl_kids":
			ch := m.Children["kids"]
			if ch == nil {
				return fmt.Errorf("dump: unexpected child table")
			}
			for i, n := range t.cols {
				tp := ch.types[n]
				if tp == nil {
					continue
				}
				if w := typeOf(tp); pgTypes[w] != t.types[i] {
					return fmt.Errorf("dump: column %q of child table of %s values is declared %s", n, w, t.types[i])
				}
			}
		}
	}
	return nil
}
