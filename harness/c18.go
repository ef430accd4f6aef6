package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// tree is a prefix tree of paths.
type tree map[string]tree

func (t tree) add(path []string) {
	for _, s := range path {
		if t[s] == nil {
			t[s] = tree{}
		}
		t = t[s]
	}
}

// readTree reads a list of the hierarchy report.
func readTree(v any, at string) (tree, error) {
	l, ok := v.([]any)
	if !ok {
		return nil, fmt.Errorf("hierarchy: %s is %v", at, v)
	}
	t := tree{}
	for _, e := range l {
		name := ""
		sub := tree{}
		switch e := e.(type) {
		case string:
			name = e
		case map[string]any:
			if len(e) != 1 {
				return nil, fmt.Errorf("hierarchy: node %v", e)
			}
			for n, k := range e {
				name = n
				s, err := readTree(k, at+"/"+n)
				if err != nil {
					return nil, err
				}
				if len(s) == 0 {
					return nil, fmt.Errorf("hierarchy: empty node %s/%s", at, n)
				}
				sub = s
			}
		default:
			return nil, fmt.Errorf("hierarchy: %s has %v", at, e)
		}
		if _, dup := t[name]; dup {
			return nil, fmt.Errorf("hierarchy: %s/%s appears twice", at, name)
		}
		t[name] = sub
	}
	return t, nil
}

func (t tree) diff(o tree, at string) error {
	for n := range t {
		if _, ok := o[n]; !ok {
			return fmt.Errorf("hierarchy: %s/%s is missing", at, n)
		}
	}
	for n := range o {
		if _, ok := t[n]; !ok {
			return fmt.Errorf("hierarchy: unexpected %s/%s", at, n)
		}
		if err := t[n].diff(o[n], at+"/"+n); err != nil {
			return err
		}
	}
	return nil
}

// schema is the subset of JSON schema the tool generates.
type schema struct {
	Title      string             `json:"title"`
	Type       []string           `json:"type"`
	Properties map[string]*schema `json:"properties"`
	Items      *schema            `json:"items"`
}

func jsonTypes(v *jval) []string {
	switch v.k {
	case jObj:
		return []string{"object"}
	case jArr:
		return []string{"array"}
	case jStr:
		return []string{"string"}
	case jBool:
		return []string{"boolean"}
	case jNull:
		return []string{"null"}
	}
	if numKind(v.s) == 'i' {
		return []string{"integer", "number"}
	}
	return []string{"number"}
}

// validate tells if the schema allows a value, and marks in occ what occurs.
func (s *schema) validate(v *jval, at string, occ map[string]bool) error {
	ts := jsonTypes(v)
	if len(s.Type) > 0 {
		ok := false
		for _, a := range s.Type {
			for _, b := range ts {
				ok = ok || a == b
			}
		}
		if !ok {
			return fmt.Errorf("schema: %s: value of type %s is not allowed by %q", at, ts[0], s.Type)
		}
	} else if v.k != jObj && v.k != jArr {
		return fmt.Errorf("schema: %s: type %s is not listed", at, ts[0])
	}
	occ[at+" "+ts[0]] = true
	for i, e := range v.kids {
		if v.k == jArr {
			if s.Items == nil {
				return fmt.Errorf("schema: %s: items are not described", at)
			}
			if err := s.Items.validate(e, at+"[]", occ); err != nil {
				return err
			}
			continue
		}
		p := s.Properties[v.keys[i]]
		if p == nil {
			return fmt.Errorf("schema: property %q of %s is not listed", v.keys[i], at)
		}
		if err := p.validate(e, at+"/"+js(v.keys[i]), occ); err != nil {
			return err
		}
	}
	return nil
}

// occurs tells if all that the schema lists occurs.
func (s *schema) occurs(at string, occ map[string]bool) error {
	seen := map[string]bool{}
	for _, t := range s.Type {
		if !occ[at+" "+t] {
			return fmt.Errorf("schema: %s: listed type %s does not occur", at, t)
		}
		if seen[t] {
			return fmt.Errorf("schema: %s: type %s is listed twice", at, t)
		}
		seen[t] = true
	}
	any := false
	for _, t := range []string{"object", "array", "string", "boolean", "null", "integer", "number"} {
		any = any || occ[at+" "+t]
	}
	if !any {
		return fmt.Errorf("schema: %s does not occur", at)
	}
	for n, p := range s.Properties {
		if err := p.occurs(at+"/"+js(n), occ); err != nil {
			return err
		}
	}
	if s.Items != nil {
		return s.Items.occurs(at+"[]", occ)
	}
	return nil
}

func noListKeys(ks []string) []string {
	var r []string
	for _, k := range ks {
		if !strings.ContainsAny(k, "\n") && !strings.HasPrefix(k, "[") {
			r = append(r, k)
		}
	}
	return r
}

func init() {
	register(&Prop{
		ID:  "C18",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			o := &GenOpt{Keys: rapid.SampledFrom([][]string{{"a", "b"}, keysPlain, noListKeys(keysOdd)}).Draw(t, "keys"), MaxLines: 6, MaxDepth: rapid.IntRange(1, 4).Draw(t, "depth")}
			c.Lines = o.Lines(t)
			if rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
				c.Lines = append(c.Lines, "no json", `{"a":1,`)
			}
			c.F = F{Concurrency: genConc(t)}
			switch rapid.IntRange(0, 7).Draw(t, "report") {
			case 0, 1:
				c.F.ShowJSONSchema = true
			case 2:
				c.F.ShowKeysHier = true
			case 3:
				c.F.ShowKeysFlat = true
			case 4, 5:
				c.F.ShowKeysInfo = true
			default:
				c.F.ShowKeysInfo, c.F.ShowKeysFlat, c.F.ShowKeysHier, c.F.ShowJSONSchema = true, true, true, rapid.Bool().Draw(t, "schema")
			}
			if rapid.IntRange(0, 3).Draw(t, "csv") == 0 {
				c.F.CSV = "o.csv"
			}
			c.F.MaxLines = rapid.SampledFrom([]int{0, 0, 0, 2}).Draw(t, "max")
			if rapid.IntRange(0, 5).Draw(t, "win") == 0 {
				c.F.MaxLinesKeys = 2
			}
			if !c.F.ShowJSONSchema {
				switch rapid.IntRange(0, 7).Draw(t, "more") {
				case 0:
					c.F.AddSequence = true
				case 1:
					c.Cfg.KeepJSON = []string{".a"}
				case 2:
					c.F.ChildrenLimit = rapid.IntRange(1, 3).Draw(t, "limit")
				case 3:
					c.Cfg.MatchLinePrefix = "(p)(q)?"
					c.Lines[0] = "pq" + c.Lines[0]
				case 4:
					c.F.ExtractStrings = true
					c.Lines = append(c.Lines, `{"a":"{\"x\":1,\"l\":[\"http://h/p\"]}","b":"http://a.b/c?q=1"}`)
				}
			}
			if names := colKeys(c); len(names) > 0 {
				name := rapid.SampledFrom(names)
				switch rapid.IntRange(0, 8).Draw(t, "sel") {
				case 0:
					c.Cfg.IncludeKeysRegex = []string{genPattern(t, names)}
					if rapid.Bool().Draw(t, "and list") {
						c.Cfg.IncludeKeys = []string{"const:c", name.Draw(t, "inc"), ".missing"}
					}
				case 1:
					c.Cfg.ExcludeKeys = []string{name.Draw(t, "exc")}
				case 2:
					c.Cfg.IncludeKeysRegex = []string{".*"}
					c.Cfg.ExcludeKeysRegex = []string{genPattern(t, names)}
				case 3, 4:
					c.Cfg.ReplaceKeys = map[string]string{name.Draw(t, "ren"): "n1", name.Draw(t, "ren"): rapid.SampledFrom([]string{"n1", "n2"}).Draw(t, "to")}
					c.F.Concurrency = 1 // the first of its keys names a column
				case 5:
					c.F.Concurrency = 1
					if ps := structPaths(c.Lines); len(ps) > 0 && !strings.HasSuffix(ps[0], ".") {
						c.Cfg.Transpose = map[string]string{ps[0]: "kids"}
					}
					switch rapid.IntRange(0, 4).Draw(t, "of") {
					case 0:
						c.Cfg.IncludeKeysRegex = []string{genPattern(t, names)}
					case 1:
						c.Cfg.ExcludeKeys = []string{name.Draw(t, "exc")}
					}
				}
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			// Deep and wide documents.
			var docs [][]B
			for _, n := range []int{8, 13, 20, 40, 70, 130, 250} {
				docs = append(docs,
					[]B{B(strings.Repeat(`{"a":`, n) + `1` + strings.Repeat(`}`, n)), `{"b":1}`},
					[]B{B(strings.Repeat(`{"a":[`, n/2) + `"s",` + `null` + strings.Repeat(`]}`, n/2)), B(strings.Repeat(`{"a":`, n) + `true` + strings.Repeat(`}`, n))},
					[]B{B(strings.Repeat(`{"x":1.5,"a":`, n) + `{}` + strings.Repeat(`,"b":[1]}`, n))})
			}
			for _, n := range []int{100, 1100, 3000} {
				var b, l strings.Builder
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, `,"k%d":{"x":%d}`, i*7919%n, i)
					fmt.Fprintf(&l, `,{"y":%d}`, i)
				}
				docs = append(docs, []B{B("{" + b.String()[1:] + "}"), `{"b":1}`}, []B{B(`{"a":[` + l.String()[1:] + "]}")})
			}
			for _, ls := range docs {
				for _, conc := range []int{1, 4} {
					for _, f := range []F{{ShowJSONSchema: true}, {ShowKeysHier: true}, {ShowKeysFlat: true, ShowKeysInfo: true, CSV: "o.csv"}} {
						f.Concurrency, f.BufSize = conc, 1<<20
						if !yield(&Case{Lines: ls, F: f}) {
							return
						}
					}
				}
			}
		},
		Check: checkC18,
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			l, ok := classify(c)
			for n, v := range map[string]bool{"flat": c.F.ShowKeysFlat, "hier": c.F.ShowKeysHier, "info": c.F.ShowKeysInfo, "schema": c.F.ShowJSONSchema, "selected": len(c.Cfg.IncludeKeysRegex)+len(c.Cfg.ExcludeKeys) > 0, "renamed": len(c.Cfg.ReplaceKeys) > 0} {
				if v {
					l = append(l, n)
				}
			}
			return l, ok
		},
	})
}

func checkC18(e *Env, x any) error {
	c := x.(*Case)
	o := e.RunCase(c)
	if o.Err != nil {
		return fmt.Errorf("processing failed: %w", o.Err)
	}
	m := NewModel(c)
	var keys []string
	for _, k := range m.list {
		keys = append(keys, k.name)
	}
	sort.Strings(keys)
	rest := o.Stdout

	if c.F.ShowKeysFlat {
		const head = "keys:\n"
		if !strings.HasPrefix(rest, head) {
			return fmt.Errorf("no flat list in %q", rest)
		}
		rest = rest[len(head):]
		var got []string
		for strings.HasPrefix(rest, `".`) {
			l, r, ok := strings.Cut(rest, "\n")
			if !ok || !strings.HasSuffix(l, `",`) {
				return fmt.Errorf("flat list: line %q", l)
			}
			got = append(got, l[1:len(l)-2])
			rest = r
		}
		sort.Strings(got)
		if js(got) != js(keys) {
			return fmt.Errorf("flat list: want %q, got %q", keys, got)
		}
	}
	if c.F.ShowKeysInfo {
		r, err := checkInfo(c, m, rest)
		if err != nil {
			return err
		}
		rest = r
	}
	dec := json.NewDecoder(strings.NewReader(rest))
	if c.F.ShowKeysHier {
		var v any
		if err := dec.Decode(&v); err != nil {
			return fmt.Errorf("hierarchy: %w in %q", err, rest)
		}
		got, err := readTree(v, "")
		if err != nil {
			return err
		}
		want := tree{}
		for _, k := range m.list {
			want.add(k.path)
		}
		if err := want.diff(got, ""); err != nil {
			return err
		}
	}
	if c.F.ShowJSONSchema {
		var s schema
		if err := dec.Decode(&s); err != nil {
			return fmt.Errorf("schema: %w in %q", err, rest)
		}
		occ := map[string]bool{" object": true}
		n := len(c.Lines)
		if c.F.MaxLines > 0 {
			n = min(n, c.F.MaxLines)
		}
		if c.F.MaxLinesKeys > 0 {
			n = min(n, c.F.MaxLinesKeys)
		}
		for i, l := range c.Lines[:n] {
			v, err := parseJSONAll(string(l))
			if err != nil {
				continue
			}
			if err := s.validate(v, "", occ); err != nil {
				return fmt.Errorf("line %d: %w; schema: %s", i+1, err, js(s))
			}
		}
		if err := s.occurs("", occ); err != nil {
			return fmt.Errorf("%w; schema: %s", err, js(s))
		}
	}
	if dec.More() {
		return fmt.Errorf("unexpected text after reports: %q", rest)
	}
	if c.F.CSV == "" && len(o.Files) > 0 {
		return fmt.Errorf("unexpected files")
	}
	return nil
}

// checkInfo checks the keys report at the start of a text and returns what
// follows it.
func checkInfo(c *Case, m *Model, s string) (string, error) {
	const head = "keys info:\n"
	if !strings.HasPrefix(s, head) {
		return s, fmt.Errorf("no keys report in %q", s)
	}
	s = s[len(head):]
	selecting := len(c.Cfg.IncludeKeysRegex) > 0 || len(c.Cfg.IncludeKeys) > 0
	want := map[string]int{}
	used := map[string]bool{}
	for _, col := range m.Main.Cols {
		l := col.Key
		if col.Key != col.Name {
			l += ", REPLACED WITH " + col.Name
		}
		tp := col.Type
		if tp == "" {
			tp = "string" // listed key that does not occur
		}
		l += ", TYPE " + tp
		if selecting {
			l += ", INCLUDED"
		}
		want[l]++
	}
	for k := range m.selected {
		used[k] = true
	}
	for _, col := range m.transposed {
		l := col.col.Key
		if name := m.childName(col.ttrim); name != l {
			l += ", REPLACED WITH " + name
		}
		tp := col.col.Type
		if tp == "" {
			tp = "string"
		}
		l += ", TYPE " + tp
		if selecting {
			l += ", INCLUDED"
		}
		want[l+", TRANSPOSED TO "+col.tdst]++
	}
	for _, k := range m.list {
		if !used[k.name] && selecting {
			want[k.name+", SKIPPED"]++
		}
	}
	n := 0
	for {
		l, r, ok := strings.Cut(s, "\n")
		num, line, ok2 := strings.Cut(l, ": ")
		if i, err := strconv.Atoi(num); !ok || !ok2 || err != nil || i != n+1 {
			break
		}
		n++
		s = r
		line, _, _ = strings.Cut(line, ", EXTRACTED ")
		// Documents that are kept are texts or documents.
		if alt := strings.Replace(line, ", TYPE json", ", TYPE string", 1); want[line] == 0 && len(m.keep) > 0 {
			line = alt
		}
		if want[line] == 0 {
			return s, fmt.Errorf("keys report: unexpected line %q, want %q", line, sortedKeys(want))
		}
		want[line]--
		if want[line] == 0 {
			delete(want, line)
		}
	}
	if len(want) > 0 {
		return s, fmt.Errorf("keys report: missing %q", sortedKeys(want))
	}
	return s, nil
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
