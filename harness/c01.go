package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	register(&Prop{
		ID:  "C01",
		New: func() any { return &C01Case{} },
		Draw: func(t *rapid.T) any {
			o := &GenOpt{}
			switch rapid.IntRange(0, 3).Draw(t, "keyset") {
			case 0:
				o.Keys = keysPlain
			case 1:
				o.Keys = keysOdd
			case 2:
				o.Keys = []string{"a", "b"}
				o.MaxLines = 10
			case 3:
				o.Keys = keysOdd
				o.MaxDepth = 6
			}
			return &C01Case{Case: Case{Lines: o.Lines(t), F: F{CSV: "o.csv", Concurrency: genConc(t)}}}
		},
		Enum: func(e *Env, yield func(any) bool) {
			for _, ls := range bigShapes() {
				for _, conc := range []int{1, 8} {
					if !yield(&C01Case{Case: Case{Lines: ls, F: F{CSV: "o.csv", Concurrency: conc, BufSize: 1 << 20}}}) {
						return
					}
				}
			}
			yield(&C01Case{Columns: 300000})
			yield(&C01Case{Columns: -140000})
		},
		Check: func(e *Env, x any) error {
			if n := x.(*C01Case).Columns; n != 0 {
				return checkColumns(e, n)
			}
			c := &x.(*C01Case).Case
			o := e.RunCase(c)
			if err := checkCSV(c, o); err != nil {
				return err
			}
			if c.F.Concurrency == 1 {
				if o2 := e.RunCase(c); o2.Files["o.csv"] != o.Files["o.csv"] {
					return fmt.Errorf("two single-worker runs differ: %q vs %q", o.Files["o.csv"], o2.Files["o.csv"])
				}
			}
			return nil
		},
		Classify: func(x any) ([]string, bool) {
			if x.(*C01Case).Columns != 0 {
				return []string{"very-many-columns"}, true
			}
			return classify(&x.(*C01Case).Case)
		},
	})
}

// C01Case is an input, or a number of columns of one that has no model.
type C01Case struct {
	Case
	Columns int `json:",omitempty"`
}

// checkColumns runs with n distinct keys (items of an array if negative), each
// has to get a column of its own.
func checkColumns(e *Env, n int) error {
	var b strings.Builder
	lines := func() []B { return []B{`{"k7":"x"}`, B("{" + b.String()[1:] + "}")} }
	item, key := `,"k%d":%d`, ".k%d"
	if n < 0 {
		lines = func() []B { return []B{`{"a":[0,1,2,3,4,5,6,"x"]}`, B(`{"a":[` + b.String()[1:] + "]}")} }
		n, item, key = -n, ",%[2]d", ".a.[%d]"
	}
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, item, i, i)
	}
	o := e.RunCase(&Case{Lines: lines(), F: F{CSV: "o.csv", Concurrency: 2, BufSize: 1 << 23}})
	if o.Err != nil {
		return fmt.Errorf("processing failed: %w", o.Err)
	}
	rows, err := parseCSV(o.Files["o.csv"])
	if err != nil {
		return err
	}
	if len(rows) != 3 {
		return fmt.Errorf("%d records instead of 3", len(rows))
	}
	cells := map[string][2]string{}
	for i, h := range rows[0] {
		if i >= len(rows[1]) || i >= len(rows[2]) {
			return fmt.Errorf("no cell for column %s", h)
		}
		cells[h] = [2]string{rows[1][i], rows[2][i]}
	}
	for i := 0; i < n; i++ {
		h, first := fmt.Sprintf(key, i), ""
		if i < 7 && key != ".k%d" {
			first = fmt.Sprint(i)
		}
		if i == 7 {
			first = "x"
		}
		got, ok := cells[h]
		if !ok {
			return fmt.Errorf("no column %s among %d", h, len(rows[0]))
		}
		if a, b := got[0], got[1]; !(a == first && b == fmt.Sprint(i)) && !(a == fmt.Sprint(i) && b == first) {
			return fmt.Errorf("column %s: %q, want %q and %d", h, got, first, i)
		}
	}
	if len(rows[0]) != n || len(rows[1]) != n || len(rows[2]) != n {
		return fmt.Errorf("%d, %d and %d cells in %d columns", len(rows[0]), len(rows[1]), len(rows[2]), n)
	}
	return nil
}

// bigShapes are inputs that are large in one of their dimensions, all their
// values are distinct.
func bigShapes() [][]B {
	num := 0
	val := func() string { num++; return fmt.Sprint(num) }
	list := func(n int, f func(i int) string) string {
		p := make([]string, n)
		for i := range p {
			p[i] = f(i)
		}
		return strings.Join(p, ",")
	}
	var r [][]B
	for _, n := range []int{300, 1100, 5000} { // elements, properties
		r = append(r,
			[]B{B(`{"a":[` + list(n, func(int) string { return val() }) + `]}`), `{"b":1}`},
			[]B{B(`{"a":{` + list(n, func(i int) string { return fmt.Sprintf(`"k%d":%s`, i, val()) }) + `}}`), `{"b":1}`},
			[]B{`{"a":1}`, B(`{` + list(n, func(i int) string { return fmt.Sprintf(`"k%d":{"x":%s}`, i, val()) }) + `}`)})
	}
	for _, n := range []int{60, 140, 290} { // levels
		r = append(r,
			[]B{B(strings.Repeat(`{"a":`, n) + val() + strings.Repeat(`}`, n)), `{"b":1}`},
			[]B{B(`{"a":` + strings.Repeat(`[`, n) + val() + strings.Repeat(`]`, n) + `}`), `{"b":1}`})
	}
	for _, n := range []int{300, 5000, 70000, 300000} { // bytes
		r = append(r,
			[]B{B(`{"` + strings.Repeat("k", n) + `":` + val() + `,"b":` + val() + `}`), `{"b":1}`},
			[]B{`{"b":1}`, B(`{"a":"` + strings.Repeat("x", n) + `","b":"` + strings.Repeat("é", n/2) + `"}`), B(`{"a":"` + strings.Repeat(`\"`, n/2) + `"}`)},
			[]B{B(`{"b":1,` + strings.Repeat(" ", n) + `"c":2}`), `{"b":3}`})
	}
	r = append(r, []B{B(`{"a":` + strings.Repeat("123456789", 40) + `,"b":0.` + strings.Repeat("987654321", 40) + `}`)})
	var sparse, same []B
	for i := 0; i < 1500; i++ {
		sparse = append(sparse, B(fmt.Sprintf(`{"k%d":%s,"k%d":{"x":%s}}`, i, val(), i/2, val())))
	}
	for i := 0; i < 12000; i++ {
		same = append(same, B(fmt.Sprintf(`{"a":%s,"b":{"c":[%s,"t%s"]}}`, val(), val(), val())))
	}
	return append(r, sparse, same)
}

// checkCSV compares the main CSV output with the model.
func checkCSV(c *Case, o *Out) error {
	if o.Err != nil {
		return fmt.Errorf("processing failed: %w", o.Err)
	}
	s, ok := o.Files[c.F.CSV]
	if !ok {
		return fmt.Errorf("no output file %s", c.F.CSV)
	}
	rows, err := parseCSV(s)
	if err != nil {
		return err
	}
	return NewModel(c).CompareMain(rows, c.F.Concurrency == 1)
}

// classify labels a case by the shapes that occur in it; a case is non-trivial
// if it has at least two lines, two columns and a nested or mixed path.
func classify(c *Case) (labels []string, nontrivial bool) {
	m := NewModel(&Case{Lines: c.Lines})
	nested, mixed, arr := false, false, false
	for _, k := range m.keys {
		if len(k.path) > 1 {
			nested = true
		}
		n := 0
		for t := range k.types {
			if t == jArr {
				arr = true
			}
			n++
		}
		if n > 1 {
			mixed = true
		}
	}
	for b, l := range map[string]bool{"nested": nested, "mixed-types": mixed, "arrays": arr, "multi-worker": c.F.Concurrency > 1} {
		if l {
			labels = append(labels, b)
		}
	}
	long := false
	esc := false
	for _, l := range c.Lines {
		if len(l) > 300 {
			long = true
		}
		if strings.Contains(string(l), `\`) {
			esc = true
		}
	}
	if long {
		labels = append(labels, "long-line")
	}
	if esc {
		labels = append(labels, "escapes")
	}
	return labels, len(c.Lines) >= 2 && len(m.list) >= 2 && (nested || mixed)
}
