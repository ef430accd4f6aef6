package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// WideCase is a case whose input lines are repeated up to N lines, so that
// batch and flush sizes are crossed by small cases.
type WideCase struct {
	Case
	N int `json:"n,omitempty"`
}

func (c *WideCase) full() *Case {
	x := c.Case
	if c.N > 0 && len(c.Lines) > 0 {
		x.Lines = nil
		for i := 0; i < c.N; i++ {
			x.Lines = append(x.Lines, c.Lines[i%len(c.Lines)])
		}
	}
	return &x
}

// wideLine is an object of n columns.
func wideLine(n int, v string) B {
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, fmt.Sprintf(`"k%d":%s`, i, v))
	}
	return B("{" + strings.Join(p, ",") + "}")
}

// drawSQL draws inputs for the database outputs.
func drawSQL(t *rapid.T) *WideCase {
	c := &WideCase{}
	keys := rapid.SampledFrom([][]string{noNULKeys(keysOdd), keysPlain, {"a", "b"}}).Draw(t, "keys")
	o := &GenOpt{Keys: keys, MaxLines: 6, MaxDepth: rapid.IntRange(1, 3).Draw(t, "depth"), MaxKids: rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "kids")}
	if rapid.Bool().Draw(t, "typed") {
		// Columns that keep one type.
		o.Str = func(t *rapid.T) string { return rapid.SampledFrom([]string{"", "x", "1"}).Draw(t, "s") }
		switch rapid.IntRange(0, 2).Draw(t, "numbers") {
		case 0:
			o.Num = genInt
		case 1:
			o.Num = func(t *rapid.T) string {
				return rapid.SampledFrom([]string{"9223372036854775807", "-9223372036854775808", "0", "-1", "9007199254740993"}).Draw(t, "big")
			}
		}
	}
	c.Lines = o.Lines(t)
	if rapid.IntRange(0, 3).Draw(t, "scalarLines") == 0 {
		// One value each: types of columns are simple.
		v := rapid.SampledFrom([]func() string{
			func() string { return genNum(t) }, func() string { return genInt(t) },
			func() string { return rapid.SampledFrom([]string{"true", "false", "null"}).Draw(t, "b") },
		}).Draw(t, "kind")
		c.Lines = nil
		for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
			c.Lines = append(c.Lines, B(`{"v":`+v()+`,"w":`+v()+`}`))
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "wide") == 0 {
		c.Lines = append(c.Lines, wideLine(rapid.IntRange(5, 60).Draw(t, "cols"), rapid.SampledFrom([]string{"1", `"x"`, "null"}).Draw(t, "val")))
	}
	if rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
		c.Lines = append(c.Lines, "garbage", `{"a"`)
	}
	c.F = F{CSV: "o.csv", Concurrency: genConc(t)}
	c.F.SQLMaxCols = rapid.SampledFrom([]int{500, 0, 2, 3, 4, 5, 10}).Draw(t, "maxCols")
	c.F.AddSequence = rapid.IntRange(0, 5).Draw(t, "seq") == 0
	if rapid.IntRange(0, 3).Draw(t, "ren") == 0 {
		c.F.ReplaceKeys = true
	}
	if rapid.IntRange(0, 3).Draw(t, "tbl") == 0 {
		c.F.SQLTable = rapid.SampledFrom([]string{"t", "my table", "Ünï", "my \"t\"", "t`';"}).Draw(t, "table")
	}
	switch rapid.IntRange(0, 9).Draw(t, "tr") {
	case 0: // items that get other properties from line to line
		prop := rapid.SampledFrom([]string{"x", "y", "z", "w"})
		item := rapid.SampledFrom([]string{"1", "2.5", `"s"`, "null", "true", `{"p":1}`})
		for i := rapid.IntRange(1, 5).Draw(t, "lists"); i > 0; i-- {
			var items []string
			for j := rapid.IntRange(1, 4).Draw(t, "items"); j > 0; j-- {
				var b []string
				for _, p := range rapid.SliceOfNDistinct(prop, 1, 3, rapid.ID[string]).Draw(t, "props") {
					b = append(b, `"`+p+`":`+item.Draw(t, "v"))
				}
				items = append(items, "{"+strings.Join(b, ",")+"}")
			}
			c.Lines = append(c.Lines, B(`{"kids":[`+strings.Join(items, ",")+"]}"))
		}
		c.Cfg.Transpose = map[string]string{".kids": "kids"}
	case 1, 2:
		if ps := structPaths(c.Lines); len(ps) > 0 {
			if p := rapid.SampledFrom(ps).Draw(t, "prefix"); !strings.HasSuffix(p, ".") {
				c.Cfg.Transpose = map[string]string{p: "kids"}
			}
		}
	}
	if !c.F.ReplaceKeys && len(c.Cfg.Transpose) == 0 && rapid.IntRange(0, 4).Draw(t, "coal") == 0 {
		if names := keyNames(c.Lines); len(names) > 1 {
			c.Cfg.ReplaceKeys = map[string]string{names[0]: "both", names[len(names)-1]: "both"}
			if rapid.Bool().Draw(t, "concat") {
				d := "-"
				c.Cfg.ConcatDelimiter = &d
			}
		}
	}
	if rapid.IntRange(0, 1).Draw(t, "mix") == 0 {
		drawMix(t, &c.Case)
	}
	return c
}

// drawMix adds up to two options that change which columns or rows there are.
func drawMix(t *rapid.T, c *Case) {
	names := append(keyNames(c.Lines), ".a", ".b", ".missing")
	name := rapid.SampledFrom(names)
	for i := rapid.IntRange(1, 2).Draw(t, "options"); i > 0; i-- {
		switch rapid.IntRange(0, 9).Draw(t, "option") {
		case 0, 1:
			if len(c.Cfg.IncludeKeys) > 0 || len(c.Cfg.ReplaceKeys) > 0 || c.F.FieldLimit > 0 || c.F.GetKey != "" || len(c.Cfg.IncludeKeysRegex) > 0 {
				continue
			}
			ps := append(structPaths(c.Lines), ".a")
			c.Cfg.KeepJSON = rapid.SliceOfNDistinct(rapid.SampledFrom(ps), 1, min(2, len(ps)), rapid.ID[string]).Draw(t, "keep")
		case 2:
			if len(c.Cfg.IncludeKeys) > 0 || len(c.Cfg.ReplaceKeys) > 0 || c.F.FieldLimit > 0 || len(c.Cfg.KeepJSON) > 0 || c.F.GetKey != "" {
				continue
			}
			c.F.ChildrenLimit = rapid.IntRange(1, 4).Draw(t, "children")
		case 3:
			c.F.MatchLinePrefix = `^([a-z]?)(\d)?|("{)`
			for i := range c.Lines {
				c.Lines[i] = rapid.SampledFrom([]B{"", "", "a1 ", "b ", "7 "}).Draw(t, "prefix") + c.Lines[i]
			}
		case 4:
			c.F.ExtractStrings = true
			c.Lines = append(c.Lines, `{"a":"{\"x\":[1,null],\"y\":\"http://h/p?q=1\"}","b":"https://e.com:8/a/b"}`)
		case 5:
			c.Cfg.ExcludeKeys = append(c.Cfg.ExcludeKeys, name.Draw(t, "exclude"))
		case 6:
			if len(c.Cfg.KeepJSON) > 0 || c.F.ChildrenLimit > 0 {
				continue
			}
			if rapid.Bool().Draw(t, "single") {
				c.F.GetKey = name.Draw(t, "get")
			} else {
				c.Cfg.IncludeKeys = rapid.SliceOfN(rapid.SampledFrom(append(names, "const:x", "const:it's", "const:")), 1, 4).Draw(t, "include")
			}
		case 7:
			if len(c.Cfg.KeepJSON) > 0 || c.F.ChildrenLimit > 0 {
				continue
			}
			c.F.FieldLimit = rapid.IntRange(1, 10).Draw(t, "field")
		case 8:
			c.F.SkipZeroCols = true
		case 9:
			c.F.MaxLines = rapid.IntRange(0, 3).Draw(t, "max")
			c.F.OffsetLines = rapid.IntRange(0, 2).Draw(t, "offset")
		}
	}
}

func checkWide(e *Env, w *WideCase) error {
	c := w.full()
	o := e.RunCase(c)
	var m *Model
	if o.Err != nil {
		return fmt.Errorf("processing failed: %w", o.Err)
	}
	var dsts []string
	for _, d := range c.Cfg.Transpose {
		dsts = append(dsts, d)
	}
	m = NewModel(c)
	if len(m.Children) == 0 {
		dsts = nil
	}
	if !c.F.ReplaceKeys {
		if err := checkCSV(c, o); err != nil {
			return err
		}
	}
	main, kids, err := csvTables(o, "o.csv", dsts)
	if err != nil {
		return err
	}
	if err := checkTimeColumn(c, o, m); err != nil {
		return err
	}
	return compareOthers(c, o, m, main, kids, len(m.lines))
}

// checkTimeColumn checks that a column of converted times is declared as such.
func checkTimeColumn(c *Case, o *Out, m *Model) error {
	if c.F.PGDump == "" || len(c.Cfg.ParseTime) == 0 || c.F.ReplaceKeys || len(c.Cfg.ReplaceKeys)+len(c.Cfg.IncludeKeys) > 0 || c.F.GetKey != "" {
		return nil
	}
	for _, k := range m.keys {
		if k.name != ".when" || len(k.spells) != 1 || !k.types[jStr] || len(k.types) > 1 && !(len(k.types) == 2 && k.types[jNull]) {
			continue
		}
		ts, err := pgTables(o.Files[c.F.PGDump])
		if err != nil {
			return err
		}
		for n, t := range ts {
			for i, col := range t.cols {
				if col == k.name && t.types[i] != "TIMESTAMP" {
					return fmt.Errorf("table %q: column %q of times is %s", n, col, t.types[i])
				}
			}
		}
	}
	return nil
}

func classifyWide(x any) ([]string, bool) {
	w := x.(*WideCase)
	m := NewModel(&w.Case)
	var l []string
	odd := false
	types := map[string]bool{}
	for _, c := range m.Main.Cols {
		types[c.Type] = true
		odd = odd || strings.ContainsAny(c.Name, "\"' ,\n\\")
	}
	for n, v := range map[string]bool{
		"split-tables": w.F.SQLMaxCols > 0 && len(m.Main.Cols) >= w.F.SQLMaxCols, "transposed": len(m.Children) > 0, "odd-names": odd,
		"int": types["int"], "float": types["float"], "bool": types["bool"], "string": types["string"], "null": types["null"],
		"kept": len(w.Cfg.KeepJSON) > 0 || w.F.ChildrenLimit > 0, "extraction": w.F.ExtractStrings, "prefix": w.F.MatchLinePrefix != "",
		"parts-exact": len(m.Main.Cols) > 0 && w.F.SQLMaxCols > 1 && len(m.Main.Cols)%(w.F.SQLMaxCols-1) == 0, "over-batch": w.N >= 10000,
	} {
		if v {
			l = append(l, n)
		}
	}
	return l, len(w.Lines) >= 2 && len(m.Main.Cols) >= 2
}

// drawTimes adds a column of converted times, which can have other values or share the column with other keys.
func drawTimes(t *rapid.T, c *Case) {
	f := rapid.SampledFrom([]string{"2006-01-02", "2006-01-02T15:04:05Z07:00", "02.01.2006 15:04"}).Draw(t, "layout")
	c.Cfg.ParseTime = map[string]string{".when": f}
	other := func() string {
		if c.F.ChildrenLimit > 0 { // a kept document is no time
			return rapid.SampledFrom([]string{"null", "5", "1.5", "true", "{}", "[]"}).Draw(t, "scalar")
		}
		return rapid.SampledFrom([]string{"null", "5", "1.5", "true", "{}", "[]", `{"z":"q"}`, `["q"]`}).Draw(t, "other")
	}
	key := rapid.SampledFrom([]string{`"when"`, `"when"`, `"WHEN"`}).Draw(t, "name")
	mixed := rapid.IntRange(0, 2).Draw(t, "mixed") == 0
	for i := rapid.IntRange(1, 3).Draw(t, "times"); i > 0; i-- {
		v := js(genTime(t).Format(f))
		if mixed && rapid.Bool().Draw(t, "not a time") {
			v = other()
		}
		k := `"when"`
		if c.F.Concurrency == 1 { // the first spelling names the column
			k = key
		}
		if rapid.IntRange(0, 3).Draw(t, "place") == 0 {
			c.Lines = append([]B{B("{" + k + ":" + v + "}")}, c.Lines...)
		} else {
			c.Lines = append(c.Lines, B("{"+k+":"+v+"}"))
		}
	}
	share := func() {
		c.Lines = append(c.Lines, B(`{"since":`+rapid.SampledFrom([]string{`"y"`, `"2020-01-02"`, "7", "null", "true"}).Draw(t, "share")+"}"))
	}
	switch rapid.IntRange(0, 4).Draw(t, "shared") {
	case 0: // with another key
		if len(c.Cfg.ReplaceKeys) > 0 || c.F.ReplaceKeys || len(c.Cfg.Transpose) > 0 {
			return
		}
		c.Cfg.ReplaceKeys = map[string]string{".when": "w", ".since": "w"}
		share()
		if rapid.Bool().Draw(t, "both") {
			c.Lines = append(c.Lines, B(`{"since":"a","when":`+js(genTime(t).Format(f))+"}"))
		}
		if rapid.IntRange(0, 3).Draw(t, "concat") == 0 {
			d := rapid.SampledFrom([]string{"-", ""}).Draw(t, "delimiter")
			c.Cfg.ConcatDelimiter = &d
		}
	case 1: // with another item of a list
		if len(c.Cfg.Transpose) > 0 || len(c.Cfg.KeepJSON) > 0 || c.F.ChildrenLimit > 0 || c.F.GetKey != "" || len(c.Cfg.IncludeKeys) > 0 || len(c.Cfg.ReplaceKeys) > 0 {
			return
		}
		c.Cfg.Transpose = map[string]string{".list": "kids"}
		c.Cfg.ParseTime[".list.[0].at"] = f
		second := `"y"`
		if rapid.Bool().Draw(t, "all") {
			c.Cfg.ParseTime[".list.[1].at"] = f
			second = js(genTime(t).Format(f))
		}
		c.Lines = append(c.Lines, B(`{"list":[{"at":`+js(genTime(t).Format(f))+`},{"at":`+second+`}]}`))
	}
}

// wideSizes enumerates row counts around the batch sizes.
func wideSizes(e *Env, f F, yield func(any) bool) {
	line := func(cols int) []B { return []B{wideLine(cols, "1"), wideLine(1, `"x"`), B("{}")} }
	type s struct{ cols, n int }
	sizes := []s{{3, 9999}, {3, 10000}, {3, 10001}, {3, 20001}, {120, 999}, {120, 1000}, {120, 2001}, {1010, 100}, {1010, 201}, {99, 10001}}
	if e.Tier == "thorough" {
		for i := 0; i < 12; i++ {
			sizes = append(sizes, s{1 + i%3, 9990 + i*i*173}, s{100, 990 + i*7}, s{1000 + i, 95 + i})
		}
	}
	for i, z := range sizes {
		f.Concurrency = 1 + i%3*3
		f.SQLMaxCols = 500
		c := &WideCase{Case: Case{Lines: line(z.cols), F: f}, N: z.n}
		if i%3 == 2 {
			c.Lines = append(c.Lines, `{"t":[1,{"x":2}]}`)
			c.Cfg.Transpose = map[string]string{".t": "kids"}
		}
		if !yield(c) {
			return
		}
	}
}

func init() {
	register(&Prop{
		ID:  "C09",
		New: func() any { return &WideCase{} },
		Draw: func(t *rapid.T) any {
			c := drawSQL(t)
			c.F.SQLite = "o.sqlite"
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			wideSizes(e, F{CSV: "o.csv", SQLite: "o.sqlite"}, yield)
		},
		Check:    func(e *Env, x any) error { return checkWide(e, x.(*WideCase)) },
		Classify: classifyWide,
	})
	register(&Prop{
		ID:  "C10",
		New: func() any { return &WideCase{} },
		Draw: func(t *rapid.T) any {
			c := drawSQL(t)
			c.F.PGDump = "o.sql"
			if c.F.FieldLimit == 0 && rapid.IntRange(0, 4).Draw(t, "time?") == 0 {
				drawTimes(t, &c.Case)
			}
			// The dump is text: no NUL.
			for i, l := range c.Lines {
				c.Lines[i] = B(strings.ReplaceAll(string(l), `\u0000`, `\u0001`))
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			wideSizes(e, F{CSV: "o.csv", PGDump: "o.sql"}, yield)
		},
		Check:    func(e *Env, x any) error { return checkWide(e, x.(*WideCase)) },
		Classify: classifyWide,
	})
	register(&Prop{
		ID:  "C11",
		New: func() any { return &WideCase{} },
		Draw: func(t *rapid.T) any {
			c := drawSQL(t)
			o := &GenOpt{Keys: keysOdd, MaxLines: 5, Str: genStr}
			if rapid.Bool().Draw(t, "odd") {
				c.Lines = append(c.Lines, o.Lines(t)...)
			}
			c.F.SQLMaxCols = 0
			c.F.Raw = "o.raw"
			c.F.RawDelim = rapid.SampledFrom([]B{"", ",", "\t", "\x00", "||", "日", "\n", "\"", "%s", "a", " ", ";", "|", "\n\n", "\\", "\xff", " , ", "NULL", "0"}).Draw(t, "delim")
			if rapid.IntRange(0, 2).Draw(t, "one") == 0 {
				if names := keyNames(c.Lines); len(names) > 0 {
					c.F.GetKey = rapid.SampledFrom(names).Draw(t, "get")
					c.Cfg.Transpose, c.Cfg.KeepJSON, c.F.ChildrenLimit, c.Cfg.IncludeKeys = nil, nil, 0, nil
				}
			}
			if rapid.IntRange(0, 40).Draw(t, "big") == 0 {
				c.N = rapid.IntRange(100, 3000).Draw(t, "n")
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			// Values and rows of sizes about those of buffers.
			for _, base := range []int{256, 1024, 4096, 8192, 32768, 65536} {
				for d := -3; d <= 3; d++ {
					c := &WideCase{}
					v := strings.Repeat("v", base+d)
					c.Lines = []B{`{"a":"x","b":1,"c":"y"}`, B(`{"a":"p","b":"` + v + `","c":"q"}`), B(`{"a":"` + v + `","b":"` + v + `"}`), `{"c":"z"}`}
					c.F = F{CSV: "o.csv", Raw: "o.raw", RawDelim: "|", BufSize: 1 << 20, Concurrency: 1}
					if !yield(c) {
						return
					}
				}
			}
		},
		Check:    func(e *Env, x any) error { return checkWide(e, x.(*WideCase)) },
		Classify: classifyWide,
	})
}
