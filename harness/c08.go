package props

import (
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// sqlSafe draws strings that every output format can carry.
var sqlSafeStr = genStrNoNUL

// structPaths lists the paths of objects and arrays of the input.
func structPaths(lines []B) []string {
	m := NewModel(&Case{Lines: lines})
	seen := map[string]bool{}
	var r []string
	for _, evs := range m.lines {
		for _, e := range evs {
			if (e.k == jObj || e.k == jArr) && !seen[flat(e.path)] {
				seen[flat(e.path)] = true
				r = append(r, flat(e.path))
			}
		}
	}
	return r
}

func (m *Model) dsts() []string {
	var r []string
	for d := range m.Children {
		r = append(r, d)
	}
	sort.Strings(r)
	return r
}

func noNULKeys(ks []string) []string {
	var r []string
	for _, k := range ks {
		if !strings.Contains(k, "\u0000") {
			r = append(r, k)
		}
	}
	return r
}

func init() {
	register(&Prop{
		ID:  "C08",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			keys := rapid.SampledFrom([][]string{{"a", "b"}, {"items", "m", "x", "y"}, keysPlain, noNULKeys(keysOdd), {"m", "5", "[0]", "[1]x", "[z]", "", "[01]", "mm"}}).Draw(t, "keys")
			hasEmpty := slices.Contains(keys, "") // then a prefix with a final dot is a key itself
			o := &GenOpt{Keys: keys, MaxLines: 6, MaxDepth: rapid.IntRange(2, 4).Draw(t, "depth"), MaxKids: 4, Str: sqlSafeStr}
			c.Lines = o.Lines(t)
			c.F = F{CSV: "o.csv", Raw: "o.raw", RawDelim: "\x01|", PGDump: "o.sql", Concurrency: genConc(t)}
			if rapid.IntRange(0, 2).Draw(t, "sqlite") == 0 {
				c.F.SQLite = "o.sqlite"
			}
			if rapid.IntRange(0, 3).Draw(t, "names") == 0 {
				c.F.CSV = rapid.SampledFrom([]string{"my.data.csv", "o.csv.gz", "o.v1.2.csv.zst", ".o.csv", "two words.csv", "table"}).Draw(t, "csvName")
				c.F.Raw = rapid.SampledFrom([]string{"r.o.raw", "o.raw.gz", "r.raw.zst", "r.1", "rows"}).Draw(t, "rawName")
			}
			c.F.SQLMaxCols = rapid.SampledFrom([]int{500, 500, 2, 3, 4, 7}).Draw(t, "maxCols")
			ps := structPaths(c.Lines)
			ps = append(ps, ".none", ".a")
			c.Cfg.Transpose = map[string]string{}
			for i, dst := range []string{"items", "kv", "t 3"}[:rapid.IntRange(1, 3).Draw(t, "prefixes")] {
				p := rapid.SampledFrom(ps).Draw(t, "prefix")
				ok := true
				for q := range c.Cfg.Transpose {
					if strings.EqualFold(strings.TrimSuffix(p, "."), strings.TrimSuffix(q, ".")) {
						ok = false
					}
				}
				if ok && (i == 0 || len(p) > 0) {
					if rapid.IntRange(0, 5).Draw(t, "dot") == 0 && !hasEmpty && !strings.HasSuffix(p, ".") {
						p += "."
					}
					if p == "." || hasEmpty && strings.HasSuffix(p, ".") {
						continue
					}
					c.Cfg.Transpose[p] = dst
				}
			}
			if rapid.IntRange(0, 4).Draw(t, "excl") == 0 {
				if names := keyNames(c.Lines); len(names) > 0 {
					c.Cfg.ExcludeKeys = []string{rapid.SampledFrom(names).Draw(t, "ex")}
				}
			}
			if rapid.IntRange(0, 4).Draw(t, "ren") == 0 {
				m := NewModel(c)
				opts := []string{"._sequence", "._index", "._value"}
				for _, d := range m.dsts() {
					for _, cl := range m.Children[d].Cols {
						opts = append(opts, cl.Key)
					}
				}
				c.Cfg.ReplaceKeys = map[string]string{rapid.SampledFrom(opts).Draw(t, "renKey"): "renamed \"col\""}
			}
			c.F.AddSequence = rapid.IntRange(0, 5).Draw(t, "seq") == 0
			if names := keyNames(c.Lines); len(names) > 0 && rapid.IntRange(0, 4).Draw(t, "listed") == 0 {
				// Listed keys, found by scanning or not, go to the same tables.
				for i := rapid.IntRange(1, 4).Draw(t, "nListed"); i > 0; i-- {
					if n := rapid.SampledFrom(names).Draw(t, "inc"); !slices.Contains(c.Cfg.IncludeKeys, n) {
						c.Cfg.IncludeKeys = append(c.Cfg.IncludeKeys, n)
					}
				}
				switch rapid.IntRange(0, 3).Draw(t, "also") {
				case 0:
					c.Cfg.IncludeKeysRegex = []string{"^" + regexp.QuoteMeta(rapid.SampledFrom(names).Draw(t, "incRe"))}
				case 1:
					if n := rapid.SampledFrom(names).Draw(t, "get"); !slices.Contains(c.Cfg.IncludeKeys, n) {
						c.F.GetKey = n
					}
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "mix") == 0 {
				drawMix(t, c)
			}
			return c
		},
		Check: checkC08,
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			m := NewModel(c)
			var l []string
			rows, multi := 0, false
			for _, ch := range m.Children {
				rows += len(ch.Rows)
				seen := map[int]bool{}
				for _, r := range ch.Rows {
					if seen[r.Seq] {
						multi = true
					}
					seen[r.Seq] = true
				}
			}
			for n, v := range map[string]bool{"several-tables": len(m.Children) > 1, "several-rows-per-line": multi, "sqlite": c.F.SQLite != "", "split-tables": c.F.SQLMaxCols < 10, "listed-keys": len(c.Cfg.IncludeKeys) > 0} {
				if v {
					l = append(l, n)
				}
			}
			return l, rows >= 2
		},
	})
}

func checkC08(e *Env, x any) error {
	c := x.(*Case)
	o := e.RunCase(c)
	if err := checkCSV(c, o); err != nil {
		return err
	}
	m := NewModel(c)
	dsts := m.dsts()
	main, kids, err := csvTables(o, c.F.CSV, dsts)
	if err != nil {
		return err
	}
	for _, d := range dsts {
		var rows [][]string
		for _, r := range kids[d].rows {
			var s []string
			for _, cell := range r {
				s = append(s, cell.S)
			}
			rows = append(rows, s)
		}
		if err := m.CompareChild(d, kids[d].cols, rows); err != nil {
			return err
		}
	}
	return compareOthers(c, o, m, main, kids, len(m.lines))
}

// compareOthers checks all other outputs of a run against its CSV output.
func compareOthers(c *Case, o *Out, m *Model, main *tab, kids map[string]*tab, lines int) error {
	files := map[string]bool{}
	if c.F.CSV != "" {
		files[c.F.CSV] = true
	}
	if c.F.Raw != "" {
		files[c.F.Raw] = true
		raw, ok := o.Files[c.F.Raw]
		if !ok {
			return fmt.Errorf("no RAW output")
		}
		if err := compareRaw(c.F.Raw, raw, string(c.F.RawDelim), main); err != nil {
			return err
		}
	}
	for d, k := range kids {
		files[childFile(c.F.CSV, d)] = true
		if c.F.Raw != "" {
			fn := childFile(c.F.Raw, d)
			files[fn] = true
			raw, ok := o.Files[fn]
			if !ok {
				return fmt.Errorf("no RAW output %s", fn)
			}
			if err := compareRaw(fn, raw, string(c.F.RawDelim), k); err != nil {
				return err
			}
		}
	}
	mc := c.F.SQLMaxCols
	if mc == 0 {
		mc = 500
	}
	tbl := c.F.SQLTable
	if tbl == "" {
		tbl = "flatjsonl"
	}
	if c.F.PGDump != "" {
		files[c.F.PGDump] = true
		ts, err := pgTables(o.Files[c.F.PGDump])
		if err != nil {
			return fmt.Errorf("dump: %w", err)
		}
		if err := compareSQL("dump", ts, tbl, mc, lines, main, kids, nil, false); err != nil {
			return err
		}
	}
	if c.F.SQLite != "" {
		files[c.F.SQLite] = true
		ts, err := sqliteTables(o.Raw[c.F.SQLite], o.Dir+"/../..")
		if err != nil {
			return fmt.Errorf("SQLite: %w", err)
		}
		var nulls [][]Cell
		if m != nil && js(colNames(m.Main.Cols)) == js(main.cols) {
			nulls = m.Main.Rows
		}
		if err := compareSQL("SQLite", ts, tbl, mc, lines, main, kids, nulls, len(c.Cfg.ReplaceKeys) == 0 && len(c.Cfg.ReplaceKeysRegex) == 0); err != nil {
			return err
		}
	}
	for fn := range o.Files {
		if !files[fn] {
			return fmt.Errorf("unexpected output file %q", fn)
		}
	}
	return nil
}
