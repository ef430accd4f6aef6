package props

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// keysName exercises naming: same tails under different parents, camel case,
// leading digits, names that normalise to the same text, non-latin names.
var keysName = []string{"id", "a", "b", "fooBar", "foo_bar", "FooBAZ", "md5SUM", "HTTPServer", "user name", "x-y", "1st", "[q]", "дом", "日本", "_p", "ID2", "p.q", "", "x(y)", "a1", "veryLongSegmentNameOfAKey", "value"}

// normName keeps what naming must keep of a key: its latin letters and digits.
func normName(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z' || r >= '0' && r <= '9':
			b.WriteRune(r)
		case r >= 'A' && r <= 'Z':
			b.WriteRune(r - 'A' + 'a')
		}
	}
	return b.String()
}

// checkAutoName decides if name is acceptable as an automatic name of key.
func checkAutoName(key, name string) error {
	if name == key {
		return nil
	}
	if name == "" {
		return fmt.Errorf("key %q: empty automatic name", key)
	}
	c := name[0]
	if !(c == '_' || c >= 'a' && c <= 'z') {
		return fmt.Errorf("key %q: automatic name %q does not start with a letter or underscore", key, name)
	}
	if strings.ToLower(name) != name {
		return fmt.Errorf("key %q: automatic name %q is not snake_case", key, name)
	}
	if n := normName(name); n == "" || !strings.HasSuffix(normName(key), n) {
		return fmt.Errorf("key %q: automatic name %q is not a tail of it", key, name)
	}
	// Words stay words: what is apart in the key is apart in the name, also where
	// camel case starts a word, and words are not cut.
	ks, ns := alnums(key), alnums(name)
	ks = ks[len(ks)-len(ns):]
	for i := 1; i < len(ns); i++ {
		a, b := key[ks[i-1]], key[ks[i]]
		upperA, upperB := a >= 'A' && a <= 'Z', b >= 'A' && b <= 'Z'
		apart, together := ks[i]-ks[i-1] > 1 || !upperA && upperB, ks[i]-ks[i-1] == 1 && !upperB
		if gap := ns[i]-ns[i-1] > 1; apart && !gap || together && gap {
			return fmt.Errorf("key %q: automatic name %q does not have the words of it", key, name)
		}
	}
	return nil
}

// alnums are positions of latin letters and digits.
func alnums(s string) []int {
	var l []int
	for i := 0; i < len(s); i++ {
		if c := s[i]; c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' {
			l = append(l, i)
		}
	}
	return l
}

// namesClash tells if two patterns match one key, or if template names differ
// only in spelling that conversion to snake case removes.
func namesClash(c *Case) bool {
	m := NewModel(c)
	byNorm := map[string]string{}
	snake := false
	for _, v := range c.Cfg.ReplaceKeysRegex {
		snake = snake || strings.HasSuffix(v, snakeSuffix)
	}
	if snake {
		for _, v := range c.Cfg.ReplaceKeys {
			byNorm[normName(v)] = "explicit " + v
		}
	}
	for _, k := range m.list {
		n := 0
		for p, rep := range c.Cfg.ReplaceKeysRegex {
			if mustRe(p).MatchString(k.name) {
				n++
				if name := templateName(p, rep, k.name); snake {
					x := normName(strings.TrimSuffix(name, snakeSuffix))
					if prev, ok := byNorm[x]; ok && prev != name || x == "" {
						return true
					}
					byNorm[x] = name
				}
			}
		}
		if n > 1 {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{
		ID:  "C06",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			keys := rapid.SampledFrom([][]string{keysName, keysName[:6], {"id", "a", "fooBar", "foo_bar"}, keysOdd, keysPlain}).Draw(t, "keys")
			o := &GenOpt{Keys: keys, MaxLines: 4, MaxDepth: rapid.IntRange(1, 4).Draw(t, "depth"), MaxKids: 5}
			c.Lines = o.Lines(t)
			names := keyNames(c.Lines)
			c.F = F{CSV: "o.csv", Concurrency: rapid.SampledFrom([]int{1, 1, 1, 4}).Draw(t, "conc")}
			c.F.ReplaceKeys = rapid.IntRange(0, 3).Draw(t, "auto") > 0
			c.F.AddSequence = rapid.IntRange(0, 7).Draw(t, "seq") == 0
			if rapid.IntRange(0, 3).Draw(t, "limit?") == 0 {
				c.F.KeyLimit = rapid.IntRange(8, 24).Draw(t, "limit")
			}
			if len(names) == 0 {
				return c
			}
			if rapid.Bool().Draw(t, "map?") {
				c.Cfg.ReplaceKeys = map[string]string{}
				for i := rapid.IntRange(1, 3).Draw(t, "nMap"); i > 0; i-- {
					k := rapid.SampledFrom(names).Draw(t, "mapKey")
					if rapid.IntRange(0, 3).Draw(t, "upper") == 0 {
						k = strings.ToUpper(k)
					}
					dup := false
					for p := range c.Cfg.ReplaceKeys {
						dup = dup || strings.EqualFold(p, k)
					}
					if !dup {
						c.Cfg.ReplaceKeys[k] = rapid.SampledFrom([]string{"x", "my name", "a", "id", "foo_bar", "日本", "q\"t", "_x", "b_a", "Id", "a,b", "a_rather_long_explicit_name_of_a_column"}).Draw(t, "mapName")
					}
				}
			}
			if rapid.Bool().Draw(t, "re?") {
				c.Cfg.ReplaceKeysRegex = map[string]string{}
				for i := rapid.IntRange(1, 2).Draw(t, "nRe"); i > 0; i-- {
					p := genPattern(t, names)
					n := regexp.MustCompile(starPattern(p)).NumSubexp()
					tpl := rapid.SampledFrom([]string{"n", "id", "p_${1}", "${1}", "${1}_${2}", "${2}.${1}", "Pre${1}" + snakeSuffix, "${1}" + snakeSuffix}).Draw(t, "tpl")
					if rapid.IntRange(0, 7).Draw(t, "manyGroups") == 0 {
						// More than nine groups, in another order.
						n = rapid.IntRange(9, 12).Draw(t, "groups")
						p = `^\.` + strings.Repeat("(.)", n-1) + "(.*)$"
						tpl = "g"
						for i := n; i > 0; i-- {
							tpl += fmt.Sprintf("${%d}", i)
						}
					}
					if n == 0 && strings.Contains(tpl, "${1}") || n < 2 && strings.Contains(tpl, "${2}") {
						tpl = "all_of_them"
					}
					c.Cfg.ReplaceKeysRegex[p] = tpl
				}
				if namesClash(c) {
					c.Cfg.ReplaceKeysRegex = nil
				}
			}
			return c
		},
		Check: checkC06,
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			m := NewModel(c)
			l := []string{}
			expl, pat, auto := 0, 0, 0
			for _, k := range m.list {
				switch userName(c, k.name) {
				case "explicit":
					expl++
				case "pattern":
					pat++
				default:
					auto++
				}
			}
			for n, v := range map[string]bool{"explicit": expl > 0, "pattern": pat > 0, "automatic": auto > 0 && c.F.ReplaceKeys, "limited": c.F.KeyLimit > 0, "multi-worker": c.F.Concurrency > 1} {
				if v {
					l = append(l, n)
				}
			}
			return l, len(m.list) >= 2 && (expl+pat > 0 || auto > 1 && c.F.ReplaceKeys || c.F.KeyLimit > 0)
		},
	})
}

// userName tells where the name of a key comes from.
func userName(c *Case, key string) string {
	for k := range c.Cfg.ReplaceKeys {
		if strings.ToLower(k) == strings.ToLower(key) {
			return "explicit"
		}
	}
	for p, rep := range c.Cfg.ReplaceKeysRegex {
		if mustRe(p).MatchString(key) && templateName(p, rep, key) != key {
			return "pattern"
		}
	}
	return ""
}

func checkC06(e *Env, x any) error {
	c := x.(*Case)
	o := e.RunCase(c)
	if o.Err != nil {
		return fmt.Errorf("processing failed: %w", o.Err)
	}
	rows, err := parseCSV(o.Files["o.csv"])
	if err != nil {
		return err
	}
	m := NewModel(c)
	if len(m.Main.Cols) == 0 {
		return m.CompareMain(rows, true)
	}
	if len(rows) == 0 {
		return fmt.Errorf("no header")
	}
	head := rows[0]
	// Names that users choose themselves can repeat names of unchanged keys,
	// everything else has to stay apart.
	if len(head) != len(m.Main.Cols) {
		return fmt.Errorf("columns: want one per key or shared name %q, got %q", colNames(m.Main.Cols), head)
	}
	seen := map[string]bool{}
	for _, h := range head {
		if seen[h] {
			return fmt.Errorf("two columns are named %q: %q", h, head)
		}
		seen[h] = true
	}
	if c.F.Concurrency != 1 {
		// The order of columns is open: explicit names must be there, and the
		// contents of all columns have to be those of the model.
		for _, col := range m.Main.Cols {
			if userName(c, col.Key) == "explicit" && !seen[col.Name] {
				return fmt.Errorf("explicit name %q is missing in %q", col.Name, head)
			}
		}
		var want, got []string
		for j := range head {
			w, g := "", ""
			for i := 1; i < len(rows); i++ {
				if len(rows[i]) != len(head) || len(rows) != len(m.Main.Rows)+1 {
					return fmt.Errorf("table of %d rows, row %d has %d fields", len(rows)-1, i, len(rows[i]))
				}
				w += js(m.Main.Rows[i-1][j].text()) + ","
				g += js(rows[i][j]) + ","
			}
			want, got = append(want, w), append(got, g)
		}
		sort.Strings(want)
		sort.Strings(got)
		if js(want) != js(got) {
			return fmt.Errorf("contents of columns: want %s, got %s", js(want), js(got))
		}
		return nil
	}
	for j, col := range m.Main.Cols {
		name, lim := head[j], c.F.KeyLimit
		src := userName(c, col.Key)
		if src == "explicit" {
			if name != col.Name {
				return fmt.Errorf("key %q: explicit name %q became %q", col.Key, col.Name, name)
			}
			continue
		}
		if lim > 0 && len(name) > lim {
			return fmt.Errorf("key %q: name %q is longer than the limit %d", col.Key, name, lim)
		}
		full := col.Name
		snake := strings.HasSuffix(full, snakeSuffix) && src == "pattern"
		switch {
		case snake:
			n := normName(strings.TrimSuffix(full, snakeSuffix))
			if strings.ToLower(name) != name || lim == 0 && normName(name) != n {
				return fmt.Errorf("key %q: pattern name %q became %q", col.Key, full, name)
			}
		case src == "" && c.F.ReplaceKeys:
			// A limited name ends with a number.
			if lim == 0 || !strings.ContainsAny(name[max(len(name)-1, 0):], "0123456789") {
				if err := checkAutoName(col.Key, name); err != nil {
					return err
				}
			}
		case lim == 0 || len(full) <= lim:
			if name != full {
				return fmt.Errorf("key %q: want name %q, got %q", col.Key, full, name)
			}
		default:
			if !strings.HasPrefix(full, strings.TrimRight(name, "0123456789")) {
				return fmt.Errorf("key %q: limited name %q does not begin like %q", col.Key, name, full)
			}
		}
	}
	// Data: the model's table under the observed names.
	t := MTable{Rows: m.Main.Rows}
	for j := range m.Main.Cols {
		t.Cols = append(t.Cols, MCol{Name: head[j]})
	}
	return compareTable(t, head, rows[1:], true)
}
