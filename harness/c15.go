package props

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

var (
	xKeysOuter = []string{"a", "b", "c", "link", "Body"}
	xKeysInner = []string{"x", "y", "id", "user name", "дом", "q\"r", "", "0", "k.v"}
)

// genURL draws a URL from its components.
func genURL(t *rapid.T) string {
	s := rapid.SampledFrom([]string{"http", "https", "ftp", "a", "x+y", "HTTP"}).Draw(t, "scheme") + "://"
	if rapid.IntRange(0, 3).Draw(t, "user") == 0 {
		s += rapid.SampledFrom([]string{"joe", "j%40e", "joe:", "joe:pw", "joe:p%3Aw", ":pw"}).Draw(t, "ui") + "@"
	}
	s += rapid.SampledFrom([]string{"example.com", "EXAMPLE.com", "127.0.0.1", "[::1]", "localhost", "", "пример.рф"}).Draw(t, "host")
	if rapid.IntRange(0, 3).Draw(t, "port?") == 0 {
		s += rapid.SampledFrom([]string{":80", ":", ":8080", ":0"}).Draw(t, "port")
	}
	s += rapid.SampledFrom([]string{"", "/", "/a", "/a/b/", "//a//b", "/a%2Fb/c", "/%D0%B4", "/a b", "/./..", "/x.y/[0]", "/a;p=1"}).Draw(t, "path")
	if rapid.IntRange(0, 2).Draw(t, "query?") > 0 {
		s += "?"
		for i := rapid.IntRange(0, 3).Draw(t, "nq"); i > 0; i-- {
			s += rapid.SampledFrom([]string{"q", "id", "p+q", "x%20y", "", "a%5B%5D", "дом", "bad;x"}).Draw(t, "qk")
			s += rapid.SampledFrom([]string{"", "=", "=1", "=a%20b", "=a+b", "=%zz", "=%FF", "=<&>", "=x=y", "=%00"}).Draw(t, "qv")
			if i > 1 {
				s += "&"
			}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "frag?") == 0 {
		s += rapid.SampledFrom([]string{"#", "#top", "#a%20b", "#/x?y"}).Draw(t, "frag")
	}
	return s
}

// genXStr draws a string that clearly is or clearly is not extractable.
func genXStr(t *rapid.T, depth int) string {
	k := rapid.IntRange(0, 9).Draw(t, "xKind")
	if k < 5 && depth > 2 {
		k = 5
	}
	doc := func() string {
		o := &GenOpt{Keys: xKeysInner, MaxDepth: 2, MaxKids: 3, Plain: depth > 0, Str: func(t *rapid.T) string { return genXStr(t, depth+1) }, Num: genNum}
		o.norm()
		if rapid.IntRange(0, 2).Draw(t, "arr") == 0 {
			n := rapid.IntRange(0, 3).Draw(t, "len")
			var p []string
			for ; n > 0; n-- {
				p = append(p, o.Value(t, 1))
			}
			return "[" + strings.Join(p, ",") + "]"
		}
		return o.Object(t, 1)
	}
	switch k {
	case 0, 1, 2, 3:
		return doc()
	case 4: // cut off
		d := doc()
		return d[:len(d)-1]
	case 5, 6, 7:
		return genURL(t)
	case 8:
		return rapid.SampledFrom([]string{"http://[::1", "http://a b/", "://", "x://%zz", "://x", "1http://x", "http://x:port/", "\u0001://x", "see http://x.y/z", "http://\x7f"}).Draw(t, "badURL")
	default:
		return rapid.SampledFrom([]string{"", "x", "hello world", "{", "[", "{}", "[]", "{a:1}", "[z]", `{"a" 1}`, `{"a":}`, "{x://y}", "[http://a/b]", "www.x.y", "mailto:joe", "/a/b", "a/b?c=d", "日本", "(1)", "x\ny", "-", "e", "infinite", "nan", "truely", "-x", ":x", "%zz"}).Draw(t, "plain")
	}
}

func init() {
	register(&Prop{
		ID:  "C15",
		New: func() any { return &Case{} },
		Draw: func(t *rapid.T) any {
			c := &Case{}
			o := &GenOpt{Keys: xKeysOuter, MaxDepth: 2, MaxKids: 3, MaxLines: 4, Str: func(t *rapid.T) string { return genXStr(t, 0) }}
			c.Lines = o.Lines(t)
			c.F = F{CSV: "o.csv", Concurrency: genConc(t), BufSize: 1 << 20}
			c.F.ExtractStrings = rapid.IntRange(0, 4).Draw(t, "all") > 0
			if !c.F.ExtractStrings || rapid.IntRange(0, 3).Draw(t, "byPattern") == 0 {
				f := rapid.SampledFrom([]string{"JSON", "URL"}).Draw(t, "format")
				other := map[string]string{"JSON": "URL", "URL": "JSON"}[f]
				switch rapid.IntRange(0, 3).Draw(t, "patterns") {
				case 0:
					c.Cfg.ExtractValuesRegex = map[string]string{".a": f, ".b": other}
				case 1:
					c.Cfg.ExtractValuesRegex = map[string]string{".*": f}
				case 2:
					c.Cfg.ExtractValuesRegex = map[string]string{"^\\.(link|a)$": f, ".a." + f + ".x": other}
				default:
					c.Cfg.ExtractValuesRegex = map[string]string{"x|a|link|\\[0\\]": f}
				}
			}
			names := colKeys(c)
			if len(names) > 0 {
				name := rapid.SampledFrom(names)
				switch rapid.IntRange(0, 9).Draw(t, "sel") {
				case 0:
					c.F.GetKey = name.Draw(t, "get")
				case 1, 2:
					for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
						c.Cfg.IncludeKeys = append(c.Cfg.IncludeKeys, name.Draw(t, "inc"))
					}
				case 3:
					c.Cfg.ExcludeKeys = []string{name.Draw(t, "exc"), name.Draw(t, "exc")}
				case 4:
					c.Cfg.IncludeKeysRegex = []string{"^" + regexp.QuoteMeta(name.Draw(t, "inc"))}
				}
			}
			if rapid.IntRange(0, 5).Draw(t, "mix") == 0 {
				drawMix(t, c)
				c.F.ChildrenLimit = 0 // extracted parts are children
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			line := func(v any) bool {
				for _, conc := range []int{1, 3} {
					if !yield(&Case{Lines: []B{B(js(map[string]any{"a": v, "z": 1})), `{"a":"b://c"}`}, F: F{CSV: "o.csv", Concurrency: conc, BufSize: 1 << 22, ExtractStrings: true}}) {
						return false
					}
				}
				return true
			}
			// Texts in texts.
			for _, depth := range []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 14} {
				in := js(map[string]any{"x": depth, "url": "s://h/p"})
				for i := 1; i < depth; i++ {
					if i%3 == 0 {
						in = js([]any{in})
					} else {
						in = js(map[string]any{"s": in})
					}
				}
				if !line(in) {
					return
				}
			}
			// Large texts.
			for _, n := range []int{100, 1000, 5000, 70000} {
				var o strings.Builder
				for i := 0; i < n/20; i++ {
					fmt.Fprintf(&o, `,"k%d":[%d,"x://y/%d"]`, i, i, i)
				}
				for _, v := range []string{
					`{"x":"` + strings.Repeat("y", n) + `"}`,
					strings.Repeat(" ", n) + `{"x":1}`, // does not start like a document
					`{` + strings.Repeat(" ", n) + `"x":1}`,
					`{"x":1}` + strings.Repeat(" ", n),
					`{"x":0` + o.String() + `}`,
					"http://" + strings.Repeat("h", n) + "/?x=1",
					"http://h/" + strings.Repeat("p/", n/20) + "?x=1#f",
					"http://h/?" + strings.Repeat("q=1&", n/20) + "x=1",
					"http://h/?x=" + strings.Repeat("%41", n),
					"http://h/#" + strings.Repeat("f", n),
				} {
					if !line(v) {
						return
					}
				}
			}
		},
		Check: func(e *Env, x any) error {
			c := x.(*Case)
			if err := checkCSV(c, e.RunCase(c)); err != nil {
				return err
			}
			// The columns of the strings themselves do not depend on extraction.
			if c.F.GetKey == "" && len(c.Cfg.IncludeKeys) == 0 {
				off := *c
				off.F.ExtractStrings = false
				off.Cfg.ExtractValuesRegex = nil
				if len(NewModel(&off).Main.Cols) > 0 {
					return subTable(e, &off, c)
				}
			}
			return nil
		},
		Classify: func(x any) ([]string, bool) {
			c := x.(*Case)
			var l []string
			n := 0
			lab := map[string]bool{}
			for _, k := range colKeys(c) {
				j := strings.Count(k, ".JSON") + strings.Count(k, ".URL")
				if j > 0 {
					n++
				}
				lab["json"] = lab["json"] || strings.Contains(k, ".JSON")
				lab["url"] = lab["url"] || strings.Contains(k, ".URL")
				lab["nested"] = lab["nested"] || j > 1
			}
			lab["pattern"] = len(c.Cfg.ExtractValuesRegex) > 0
			lab["selected"] = c.F.GetKey != "" || len(c.Cfg.IncludeKeys)+len(c.Cfg.ExcludeKeys)+len(c.Cfg.IncludeKeysRegex) > 0
			for k, v := range lab {
				if v {
					l = append(l, k)
				}
			}
			return l, n >= 2
		},
	})
}

// colKeys lists the scalar keys of a case by the model.
func colKeys(c *Case) []string {
	var r []string
	for _, k := range NewModel(c).list {
		r = append(r, k.name)
	}
	return r
}

// subTable checks that each column of the first run is the same in the second.
func subTable(e *Env, a, b *Case) error {
	oa, ob := e.RunCase(a), e.RunCase(b)
	if oa.Err != nil || ob.Err != nil {
		return fmt.Errorf("processing failed: %v / %v", oa.Err, ob.Err)
	}
	ra, err := parseCSV(oa.Files[a.F.CSV])
	if err != nil {
		return err
	}
	rb, err := parseCSV(ob.Files[b.F.CSV])
	if err != nil {
		return err
	}
	if len(ra) != len(rb) {
		return fmt.Errorf("rows: %d, %d", len(ra), len(rb))
	}
	if len(ra) == 0 {
		return nil
	}
	pos := map[string]int{}
	for i, h := range rb[0] {
		pos[h] = i
	}
	for j, h := range ra[0] {
		if h == "" {
			continue
		}
		p, ok := pos[h]
		if !ok {
			return fmt.Errorf("column %q is missing: %q", h, rb[0])
		}
		for i := range ra {
			if ra[i][j] != rb[i][p] {
				return fmt.Errorf("row %d, column %q: %q, %q", i, h, ra[i][j], rb[i][p])
			}
		}
	}
	return nil
}
