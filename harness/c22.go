package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vearutop/flatjsonl/flatjsonl"
	"pgregory.net/rapid"
)

// C22Case is a configuration in several spellings.
type C22Case struct {
	Case
	Style []int `json:"style"`           // choices of the writers, cyclic
	JSON5 B     `json:"json5,omitempty"` // text of the JSON5 spelling, instead of the writer's
	Cut   int   `json:"cut,omitempty"`   // a cut off JSON file, at 1/1000, must be an error
}

// conf is a configuration as an ordered list of fields.
type confField struct {
	name string
	val  any // string, []string, map[string]string
}

func (c Cfg) fields() []confField {
	var fs []confField
	add := func(n string, v any) { fs = append(fs, confField{n, v}) }
	s := func(n, v string) {
		if v != "" {
			add(n, v)
		}
	}
	l := func(n string, v []string) {
		if len(v) > 0 {
			add(n, v)
		}
	}
	m := func(n string, v map[string]string) {
		if len(v) > 0 {
			add(n, v)
		}
	}
	s("matchLinePrefix", c.MatchLinePrefix)
	l("includeKeys", c.IncludeKeys)
	l("includeKeysRegex", c.IncludeKeysRegex)
	l("excludeKeys", c.ExcludeKeys)
	l("excludeKeysRegex", c.ExcludeKeysRegex)
	m("replaceKeys", c.ReplaceKeys)
	m("replaceKeysRegex", c.ReplaceKeysRegex)
	m("parseTime", c.ParseTime)
	s("outputTimeFormat", c.OutputTimeFormat)
	s("outputTZ", c.OutputTimezone)
	if c.ConcatDelimiter != nil {
		add("concatDelimiter", *c.ConcatDelimiter)
	}
	m("transpose", c.Transpose)
	m("extractValuesRegex", c.ExtractValuesRegex)
	l("keepJSON", c.KeepJSON)
	l("allowCardinality", c.AllowCardinality)
	return fs
}

// direct builds the configuration value field by field.
func (c Cfg) direct() flatjsonl.Config {
	r := flatjsonl.Config{
		MatchLinePrefix: c.MatchLinePrefix, IncludeKeys: c.IncludeKeys, IncludeKeysRegex: c.IncludeKeysRegex,
		ExcludeKeys: c.ExcludeKeys, ExcludeKeysRegex: c.ExcludeKeysRegex, ReplaceKeys: c.ReplaceKeys,
		ReplaceKeysRegex: c.ReplaceKeysRegex, ParseTime: c.ParseTime, OutputTimeFormat: c.OutputTimeFormat,
		OutputTimezone: c.OutputTimezone, ConcatDelimiter: c.ConcatDelimiter, Transpose: c.Transpose,
		KeepJSON: c.KeepJSON, AllowCardinality: c.AllowCardinality,
	}
	r.ExtractValuesRegex = Cfg{ExtractValuesRegex: c.ExtractValuesRegex}.Real().ExtractValuesRegex
	return r
}

type styler struct {
	st []int
	i  int
}

func (s *styler) n(k int) int {
	if len(s.st) == 0 {
		return 0
	}
	v := s.st[s.i%len(s.st)]
	s.i++
	return v % k
}

func mapKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func jsonString(s string, ascii bool) string {
	q := js(s)
	if !ascii {
		return q
	}
	var b strings.Builder
	for _, r := range q {
		switch {
		case r < 0x80:
			b.WriteRune(r)
		case r > 0xffff:
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+r>>10, 0xdc00+r&0x3ff)
		default:
			fmt.Fprintf(&b, `\u%04x`, r)
		}
	}
	return b.String()
}

// writeJSON writes plain JSON with drawn white space and escapes.
func writeJSON(fs []confField, s *styler) string {
	var b strings.Builder
	ws := func() { b.WriteString([]string{"", " ", "\n", "\t", "\n  "}[s.n(5)]) }
	str := func(v string) { b.WriteString(jsonString(v, s.n(2) == 0)) }
	b.WriteByte('{')
	for i, f := range fs {
		if i > 0 {
			b.WriteByte(',')
		}
		ws()
		str(f.name)
		ws()
		b.WriteByte(':')
		ws()
		switch v := f.val.(type) {
		case string:
			str(v)
		case []string:
			b.WriteByte('[')
			for j, x := range v {
				if j > 0 {
					b.WriteByte(',')
				}
				ws()
				str(x)
				ws()
			}
			b.WriteByte(']')
		case map[string]string:
			b.WriteByte('{')
			for j, k := range mapKeys(v) {
				if j > 0 {
					b.WriteByte(',')
				}
				ws()
				str(k)
				b.WriteByte(':')
				ws()
				str(v[k])
				ws()
			}
			b.WriteByte('}')
		}
		ws()
	}
	b.WriteByte('}')
	return b.String()
}

// writeJSON5 uses what the decoder knows of JSON5 beyond JSON: line comments
// in front of items, names without quotes, trailing commas.
func writeJSON5(fs []confField, s *styler) string {
	var b strings.Builder
	nl := func() {
		switch s.n(4) {
		case 0:
			b.WriteString("\n")
		case 1:
			b.WriteString(" // comment: {a: [1\n")
		case 2:
			b.WriteString("\n// it's \"a\" comment, http://x\n  ")
		case 3:
			b.WriteString("\n\t")
		}
	}
	str := func(v string) { b.WriteString(jsonString(v, s.n(3) == 0)) }
	name := func(n string) {
		if s.n(3) > 0 {
			b.WriteString(n)
			return
		}
		str(n)
	}
	comma := func(last bool) {
		if !last || s.n(2) == 0 {
			b.WriteByte(',')
		}
		if last {
			b.WriteString([]string{"", "\n", " "}[s.n(3)])
		}
	}
	if s.n(3) == 0 {
		b.WriteString("// configuration\n")
	}
	b.WriteByte('{')
	for i, f := range fs {
		nl()
		name(f.name)
		b.WriteString(": ")
		switch v := f.val.(type) {
		case string:
			str(v)
		case []string:
			b.WriteByte('[')
			for j, x := range v {
				nl()
				str(x)
				comma(j == len(v)-1)
			}
			b.WriteByte(']')
		case map[string]string:
			b.WriteByte('{')
			for j, k := range mapKeys(v) {
				nl()
				str(k)
				b.WriteString(": ")
				str(v[k])
				comma(j == len(v)-1)
			}
			b.WriteByte('}')
		}
		comma(i == len(fs)-1)
	}
	b.WriteString("}\n")
	return b.String()
}

// writeYAML uses block and flow styles and all kinds of quoting.
func writeYAML(fs []confField, s *styler) string {
	var b strings.Builder
	str := func(v string, flow bool) string {
		plain := v != "" && !strings.ContainsFunc(v, func(r rune) bool {
			return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '.' || r == '_')
		})
		switch strings.ToLower(v) {
		case "null", "true", "false", "yes", "no", "on", "off", "y", "n", ".inf", ".nan", "nan", "inf", ".", "..", "...":
			plain = false
		}
		switch s.n(3) {
		case 0:
			if plain {
				return v
			}
		case 1:
			if !strings.ContainsFunc(v, func(r rune) bool {
				return r < 32 || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xfffe
			}) {
				return "'" + strings.ReplaceAll(v, "'", "''") + "'"
			}
		}
		q := ""
		for _, r := range v {
			if r > 0xffff {
				q += fmt.Sprintf(`\U%08x`, r)
			} else {
				x := jsonString(string(r), true)
				q += x[1 : len(x)-1]
			}
		}
		return `"` + q + `"`
	}
	end := func() {
		if s.n(5) == 0 {
			b.WriteString(" # comment: [x")
		}
		b.WriteByte('\n')
	}
	if s.n(4) == 0 {
		b.WriteString("---\n")
	}
	for _, f := range fs {
		if s.n(4) == 0 {
			b.WriteString("# comment\n\n")
		}
		b.WriteString(str(f.name, false) + ":")
		switch v := f.val.(type) {
		case string:
			b.WriteString(" " + str(v, false))
			end()
		case []string:
			if s.n(3) == 0 {
				b.WriteString(" [")
				for j, x := range v {
					if j > 0 {
						b.WriteString(", ")
					}
					b.WriteString(str(x, true))
				}
				b.WriteByte(']')
				end()
				continue
			}
			end()
			in := []string{"", "  "}[s.n(2)]
			for _, x := range v {
				b.WriteString(in + "- " + str(x, false))
				end()
			}
		case map[string]string:
			if s.n(3) == 0 {
				b.WriteString(" {")
				for j, k := range mapKeys(v) {
					if j > 0 {
						b.WriteString(", ")
					}
					b.WriteString(str(k, true) + ": " + str(v[k], true))
				}
				b.WriteByte('}')
				end()
				continue
			}
			end()
			for _, k := range mapKeys(v) {
				b.WriteString("  " + str(k, false) + ": " + str(v[k], false))
				end()
			}
		}
	}
	return b.String()
}

var c22Texts = []string{
	"a", "b", "yes", "null", "~", "1", "1.5", "-", "- x", "k: v", "#x", "x #y", "it's", `q"q`, "日本", "é", "😀", "a/b", "//x", "/*x*/", "http://x/y", "{x}", "[x]",
	"&a", "*a", "!t", "%x", "@x", "`x", "|", ">", "x,y", ": ", "tab\there", "nl\nhere", "back\\slash", "true", " lead", "trail ", "=", "0x10", "1_000", "2020-01-01", "::", "?", "\u2028", "\u0001", "A\u00a0B", "<b>&",
}

func init() {
	register(&Prop{
		ID:  "C22",
		New: func() any { return &C22Case{} },
		Draw: func(t *rapid.T) any {
			c := &C22Case{}
			txt := func(label string) string { return rapid.SampledFrom(c22Texts).Draw(t, label) }
			// An input that shows the effect of every field.
			ks := rapid.SliceOfNDistinct(rapid.SampledFrom(c22Texts), 3, 5, func(s string) string { return strings.ToLower(s) }).Draw(t, "keys")
			for i := range ks {
				// Names that read like paths make distinct paths the same.
				ks[i] = strings.NewReplacer(".", "-", "[", "(", "]", ")", "{", "(", "}", ")").Replace(ks[i])
			}
			for i := rapid.IntRange(1, 4).Draw(t, "lines"); i > 0; i-- {
				l := ""
				if rapid.Bool().Draw(t, "prefix") {
					l = "p" + fmt.Sprint(i) + " "
				}
				l += `{"id":` + fmt.Sprint(i)
				for j, k := range ks {
					switch rapid.IntRange(0, 4).Draw(t, "val") {
					case 0:
						l += "," + js(k) + ":" + js(txt("text"))
					case 1:
						l += "," + js(k) + ":" + fmt.Sprint(j)
					case 2:
						l += "," + js(k) + `:{"x":` + js(txt("text")) + `,"y":[1,{"z":true}]}`
					case 3:
					case 4:
						l += "," + js(k) + ":null"
					}
				}
				l += `,"t":"2021-03-04T05:06:07Z","j":"{\"in\":[1]}","deep":{"p":{"q":1,"r":2,"o":3},"s":"x","v":[0]}}`
				c.Lines = append(c.Lines, B(l))
			}
			c.F = F{CSV: "o.csv", Concurrency: 1, BufSize: 100000}
			names := colKeys(&c.Case)
			name := rapid.SampledFrom(names)
			for n := rapid.IntRange(1, 5).Draw(t, "fields"); n > 0; n-- {
				switch rapid.IntRange(0, 14).Draw(t, "field") {
				case 0:
					c.Cfg.MatchLinePrefix = rapid.SampledFrom([]string{`^(\w)(\d)`, `(p[0-9]) `, `(.*)`}).Draw(t, "mlp")
				case 1:
					c.Cfg.IncludeKeys = append(rapid.SliceOfNDistinct(name, 1, 4, rapid.ID[string]).Draw(t, "inc"), "const:"+txt("const"))
				case 2:
					c.Cfg.IncludeKeysRegex = []string{rapid.SampledFrom([]string{".deep.*.q", "^\\.id$", "[tj]$", `\.[^.]*$`}).Draw(t, "incre")}
				case 3:
					c.Cfg.ExcludeKeys = rapid.SliceOfN(name, 1, 3).Draw(t, "ex")
				case 4:
					c.Cfg.ExcludeKeysRegex = []string{rapid.SampledFrom([]string{".deep.*", "^\\.id$", "'|\"", "#"}).Draw(t, "exre")}
				case 5:
					c.Cfg.ReplaceKeys = map[string]string{}
					for i := rapid.IntRange(1, 3).Draw(t, "ren"); i > 0; i-- {
						c.Cfg.ReplaceKeys[name.Draw(t, "key")] = txt("name")
					}
				case 6:
					c.Cfg.ReplaceKeysRegex = map[string]string{rapid.SampledFrom([]string{"^\\.deep\\.(.*)$", ".deep.*.*"}).Draw(t, "renre"): rapid.SampledFrom([]string{"d_$1", "${1}: x", "'$1'"}).Draw(t, "tpl")}
				case 7:
					c.Cfg.ParseTime = map[string]string{".t": rapid.SampledFrom([]string{"2006-01-02T15:04:05Z07:00", "2006-01-02", "RAW"}).Draw(t, "pt")}
				case 8:
					c.Cfg.OutputTimeFormat = rapid.SampledFrom([]string{"2006/01/02 15:04:05", "Jan _2: 06", "15"}).Draw(t, "otf")
				case 9:
					c.Cfg.OutputTimezone = rapid.SampledFrom([]string{"Asia/Tokyo", "UTC"}).Draw(t, "otz")
				case 10:
					d := rapid.SampledFrom([]string{"", ",", ": ", "#", "'", "\n", "null", "1"}).Draw(t, "delim")
					c.Cfg.ConcatDelimiter = &d
				case 11:
					c.Cfg.Transpose = map[string]string{".deep": "kids"}
				case 12:
					c.Cfg.ExtractValuesRegex = map[string]string{"^\\.j$": rapid.SampledFrom([]string{"JSON", "URL"}).Draw(t, "fmt")}
				case 13:
					c.Cfg.KeepJSON = rapid.SampledFrom([][]string{{".deep.p"}, {".deep.v", ".deep.p"}, {".deep.v", ".deep"}}).Draw(t, "keep")
				case 14:
					c.F.ChildrenLimit = rapid.IntRange(1, 2).Draw(t, "limit")
					c.Cfg.AllowCardinality = rapid.SampledFrom([][]string{{"."}, {".deep"}, {".deep.p"}, {".deep", ".deep.p"}}).Draw(t, "allow")
				}
			}
			// Fields that work only together.
			if (c.Cfg.OutputTimeFormat != "" || c.Cfg.OutputTimezone != "") && rapid.IntRange(0, 3).Draw(t, "withTime") > 0 {
				c.Cfg.ParseTime = map[string]string{".t": "2006-01-02T15:04:05Z07:00"}
				c.Cfg.IncludeKeys = append([]string{".t"}, c.Cfg.IncludeKeys...)
			}
			if c.Cfg.ConcatDelimiter != nil && rapid.IntRange(0, 3).Draw(t, "withNames") > 0 {
				c.Cfg.ReplaceKeys = map[string]string{".id": "same", ".t": "same", names[len(names)-1]: "same"}
				c.Cfg.IncludeKeys = append([]string{".id", ".t"}, c.Cfg.IncludeKeys...)
			}
			c.Style = rapid.SliceOfN(rapid.IntRange(0, 59), 4, 12).Draw(t, "style")
			if rapid.IntRange(0, 15).Draw(t, "large?") == 0 {
				// A large configuration, what counts comes last.
				n := rapid.IntRange(1, 24).Draw(t, "large") * rapid.SampledFrom([]int{1, 10, 500}).Draw(t, "scale")
				var f []string
				for i := range n {
					f = append(f, fmt.Sprintf(".filler.%08d", i))
				}
				c.Cfg.ExcludeKeys = append(f, c.Cfg.ExcludeKeys...)
				if rapid.Bool().Draw(t, "longName") {
					if c.Cfg.ReplaceKeys == nil {
						c.Cfg.ReplaceKeys = map[string]string{}
					}
					c.Cfg.ReplaceKeys[name.Draw(t, "key")] = strings.Repeat("long", n) + "e"
				}
				if c.Cfg.KeepJSON == nil {
					c.Cfg.KeepJSON = []string{".deep.p"}
				}
			}
			if rapid.IntRange(0, 5).Draw(t, "cut?") == 0 {
				c.Cut = rapid.IntRange(1, 999).Draw(t, "cut")
			}
			return c
		},
		Check: checkC22,
		Classify: func(x any) ([]string, bool) {
			c := x.(*C22Case)
			var l []string
			fs := c.Cfg.fields()
			for _, f := range fs {
				l = append(l, f.name)
			}
			if c.Cut > 0 {
				l = append(l, "cut-off")
			}
			switch n := len(fmt.Sprint(fs)); {
			case n > 70000:
				l = append(l, "over-70000-bytes")
			case n > 5000:
				l = append(l, "over-5000-bytes")
			}
			return l, len(fs) > 1
		},
	})
}

// runConf runs the tool with the configuration given as by the user.
func (e *Env) runConf(c *Case, conf string, direct bool) *Out {
	dir := e.Dir()
	defer os.RemoveAll(dir)
	outDir := filepath.Join(dir, "out")
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		die("%v", err)
	}
	in := filepath.Join(dir, "in.jsonl")
	if err := os.WriteFile(in, joinLines(c.Lines), 0o644); err != nil {
		die("%v", err)
	}
	o := &Out{Files: map[string]string{}}
	dog(true)
	defer dog(false)
	f := c.F.real(outDir)
	f.ShowKeysInfo = true
	f.Input = in
	var p *flatjsonl.Processor
	if direct {
		p, o.Err = flatjsonl.NewProcessor(f, c.Cfg.direct(), flatjsonl.Input{FileName: in})
	} else {
		f.Config = conf
		p, o.Err = flatjsonl.New(f)
	}
	if o.Err != nil {
		return o
	}
	var so bytes.Buffer
	p.Stdout = &so
	p.Log = func(...any) {}
	if o.Err = p.Process(); o.Err != nil {
		return o
	}
	o.Stdout = so.String()
	for n, b := range listFiles(outDir) {
		o.Files[n] = string(b)
	}
	return o
}

func checkC22(e *Env, x any) error {
	c := x.(*C22Case)
	fs := c.Cfg.fields()
	ref := e.runConf(&c.Case, "", true)
	if ref.Err != nil {
		return fmt.Errorf("configuration value: %w", ref.Err)
	}
	dir := e.Dir()
	defer os.RemoveAll(dir)
	n := 0
	file := func(s string, exts ...string) string {
		n++
		name := []string{"c%d", "{c%d}", "[%d", "my c %d", "it's\"%d", " %d"}[c.Style[1%len(c.Style)]%6]
		fn := filepath.Join(dir, fmt.Sprintf(name+"%s", n, exts[c.Style[0]%len(exts)]))
		if err := os.WriteFile(fn, []byte(s), 0o644); err != nil {
			die("%v", err)
		}
		return fn
	}
	s := &styler{st: c.Style}
	plain, err := json.Marshal(c.Cfg)
	if err != nil {
		die("%v", err)
	}
	j, j5, y := writeJSON(fs, s), writeJSON5(fs, s), writeYAML(fs, s)
	if c.JSON5 != "" {
		j5 = string(c.JSON5)
	}
	pad := []string{" ", "\n", "\t ", "\r\n", "\n\n  "}[s.n(5)] + j + []string{"", "\n", " "}[s.n(3)]
	spell := []struct{ kind, text, arg string }{
		{"inline JSON", string(plain), string(plain)},
		{"inline JSON", j, j},
		{"inline JSON", pad, pad},
		{"JSON file", string(plain), file(string(plain), ".json", ".cfg", ".yaml", "")},
		{"JSON file", j, file(j, ".json", ".json5", "")},
		{"JSON5 file", j5, file(j5, ".json5", ".json", ".conf", "")},
		{"YAML file", y, file(y, ".yaml", ".yml", ".json", "")},
	}
	for _, sp := range spell {
		o := e.runConf(&c.Case, sp.arg, false)
		if o.Err != nil {
			return fmt.Errorf("%s: %w\n%s", sp.kind, o.Err, sp.text)
		}
		for n, w := range ref.Files {
			if g, ok := o.Files[n]; !ok || g != w {
				return fmt.Errorf("%s: %s is %s, want %s\n%s", sp.kind, n, short(g), short(w), sp.text)
			}
		}
		if len(o.Files) != len(ref.Files) || o.Stdout != ref.Stdout {
			return fmt.Errorf("%s: reports %s, want %s\n%s", sp.kind, short(o.Stdout), short(ref.Stdout), sp.text)
		}
	}
	if c.Cut > 0 {
		t := j[:max(1, len(j)*c.Cut/1000)]
		if o := e.runConf(&c.Case, file(t, ".json", ".yaml", ".json5"), false); o.Err == nil {
			return fmt.Errorf("cut off JSON file is accepted:\n%s", t)
		}
		if o := e.runConf(&c.Case, t, false); o.Err == nil {
			return fmt.Errorf("cut off inline JSON is accepted:\n%s", t)
		}
	}
	return nil
}
