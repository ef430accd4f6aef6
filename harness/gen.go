package props

import (
	"fmt"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"
)

// GenOpt steers the document generator. Everything it makes is valid JSON with
// distinct keys per object (also under case folding).
type GenOpt struct {
	Keys     []string // object keys to draw from; the smaller, the more paths repeat
	MaxDepth int
	MaxKids  int
	Str      func(t *rapid.T) string // string contents
	Num      func(t *rapid.T) string // number literals
	NoNull   bool
	NoArr    bool
	NoObj    bool
	Plain    bool // no white space or escape variations
	MaxLines int
	MinLines int
}

var keysPlain = []string{"a", "b", "c", "id", "name", "fooBar"}

// keysOdd has no two keys that collide when joined with dots or folded.
var keysOdd = []string{"a", "b", "id", "user name", "дом", "日本", "x\"y", "p,q", "l\nm", "", "[z]", "0", "UPPER", "e.f", "tab\t", "é", "\u0000n", "a'b", "$ref", "@t", "-", "K\\q"}

var strSpecials = []string{
	"", "x", "NULL", "true", "0", "1.50", "\"", "\"\"", "a,b", "line\nbreak", "cr\rlf\r\n", `\.`, ` lead`, "trail ",
	"tab\tx", "\\", "\\n", "日本語", "😀", "é", "\u0000", "\u001f", "\u2028", "'", "''", "`", ";", "$1", "%s", "{", "[", "{}", "[]",
	"{\"a\":1}", "ABSENT", "-", "=1+1", "0x10", "2020-01-02", "\ufeffbom", "\u007f", "null", " ",
}

func genStr(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "strKind") {
	case 0, 1, 2, 3:
		return rapid.SampledFrom(strSpecials).Draw(t, "special")
	case 4, 5, 6, 7:
		return rapid.StringMatching(`[a-zA-Z0-9 _.:/-]{0,12}`).Draw(t, "ascii")
	case 8:
		s := rapid.StringN(0, 12, 40).Draw(t, "uni")
		return strings.ToValidUTF8(s, "?")
	default:
		n := rapid.IntRange(1, 40).Draw(t, "rep")
		u := rapid.SampledFrom([]string{"ab", "é", "\"", "日", "x\n", "0"}).Draw(t, "unit")
		if rapid.IntRange(0, 24).Draw(t, "long?") == 17 {
			// About the sizes that buffers have.
			n = rapid.SampledFrom([]int{255, 256, 257, 1024, 4095, 4096, 4097, 5000}).Draw(t, "bytes") / len(u)
		}
		return strings.Repeat(u, n)
	}
}

// genStrSane leaves out control characters that no text format of the database
// outputs can carry.
func genStrNoNUL(t *rapid.T) string { return strings.ReplaceAll(genStr(t), "\u0000", "?") }

var numSpecials = []string{
	"0", "-0", "1", "-1", "1.0", "1.5", "1e3", "1E+2", "-2.5e-3", "100000", "1234567", "123456.789",
	"9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551616",
	"0.1", "0.0", "-0.0", "0e0", "1e-7", "1e21", "3.14159265358979323846", "1e308", "2147483648", "00"[:1],
}

func genNum(t *rapid.T) string {
	if rapid.Bool().Draw(t, "numSpecial") {
		return rapid.SampledFrom(numSpecials).Draw(t, "num")
	}
	return rapid.StringMatching(`-?(0|[1-9][0-9]{0,9})(\.[0-9]{1,6})?([eE][+-]?[0-9])?`).Draw(t, "num")
}

func genInt(t *rapid.T) string { return fmt.Sprint(rapid.IntRange(-1000, 100000).Draw(t, "int")) }

func (o *GenOpt) norm() {
	if o.Keys == nil {
		o.Keys = keysPlain
	}
	if o.MaxDepth == 0 {
		o.MaxDepth = 3
	}
	if o.MaxKids == 0 {
		o.MaxKids = 4
	}
	if o.Str == nil {
		o.Str = genStr
	}
	if o.Num == nil {
		o.Num = genNum
	}
	if o.MaxLines == 0 {
		o.MaxLines = 6
	}
	if o.MinLines == 0 {
		o.MinLines = 1
	}
}

// ws draws optional white space.
func (o *GenOpt) ws(t *rapid.T) string {
	if o.Plain {
		return ""
	}
	if rapid.IntRange(0, 9).Draw(t, "ws?") > 0 {
		return ""
	}
	return rapid.SampledFrom([]string{" ", "\t", "  ", "\r"}).Draw(t, "ws")
}

// lit spells a string as a JSON literal in one of several ways.
func (o *GenOpt) lit(t *rapid.T, s string) string {
	style := 0
	if !o.Plain && len(s) < 200 {
		style = rapid.IntRange(0, 5).Draw(t, "style")
	}
	var b strings.Builder
	b.WriteByte('"')
	for i, r := range s {
		switch {
		case style == 5 || style == 4 && i%3 == 0:
			if r > 0xffff {
				hi, lo := utf16.EncodeRune(r)
				fmt.Fprintf(&b, `\u%04x\u%04X`, hi, lo)
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\b':
			b.WriteString(`\b`)
		case r == '\f':
			b.WriteString(`\f`)
		case r == '/' && style == 3:
			b.WriteString(`\/`)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04X`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Value draws a JSON value text.
func (o *GenOpt) Value(t *rapid.T, depth int) string {
	hi := 11
	if depth >= o.MaxDepth {
		hi = 7
	}
	switch k := rapid.IntRange(0, hi).Draw(t, "kind"); k {
	case 0, 1, 2:
		return o.lit(t, o.Str(t))
	case 3, 4:
		return o.Num(t)
	case 5:
		return "true"
	case 6:
		return "false"
	case 7:
		if o.NoNull {
			return "true"
		}
		return "null"
	case 8, 9:
		if o.NoArr {
			return "1"
		}
		n := rapid.IntRange(0, 3).Draw(t, "len")
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, o.ws(t)+o.Value(t, depth+1)+o.ws(t))
		}
		return "[" + strings.Join(p, ",") + "]"
	default:
		if o.NoObj {
			return "2"
		}
		return o.Object(t, depth+1)
	}
}

// Object draws a JSON object text.
func (o *GenOpt) Object(t *rapid.T, depth int) string {
	n := rapid.IntRange(0, o.MaxKids).Draw(t, "n")
	var p []string
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(o.Keys).Draw(t, "key")
		if used[strings.ToLower(k)] {
			continue
		}
		used[strings.ToLower(k)] = true
		p = append(p, o.ws(t)+o.lit(t, k)+o.ws(t)+":"+o.ws(t)+o.Value(t, depth)+o.ws(t))
	}
	return "{" + strings.Join(p, ",") + "}"
}

// Line draws one JSON object line.
func (o *GenOpt) Line(t *rapid.T) B { o.norm(); return B(o.Object(t, 1)) }

// Lines draws an input.
func (o *GenOpt) Lines(t *rapid.T) []B {
	o.norm()
	n := rapid.IntRange(o.MinLines, o.MaxLines).Draw(t, "lines")
	ls := make([]B, 0, n)
	for i := 0; i < n; i++ {
		ls = append(ls, o.Line(t))
	}
	return ls
}

func genConc(t *rapid.T) int {
	return rapid.SampledFrom([]int{1, 1, 1, 2, 3, 8, 16}).Draw(t, "concurrency")
}
