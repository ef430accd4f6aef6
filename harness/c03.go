package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C03Case is an input with bad lines among good ones.
type C03Case struct {
	Case
	Wild []int `json:"wild"`          // positions of lines of unspecified goodness
	Rep  int   `json:"rep,omitempty"` // the lines are repeated
}

// expand writes the repetitions out: readers keep state between lines.
func (c *C03Case) expand() *C03Case {
	if c.Rep < 2 {
		return c
	}
	r := *c
	r.Rep, r.Lines, r.Wild = 0, nil, nil
	for i := 0; i < c.Rep; i++ {
		for _, w := range c.Wild {
			r.Wild = append(r.Wild, len(r.Lines)+w)
		}
		r.Lines = append(r.Lines, c.Lines...)
	}
	return &r
}

func init() {
	register(&Prop{
		ID:   "C03",
		New:  func() any { return &C03Case{} },
		Draw: drawC03,
		Enum: func(e *Env, yield func(any) bool) {
			// Very many bad lines.
			for i, base := range [][]B{
				{`{"a":`, `{"a":1}`},
				{`{"a":}`, "", `{"b":"x"}`, `{"a"`},
				{`text`, `{"b":[1,2]}`, ``},
				{`{"a":tru}`, `{"a":,}`, `{"b":1`, `{"b":{"c"}}`, `{"c":5}`},
			} {
				for _, n := range []int{13000, 26000} {
					if e.Tier == "thorough" {
						n *= 6
					}
					c := &C03Case{Case: Case{Lines: base}, Rep: n / len(base)}
					c.F = F{CSV: "o.csv", Concurrency: 1 + i*3, AddSequence: i%2 == 1, Verbosity: i % 2 * 2}
					if n%26000 == 0 {
						c.F.Verbosity = 2
					}
					if !yield(c) {
						return
					}
				}
			}
		},
		Check:    checkC03,
		Classify: classC03,
	})
}

var deepOpen = []string{`{"a":`, `[`, `{"b":[`}

func drawC03(t *rapid.T) any {
	c := &C03Case{}
	o := &GenOpt{Keys: rapid.SampledFrom([][]string{keysPlain, keysOdd}).Draw(t, "keys")}
	o.norm()
	n := rapid.IntRange(1, 8).Draw(t, "lines")
	for i := 0; i < n; i++ {
		good := string(o.Line(t))
		switch rapid.IntRange(0, 11).Draw(t, "lineKind") {
		case 0: // truncated
			if len(good) > 2 {
				cut := rapid.IntRange(1, len(good)-1).Draw(t, "cut")
				good = good[:cut]
			} else {
				good = "{"
			}
		case 1: // no JSON at all
			good = rapid.SampledFrom([]string{"", " ", "x", "INFO started", "[1,2,3]", "null", "42", `"str"`, "}", "]", "true", "\t", "a:b", "{"}).Draw(t, "nojson")
		case 2: // text before
			p := rapid.StringMatching(`[a-zA-Z0-9 :\[\]"-]{1,12}`).Draw(t, "pre")
			good = p + good
		case 3: // text after
			good += rapid.SampledFrom([]string{" trailing", "}", "{}", `{"a":5}`, "]", ",", " \x00", "{{{", `"`, "\xff\xfe"}).Draw(t, "tail")
		case 4: // structural damage that no JSON reader accepts
			good = rapid.SampledFrom([]string{`{"a":}`, `{"a"}`, `{"a":1,}`, `{,}`, `{"a":1 "b":2}`, `{"a":[1,]}`, `{"a":[}`, `{"a":tru}`, `{a:1}`, `{"a":'x'}`, `{"a":"x}`, `{"a":1]`, `{"b":{"a":7},}`, `{"x":[{"a":{"b":8}}`, `{"k":{"a":9} {"a":6}`, `{:1}`, `{"a"::1}`, `{"a":{"b":}}`}).Draw(t, "damaged")
		case 5: // odd numbers, escapes, bytes: readers differ about these
			c.Wild = append(c.Wild, i)
			num := rapid.SampledFrom([]string{"01", "1-2", "-", "+1", "1.", ".5", "1e", "1e+", "0x10", "1_000", "nan", "inf", "-inf", "NaN", "Infinity", "1e999", "-1e999", "1..2", "--1", "1e5e5", "1+1", "e", "E5", "9999999999999999999999999999999999999999999999999e-400"}).Draw(t, "oddnum")
			good = fmt.Sprintf(`{"zz":1,"a":%s,"y":{"b":[%s,2]}}`, num, num)
		case 6:
			c.Wild = append(c.Wild, i)
			esc := rapid.SampledFrom([]string{`\x`, `\ud800`, `\udc00x`, `\u12`, `\uZZZZ`, `\`, "\x00", "\x01", "\xff", "\xc3", "\xed\xa0\x80", `\ud83d\u0020`, "\t"}).Draw(t, "esc")
			if rapid.Bool().Draw(t, "inKey") {
				good = `{"k` + esc + `":"v","a":"w"}`
			} else {
				good = `{"a":"v` + esc + `w","b":2}`
			}
		case 7: // deep nesting
			c.Wild = append(c.Wild, i)
			d := rapid.SampledFrom([]int{20, 100, 290, 299, 300, 301, 320, 1000, 3000}).Draw(t, "depth")
			op := rapid.SampledFrom(deepOpen).Draw(t, "open")
			cl := map[string]string{`{"a":`: "}", `[`: "]", `{"b":[`: "]}"}[op]
			good = `{"q":` + strings.Repeat(op, d) + "1" + strings.Repeat(cl, d) + "}"
		case 8: // random mutation
			c.Wild = append(c.Wild, i)
			b := []byte(good)
			for m := rapid.IntRange(1, 4).Draw(t, "muts"); m > 0 && len(b) > 0; m-- {
				p := rapid.IntRange(0, len(b)-1).Draw(t, "at")
				switch rapid.IntRange(0, 2).Draw(t, "mut") {
				case 0:
					b[p] = rapid.SampledFrom([]byte("{}[]\",:\\0-e+.tfn \x00\xff")).Draw(t, "with")
				case 1:
					b = append(b[:p], b[p+1:]...)
				default:
					b = append(b[:p], append([]byte{rapid.SampledFrom([]byte("{}[]\",:\\0-e")).Draw(t, "ins")}, b[p:]...)...)
				}
			}
			good = strings.ReplaceAll(string(b), "\n", " ")
		}
		c.Lines = append(c.Lines, B(good))
	}
	c.F = F{CSV: "o.csv", Concurrency: genConc(t), AddSequence: rapid.Bool().Draw(t, "seq")}
	c.F.Verbosity = rapid.SampledFrom([]int{0, 0, 1, 2, 2}).Draw(t, "verbosity")
	if len(c.Wild) == 0 && rapid.IntRange(0, 1).Draw(t, "prefix") == 0 {
		c.F.MatchLinePrefix = rapid.SampledFrom([]string{`^([a-zA-Z]+)?(.)?`, `(x) `, `([0-9])`, `(.*)`}).Draw(t, "pattern")
		for i := range c.Lines {
			if rapid.IntRange(0, 2).Draw(t, "prefixed") == 0 {
				c.Lines[i] = rapid.SampledFrom([]B{"x ", "1 ", "[", "ab:"}).Draw(t, "text") + c.Lines[i]
			}
		}
	}
	if rapid.IntRange(0, 99).Draw(t, "rep?") == 57 {
		c.Rep = (rapid.SampledFrom([]int{101, 110, 202, 350}).Draw(t, "total")*min(c.F.Concurrency, 3) + n - 1) / n
	}
	return c
}

func classC03(x any) ([]string, bool) {
	c := x.(*C03Case)
	var l []string
	good, bad := 0, 0
	for _, s := range c.Lines {
		b := string(s)
		p := strings.IndexByte(b, '{')
		ok := false
		if p >= 0 {
			_, _, err := parseJSON(b[p:])
			ok = err == nil
		}
		if ok {
			good++
		} else {
			bad++
		}
	}
	if len(c.Wild) > 0 {
		l = append(l, "unspecified-lines")
	}
	if c.Rep > 1 {
		l = append(l, "repeated")
	}
	if bad > 0 {
		l = append(l, "bad-lines")
	}
	if good > 0 && bad > 0 {
		l = append(l, "good-and-bad")
	}
	return l, good > 0 && bad > 0
}

func checkC03(e *Env, x any) error {
	c := x.(*C03Case).expand()
	o := e.RunCase(&c.Case)
	if len(c.Wild) == 0 {
		if err := checkCSV(&c.Case, o); err != nil {
			return err
		}
		return checkReports(c, o)
	}
	// Lines whose goodness is a matter of reader leniency: they must have a row,
	// and must not change anything about the other lines.
	if o.Err != nil {
		return fmt.Errorf("processing failed: %w", o.Err)
	}
	rows, err := parseCSV(o.Files["o.csv"])
	if err != nil {
		return err
	}
	wild := map[int]bool{}
	for _, w := range c.Wild {
		wild[w] = true
	}
	sane := c.Case
	sane.Lines = append([]B(nil), c.Lines...)
	for i := range sane.Lines {
		if wild[i] {
			sane.Lines[i] = ""
		}
	}
	m := NewModel(&sane)
	if len(rows) == 0 || (len(rows[0]) == 1 && rows[0][0] == "") {
		if len(m.Main.Cols) != 0 {
			return fmt.Errorf("no columns in output")
		}
		return nil
	}
	if len(rows)-1 != len(c.Lines) {
		return fmt.Errorf("rows: want %d, got %d", len(c.Lines), len(rows)-1)
	}
	pos := map[string]int{}
	for i, h := range rows[0] {
		if _, dup := pos[h]; dup {
			return fmt.Errorf("column %q twice", h)
		}
		pos[h] = i
	}
	known := map[int]bool{}
	for j, col := range m.Main.Cols {
		p, ok := pos[col.Name]
		if !ok {
			// A path that is a structure in a wild line may absorb a column of nulls.
			null := true
			for i := range m.Main.Rows {
				cell := m.Main.Rows[i][j]
				null = null && (cell.Null || cell.Absent)
			}
			if null {
				continue
			}
			return fmt.Errorf("column %q of the good lines is missing in %q", col.Name, rows[0])
		}
		known[p] = true
		for i, w := range m.Main.Rows {
			if wild[i] {
				continue
			}
			if !compareCell(w[j], rows[i+1][p]) {
				return fmt.Errorf("row %d, column %q: want %q, got %q", i+1, col.Name, w[j].text(), rows[i+1][p])
			}
		}
	}
	for i := range c.Lines {
		if len(rows[i+1]) != len(rows[0]) {
			return fmt.Errorf("row %d has %d fields", i+1, len(rows[i+1]))
		}
		for p := range rows[0] {
			if !known[p] && !wild[i] && rows[i+1][p] != "" {
				return fmt.Errorf("row %d has a value %q under %q which is not in that line", i+1, rows[i+1][p], rows[0][p])
			}
		}
	}
	return nil
}

// checkReports compares the reported errors with the bad lines: at verbosity 2
// each of them is reported by both passes, and no other line ever is.
func checkReports(c *C03Case, o *Out) error {
	bad, got := 0, 0
	for _, l := range c.Lines {
		p := strings.IndexByte(string(l), '{')
		if p >= 0 {
			if _, _, err := parseJSON(string(l[p:])); err == nil {
				continue
			}
		} else if c.F.MatchLinePrefix != "" {
			continue // All of the line is prefix.
		}
		bad++
	}
	for _, l := range o.Logs {
		if strings.HasPrefix(l, "error: ") {
			got++
		}
	}
	want := 0
	if c.F.Verbosity >= 2 {
		want = 2 * bad
	}
	if got != want {
		return fmt.Errorf("%d bad lines, verbosity %d: want %d errors reported, got %d", bad, c.F.Verbosity, want, got)
	}
	return nil
}
