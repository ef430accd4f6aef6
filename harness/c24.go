package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C24File is a CSV table and how to write it.
type C24File struct {
	Cols   []B    `json:"cols"`
	Rows   [][]B  `json:"rows"`
	Quote  []bool `json:"quote"` // quote this field though not needed, cyclic
	CRLF   bool   `json:"crlf,omitempty"`
	NoNL   bool   `json:"noNL,omitempty"`
	Blank  int    `json:"blank,omitempty"`  // blank line after every n-th record, blank lines are not rows
	Damage string `json:"damage,omitempty"` // "quote", "bare-quote", "after-quote", "ragged", "short", "missing", "dir"
	At     int    `json:"at,omitempty"`     // damaged row, from the end
}

// C24Case is two files to compare.
type C24Case struct {
	A   C24File `json:"a"`
	B   C24File `json:"b"`
	N   int     `json:"repeat,omitempty"` // rows are repeated n times
	One bool    `json:"one,omitempty"`    // only one file is given
}

func (f *C24File) write(n int) string {
	var b strings.Builder
	qi := 0
	rec := 0
	nl := "\n"
	if f.CRLF {
		nl = "\r\n"
	}
	record := func(r []B) {
		for i, v := range r {
			if i > 0 {
				b.WriteByte(',')
			}
			q := len(f.Quote) > 0 && f.Quote[qi%len(f.Quote)]
			qi++
			if q || strings.ContainsAny(string(v), "\",\n\r") || v == "" && len(r) == 1 {
				b.WriteString(`"` + strings.ReplaceAll(string(v), `"`, `""`) + `"`)
			} else {
				b.WriteString(string(v))
			}
		}
		b.WriteString(nl)
		rec++
		if f.Blank > 0 && rec%f.Blank == 0 {
			b.WriteString(nl)
		}
	}
	if len(f.Cols) == 0 {
		return ""
	}
	record(f.Cols)
	for i := 0; i < n; i++ {
		for k, r := range f.Rows {
			if i == n-1 && k == len(f.Rows)-1-f.At%len(f.Rows) {
				switch f.Damage {
				case "ragged":
					r = append(append([]B(nil), r...), "more")
				case "short":
					r = r[:len(r)-1]
				}
			}
			record(r)
		}
	}
	s := b.String()
	more := strings.Repeat(",", max(0, len(f.Cols)-1))
	switch f.Damage {
	case "quote":
		return s + `"open` + nl
	case "bare-quote":
		return s + `a"b` + more + nl
	case "after-quote":
		return s + `"a"b` + more + nl
	}
	if f.NoNL {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

// equalTables is the specification.
func equalTables(a, b *C24File) bool {
	if len(a.Cols) != len(b.Cols) || len(a.Rows) != len(b.Rows) {
		return false
	}
	// Columns with one name are told apart by their order.
	at := map[B][]int{}
	for i, c := range b.Cols {
		at[c] = append(at[c], i)
	}
	to := make([]int, len(a.Cols))
	for j, c := range a.Cols {
		if len(at[c]) == 0 {
			return false
		}
		to[j], at[c] = at[c][0], at[c][1:]
	}
	for i, r := range a.Rows {
		for j, v := range r {
			if b.Rows[i][to[j]] != v {
				return false
			}
		}
	}
	return true
}

// ambiguous tables are equal up to the order of columns with one name.
func ambiguous(a, b *C24File) bool {
	columns := func(f *C24File) string {
		var l []string
		for j, c := range f.Cols {
			col := []B{c}
			for _, r := range f.Rows {
				col = append(col, r[j])
			}
			l = append(l, js(col))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	return len(a.Rows) == len(b.Rows) && !equalTables(a, b) && columns(a) == columns(b)
}

var c24Cells = []B{"", "a", "A", " a", "a ", "1", "1.0", "0", "null", "x,y", `"`, `""`, "nl\nx", "\n", "日本", "é", "e\u0301", "\xff", "\r", "long text that is a bit longer than the others", "-", "#", "#a", "//", ";", "\t", "a;b", "\\", `\"`, "\x00"}

func init() {
	register(&Prop{
		ID:  "C24",
		New: func() any { return &C24Case{} },
		Draw: func(t *rapid.T) any {
			c := &C24Case{N: 1}
			cell := rapid.SampledFrom(c24Cells)
			n := rapid.IntRange(1, 5).Draw(t, "cols")
			c.A.Cols = rapid.SliceOfNDistinct(rapid.SampledFrom([]B{"a", "b", "A", " a", "", "c,d", `"q"`, "#", "# a", "x\ny", "é", "e\u0301", "1", ".k.[0]", "\t"}), n, n, rapid.ID[B]).Draw(t, "names")
			few := rapid.Bool().Draw(t, "few values")
			for i := rapid.IntRange(0, 6).Draw(t, "rows"); i > 0; i-- {
				var r []B
				for range c.A.Cols {
					v := cell.Draw(t, "cell")
					if few {
						v = rapid.SampledFrom([]B{"", "x", "y"}).Draw(t, "cell")
					}
					r = append(r, v)
				}
				c.A.Rows = append(c.A.Rows, r)
			}
			// The other file: columns in another order.
			perm := rapid.Permutation(seqInts(n)).Draw(t, "perm")
			if n > 1 && rapid.IntRange(0, 5).Draw(t, "repeated") == 0 {
				i := rapid.IntRange(0, n-2).Draw(t, "from")
				j := rapid.IntRange(i+1, n-1).Draw(t, "to")
				c.A.Cols[j] = c.A.Cols[i]
				// These keep their order.
				pi, pj := 0, 0
				for k, p := range perm {
					if p == i {
						pi = k
					}
					if p == j {
						pj = k
					}
				}
				if pi > pj {
					perm[pi], perm[pj] = perm[pj], perm[pi]
				}
			}
			for _, p := range perm {
				c.B.Cols = append(c.B.Cols, c.A.Cols[p])
			}
			for _, r := range c.A.Rows {
				var x []B
				for _, p := range perm {
					x = append(x, r[p])
				}
				c.B.Rows = append(c.B.Rows, x)
			}
			row := func() int { return rapid.IntRange(0, len(c.B.Rows)-1).Draw(t, "row") }
			col := func() int { return rapid.IntRange(0, n-1).Draw(t, "col") }
			if len(c.B.Rows) > 0 {
				switch rapid.IntRange(0, 9).Draw(t, "change") {
				case 0:
					c.B.Rows[row()][col()] = cell.Draw(t, "new")
				case 1:
					r := c.B.Rows[row()]
					i, j := col(), col()
					r[i], r[j] = r[j], r[i]
				case 2:
					i, j := row(), row()
					c.B.Rows[i], c.B.Rows[j] = c.B.Rows[j], c.B.Rows[i]
				case 3:
					i := row()
					c.B.Rows = append(c.B.Rows[:i:i], c.B.Rows[i+1:]...)
				case 4:
					c.B.Rows = append(c.B.Rows, c.B.Rows[row()])
				case 5:
					i, j, k := row(), row(), col()
					c.B.Rows[i][k], c.B.Rows[j][k] = c.B.Rows[j][k], c.B.Rows[i][k]
				}
			}
			switch rapid.IntRange(0, 14).Draw(t, "header") {
			case 0:
				c.B.Cols[col()] += "x"
			case 1:
				i, j := col(), col()
				c.B.Cols[i], c.B.Cols[j] = c.B.Cols[j], c.B.Cols[i]
			case 2:
				c.B.Cols = append(c.B.Cols, "extra")
				v := rapid.SampledFrom([]B{"", "x"}).Draw(t, "extra")
				for i := range c.B.Rows {
					c.B.Rows[i] = append(c.B.Rows[i], v)
				}
			case 3:
				if n > 1 {
					c.B.Cols = c.B.Cols[:n-1]
					for i := range c.B.Rows {
						c.B.Rows[i] = c.B.Rows[i][:n-1]
					}
				}
			case 4:
				if rapid.IntRange(0, 3).Draw(t, "empty") == 0 {
					c.B.Cols, c.B.Rows = nil, nil
					if rapid.Bool().Draw(t, "both") {
						c.A.Cols, c.A.Rows = nil, nil
					}
				}
			}
			for _, f := range []*C24File{&c.A, &c.B} {
				f.Quote = rapid.SliceOfN(rapid.Bool(), 0, 5).Draw(t, "quote")
				f.CRLF = rapid.IntRange(0, 3).Draw(t, "crlf") == 0
				if f.CRLF {
					// A carriage return before a line end would be taken for its part.
					for _, r := range f.Rows {
						for j, v := range r {
							if v == "\r" {
								r[j] = "cr"
							}
						}
					}
				}
				f.NoNL = rapid.IntRange(0, 3).Draw(t, "noNL") == 0
				if rapid.IntRange(0, 4).Draw(t, "blank") == 0 {
					f.Blank = rapid.IntRange(1, 3).Draw(t, "every")
				}
				if rapid.IntRange(0, 14).Draw(t, "damage") == 0 {
					f.Damage = rapid.SampledFrom([]string{"quote", "bare-quote", "after-quote", "ragged", "short", "short", "missing", "dir"}).Draw(t, "kind")
					if len(f.Rows) == 0 || len(f.Cols) < 2 {
						f.Damage = "missing"
					} else {
						f.At = rapid.IntRange(0, len(f.Rows)-1).Draw(t, "at")
					}
				}
			}
			// Unreadable files are not equal to their copies.
			if c.B.Damage != "" && rapid.Bool().Draw(t, "copy") {
				c.A = c.B
			}
			if rapid.IntRange(0, 10).Draw(t, "long") == 0 {
				c.N = rapid.IntRange(100, 2000).Draw(t, "n")
			}
			c.One = rapid.IntRange(0, 40).Draw(t, "one") == 0
			if rapid.Bool().Draw(t, "swap") {
				c.A, c.B = c.B, c.A
			}
			return c
		},
		Check: checkC24,
		Classify: func(x any) ([]string, bool) {
			c := x.(*C24Case)
			var l []string
			switch {
			case c.A.Damage != "" || c.B.Damage != "":
				l = append(l, "unreadable")
			case equalTables(&c.A, &c.B):
				l = append(l, "equal")
			default:
				l = append(l, "different")
			}
			seen := map[B]bool{}
			for _, n := range c.A.Cols {
				if seen[n] {
					l = append(l, "repeated-name")
				}
				seen[n] = true
			}
			if js(c.A.Cols) != js(c.B.Cols) {
				l = append(l, "other-order")
			}
			return l, len(c.A.Rows) > 0 && len(c.A.Cols) > 1
		},
	})
}

func seqInts(n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return r
}

func checkC24(e *Env, x any) error {
	c := x.(*C24Case)
	dir := e.Dir()
	defer os.RemoveAll(dir)
	for n, f := range map[string]*C24File{"a.csv": &c.A, "b.csv": &c.B} {
		fn := filepath.Join(dir, n)
		var err error
		switch f.Damage {
		case "missing":
		case "dir":
			err = os.Mkdir(fn, 0o755)
		default:
			err = os.WriteFile(fn, []byte(f.write(max(1, c.N))), 0o644)
		}
		if err != nil {
			die("%v", err)
		}
	}
	args := []string{"a.csv", "b.csv"}
	if c.One {
		args = args[:1]
	}
	if c.A.Damage == "" && c.B.Damage == "" && ambiguous(&c.A, &c.B) {
		return nil
	}
	r := e.runCmd(e.CSVEq, dir, -1, "", args...)
	want := !c.One && c.A.Damage == "" && c.B.Damage == "" && equalTables(&c.A, &c.B)
	if got := r.Code == 0; got != want {
		return fmt.Errorf("csvequals: %v, want equal: %v\n%s\n---\n%s", r, want, short(c.A.write(1)), short(c.B.write(1)))
	}
	return nil
}
