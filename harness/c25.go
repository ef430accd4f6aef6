package props

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// C25Case is an input made of numbered lines.
type C25Case struct {
	N     int   `json:"n"`               // lines
	Kinds []int `json:"kinds"`           // shapes of the lines, cyclic
	Cut   []int `json:"cut,omitempty"`   // lines per input, the last one takes the rest
	Mem   bool  `json:"mem,omitempty"`   // inputs as readers
	Elems int   `json:"elems,omitempty"` // elements of the transposed array of shape 7
	F     F     `json:"flags"`
	Cfg   Cfg   `json:"config"`
}

// line makes the i-th line (from 1) and lists the rows it has in the child
// table and the value of .n, if any.
func (c *C25Case) line(i int) (line, n string, idx []string) {
	s := strconv.Itoa(i)
	switch c.Kinds[(i-1)%len(c.Kinds)] {
	default:
		return `{"n":` + s + `}`, s, nil
	case 1:
		return `{"n":` + s + `,"t":[` + s + `,{"x":1}]}`, s, []string{"0", "1"}
	case 2:
		return `{"t":{"p":` + s + `,"q":{"x":"y"}},"n":` + s + `}`, s, []string{"p", "q"}
	case 3:
		return "no json " + s, "", nil
	case 4:
		return "", "", nil
	case 5:
		return `{"n":` + s, "", nil
	case 6:
		return `{"n":` + s + `} and more`, s, nil
	case 7:
		var b strings.Builder
		b.WriteString(`{"n":` + s + `,"t":[`)
		for k := 0; k < c.Elems; k++ {
			if k > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Itoa(k))
			idx = append(idx, strconv.Itoa(k))
		}
		b.WriteString("]}")
		return b.String(), s, idx
	case 8:
		return `{}`, "", nil
	}
}

func (c *C25Case) inputs() []In {
	var ins []In
	var b bytes.Buffer
	part, left := 0, c.N+1
	next := func() {
		left = c.N + 1
		if part < len(c.Cut) {
			left = max(1, c.Cut[part])
		}
		part++
	}
	flush := func() {
		ins = append(ins, In{Name: fmt.Sprintf("in%d.jsonl", len(ins)), Data: append([]byte(nil), b.Bytes()...), Mem: c.Mem})
		b.Reset()
	}
	next()
	for i := 1; i <= c.N; i++ {
		l, _, _ := c.line(i)
		b.WriteString(l)
		b.WriteByte('\n')
		if left--; left == 0 && i < c.N {
			flush()
			next()
		}
	}
	flush()
	return ins
}

func init() {
	register(&Prop{
		ID:  "C25",
		New: func() any { return &C25Case{} },
		Draw: func(t *rapid.T) any {
			c := &C25Case{}
			c.N = rapid.IntRange(1, rapid.SampledFrom([]int{8, 120, 1100}).Draw(t, "maxN")).Draw(t, "n")
			c.Kinds = append([]int{0}, rapid.SliceOfN(rapid.IntRange(0, 8), 0, 6).Draw(t, "kinds")...)
			c.Elems = rapid.SampledFrom([]int{1, 3, 12, 130}).Draw(t, "elems")
			if c.N > 200 {
				c.Elems = 3
			}
			c.F = F{CSV: "o.csv", AddSequence: true, Concurrency: genConc(t)}
			for _, o := range rapid.SliceOfN(rapid.IntRange(0, 2), 0, 3).Draw(t, "outs") {
				switch o {
				case 0:
					c.F.Raw, c.F.RawDelim = "o.raw", ","
				case 1:
					c.F.PGDump = "o.sql"
				case 2:
					if rapid.IntRange(0, 3).Draw(t, "sqlite") == 0 {
						c.F.SQLite = "o.sqlite"
					}
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "tr") > 0 {
				c.Cfg.Transpose = map[string]string{".t": "kids"}
			}
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 0:
				c.Cfg.IncludeKeys = []string{".n", "._sequence"}
				c.Cfg.Transpose = nil
			case 1:
				if c.N > 1 {
					for i := rapid.IntRange(1, 4).Draw(t, "parts"); i > 0; i-- {
						c.Cut = append(c.Cut, rapid.IntRange(1, c.N).Draw(t, "cut"))
					}
					c.Mem = rapid.Bool().Draw(t, "mem")
				}
			case 2:
				c.F.OffsetLines = rapid.IntRange(0, c.N-1).Draw(t, "offset")
				c.F.MaxLines = rapid.IntRange(0, c.N).Draw(t, "max")
			case 3:
				c.F.FieldLimit = 1
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			all := F{CSV: "o.csv", Raw: "o.raw", RawDelim: ",", PGDump: "o.sql", SQLite: "o.sqlite", AddSequence: true, Concurrency: 1}
			tr := Cfg{Transpose: map[string]string{".t": "kids"}}
			multi := all
			multi.Concurrency = 8
			txt := F{CSV: "o.csv", AddSequence: true, Concurrency: 6}
			text := txt
			text.Raw, text.RawDelim, text.PGDump = "o.raw", ",", "o.sql"
			cs := []*C25Case{
				{N: 1000060, Kinds: []int{0}, F: txt},
				{N: 100060, Kinds: []int{0, 1}, F: all, Cfg: tr},
				{N: 100500, Kinds: []int{0, 0, 3, 2, 4, 5}, F: multi, Cfg: tr},
				{N: 200030, Kinds: []int{0, 3, 0, 6}, Cut: []int{99990, 20, 1}, F: text},
				{N: 2, Kinds: []int{0, 7}, Elems: 100030, F: txt, Cfg: tr},
				{N: 11000, Kinds: []int{1, 0}, F: all, Cfg: tr},
				{N: 100700, Kinds: []int{0, 4}, F: F{CSV: "o.csv", AddSequence: true, Concurrency: 4, OffsetLines: 500}},
				{N: 100020, Kinds: []int{0, 8}, F: text, Cfg: Cfg{IncludeKeys: []string{".n", "._sequence"}}},
			}
			if e.Tier == "thorough" {
				cs = append(cs,
					&C25Case{N: 10000050, Kinds: []int{0}, F: txt},
					&C25Case{N: 1000050, Kinds: []int{0, 2}, F: all, Cfg: tr},
					&C25Case{N: 1, Kinds: []int{7}, Elems: 1000010, F: txt, Cfg: tr},
					&C25Case{N: 2000000, Kinds: []int{0, 4, 3}, Cut: []int{999999, 1, 1}, F: text})
			}
			for _, c := range cs {
				if !yield(c) {
					return
				}
			}
		},
		Check: checkC25,
		Classify: func(x any) ([]string, bool) {
			c := x.(*C25Case)
			var l []string
			for n, v := range map[string]bool{
				"several-inputs": len(c.Cut) > 0, "window": c.F.OffsetLines > 0, "transposed": len(c.Cfg.Transpose) > 0, "selected": len(c.Cfg.IncludeKeys) > 0,
				"multi-worker": c.F.Concurrency > 1, "sqlite": c.F.SQLite != "", "dump": c.F.PGDump != "",
			} {
				if v {
					l = append(l, n)
				}
			}
			return l, c.N > 1
		},
	})
}

func checkC25(e *Env, x any) error {
	c := x.(*C25Case)
	cs := &Case{F: c.F, Cfg: c.Cfg}
	if c.Elems > 5000 {
		cs.F.BufSize = 20 * c.Elems
	}
	if c.N > 300000 {
		// Large inputs are not a hang.
		old := hangLimit
		hangLimit = max(old, 400e9)
		defer func() { hangLimit = old }()
	}
	o := e.Run(cs, c.inputs()...)
	if o.Err != nil {
		return fmt.Errorf("processing failed: %w", o.Err)
	}
	from, to := c.F.OffsetLines+1, c.N
	if c.F.MaxLines > 0 {
		to = min(to, c.F.OffsetLines+c.F.MaxLines)
	}
	// The main table, read record by record.
	s := o.Files["o.csv"]
	eol := strings.IndexByte(s, '\n')
	if eol < 0 {
		return errors.New("no header")
	}
	head := strings.Split(s[:eol], ",")
	s = s[eol+1:]
	seqCol, nCol := -1, -1
	for i, h := range head {
		switch h {
		case "._sequence":
			seqCol = i
		case ".n":
			nCol = i
		}
	}
	if seqCol < 0 {
		return fmt.Errorf("no sequence column: %q", head)
	}
	cut := func(s string) string {
		if c.F.FieldLimit > 0 && s != "" && strings.Trim(s, "0123456789") != "" {
			return s[:1]
		}
		return s
	}
	var wantKids [][3]string // seq, index, value or ""
	for i := from; i <= to; i++ {
		eol := strings.IndexByte(s, '\n')
		if eol < 0 {
			return fmt.Errorf("rows end before line %d", i)
		}
		r := strings.Split(s[:eol], ",")
		s = s[eol+1:]
		if len(r) != len(head) {
			return fmt.Errorf("line %d: row %q", i, r)
		}
		seq := strconv.Itoa(i - from + 1)
		if r[seqCol] != seq {
			return fmt.Errorf("line %d: sequence %q, want %q", i, r[seqCol], seq)
		}
		_, n, idx := c.line(i)
		if nCol >= 0 && r[nCol] != n {
			return fmt.Errorf("line %d: row has the value %q of another line", i, r[nCol])
		}
		for _, ix := range idx {
			wantKids = append(wantKids, [3]string{seq, ix, n})
		}
	}
	if s != "" {
		return fmt.Errorf("rows after the last line: %s", short(s))
	}

	var dsts []string
	if len(c.Cfg.Transpose) > 0 {
		if _, ok := o.Files[childFile("o.csv", "kids")]; ok || len(wantKids) > 0 {
			dsts = []string{"kids"}
		}
	}
	main, kids, err := csvTables(o, "o.csv", dsts)
	if err != nil {
		return err
	}
	if len(dsts) > 0 {
		k := kids["kids"]
		if len(k.cols) < 2 || k.cols[0] != "._sequence" && k.cols[0] != "_sequence" {
			return fmt.Errorf("child table columns %q", k.cols)
		}
		if len(k.rows) != len(wantKids) {
			return fmt.Errorf("child table has %d rows, want %d", len(k.rows), len(wantKids))
		}
		for i, r := range k.rows {
			w := wantKids[i]
			if r[0].S != w[0] || r[1].S != cut(w[1]) {
				return fmt.Errorf("child row %d: sequence %q, index %q, want %q, %q", i+1, r[0].S, r[1].S, w[0], cut(w[1]))
			}
		}
	}
	return compareOthers(cs, o, nil, main, kids, to-from+1)
}
