package props

import (
	"database/sql"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// tab is a table as read back from an output. Cells of a row do not include
// the row id column of SQL tables, which is kept in seq.
type tab struct {
	name  string
	cols  []string
	types []string
	seq   []string
	rows  [][]Cell
}

// csvTab reads a table of the CSV output.
func csvTab(name, s string) (*tab, error) {
	rows, err := parseCSV(s)
	if err != nil {
		return nil, fmt.Errorf("%s: %w", name, err)
	}
	t := &tab{name: name}
	if len(rows) == 0 {
		return t, nil
	}
	t.cols = rows[0]
	if len(t.cols) == 1 && t.cols[0] == "" {
		t.cols = nil // a table without columns has an empty header
		for _, r := range rows[1:] {
			if len(r) > 1 || r[0] != "" {
				return nil, fmt.Errorf("%s: row %q, but no columns", name, r)
			}
		}
		return t, nil
	}
	for i, r := range rows[1:] {
		if len(r) != len(t.cols) {
			return nil, fmt.Errorf("%s: row %d has %d fields, header has %d", name, i+1, len(r), len(t.cols))
		}
		cs := make([]Cell, len(r))
		for j, v := range r {
			cs[j] = Cell{S: v}
		}
		t.rows = append(t.rows, cs)
	}
	return t, nil
}

// childFile is the name of the file of a transposed table.
func childFile(base, dst string) string {
	ext := filepath.Ext(base)
	return strings.TrimSuffix(base, ext) + "_" + dst + ext
}

func quoteID(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

// sqliteTables reads all tables of a database.
func sqliteTables(data []byte, dir string) (map[string]*tab, error) {
	fn := filepath.Join(dir, "readback.sqlite")
	if err := os.WriteFile(fn, data, 0o644); err != nil {
		die("%v", err)
	}
	defer os.Remove(fn)
	db, err := sql.Open("sqlite", fn)
	if err != nil {
		return nil, err
	}
	defer db.Close()
	var ic string
	if err := db.QueryRow("pragma integrity_check").Scan(&ic); err != nil || ic != "ok" {
		return nil, fmt.Errorf("integrity check: %v %s", err, ic)
	}
	var names []string
	rs, err := db.Query("select name from sqlite_master where type='table' order by rowid")
	if err != nil {
		return nil, err
	}
	for rs.Next() {
		var n string
		if err := rs.Scan(&n); err != nil {
			return nil, err
		}
		names = append(names, n)
	}
	rs.Close()
	res := map[string]*tab{}
	for _, n := range names {
		t := &tab{name: n}
		rs, err := db.Query("pragma table_info(" + quoteID(n) + ")")
		if err != nil {
			return nil, err
		}
		for rs.Next() {
			var cid, notnull, pk int
			var name, tp string
			var dflt any
			if err := rs.Scan(&cid, &name, &tp, &notnull, &dflt, &pk); err != nil {
				return nil, err
			}
			t.cols = append(t.cols, name)
			t.types = append(t.types, strings.ToUpper(tp))
		}
		rs.Close()
		if len(t.cols) == 0 || t.cols[0] != "_seq_id" {
			return nil, fmt.Errorf("table %q has no leading _seq_id: %q", n, t.cols)
		}
		rs, err = db.Query("select * from " + quoteID(n) + " order by rowid")
		if err != nil {
			return nil, err
		}
		for rs.Next() {
			vals := make([]any, len(t.cols))
			ptrs := make([]any, len(t.cols))
			for i := range vals {
				ptrs[i] = &vals[i]
			}
			if err := rs.Scan(ptrs...); err != nil {
				return nil, err
			}
			cs := make([]Cell, len(vals))
			for i, v := range vals {
				switch v := v.(type) {
				case nil:
					cs[i] = Cell{Null: true}
				case int64:
					cs[i] = Cell{S: "i" + strconv.FormatInt(v, 10)}
				case float64:
					cs[i] = Cell{S: "f" + strconv.FormatFloat(v, 'g', -1, 64)}
				case string:
					cs[i] = Cell{S: "s" + v}
				case []byte:
					cs[i] = Cell{S: "b" + string(v)}
				default:
					return nil, fmt.Errorf("table %q: unexpected storage %T", n, v)
				}
			}
			t.seq = append(t.seq, strings.TrimPrefix(cs[0].S, "i"))
			t.rows = append(t.rows, cs[1:])
		}
		if err := rs.Err(); err != nil {
			return nil, err
		}
		rs.Close()
		t.cols, t.types = t.cols[1:], t.types[1:]
		res[n] = t
	}
	return res, nil
}

// sqliteCell compares a stored value with the text it was made from.
func sqliteCell(tp string, got Cell, want string) bool {
	if got.Null {
		return want == ""
	}
	k, s := got.S[0], got.S[1:]
	switch k {
	case 's':
		if tp == "INTEGER" || tp == "REAL" {
			// Text in a numeric column is text that is not a number.
			if _, err := strconv.ParseFloat(want, 64); err == nil {
				return false
			}
		}
		return s == want
	case 'i':
		if s == want {
			return tp == "INTEGER" || tp == "REAL"
		}
		fallthrough
	case 'f':
		if tp != "INTEGER" && tp != "REAL" {
			return false
		}
		a, err1 := strconv.ParseFloat(s, 64)
		b, err2 := strconv.ParseFloat(want, 64)
		return err1 == nil && err2 == nil && (a == b || math.Abs(a-b) <= 1e-14*math.Max(math.Abs(a), math.Abs(b)))
	}
	return false
}

const partSuffix = "_part"

// joinParts puts the part tables of a table together again.
func joinParts(ts map[string]*tab, name string, maxCols int) (*tab, error) {
	t := ts[name]
	if t == nil {
		return nil, fmt.Errorf("no table %q", name)
	}
	delete(ts, name)
	r := &tab{name: name, cols: append([]string(nil), t.cols...), types: append([]string(nil), t.types...), seq: t.seq}
	for _, row := range t.rows {
		r.rows = append(r.rows, append([]Cell(nil), row...))
	}
	for n := 2; ; n++ {
		if len(t.cols)+1 > maxCols {
			return nil, fmt.Errorf("table %q has %d columns, at most %d allowed", t.name, len(t.cols)+1, maxCols)
		}
		pn := name + partSuffix + strconv.Itoa(n)
		t = ts[pn]
		if t == nil {
			return r, nil
		}
		delete(ts, pn)
		if js(t.seq) != js(r.seq) {
			return nil, fmt.Errorf("row ids of %q do not match those of %q", pn, name)
		}
		r.cols = append(r.cols, t.cols...)
		r.types = append(r.types, t.types...)
		for i := range r.rows {
			r.rows[i] = append(r.rows[i], t.rows[i]...)
		}
	}
}

// pgTables parses a dump.
func pgTables(s string) (map[string]*tab, error) {
	ts := map[string]*tab{}
	primary := map[string]bool{}
	status := 0
	for {
		s = strings.TrimLeft(s, "\n")
		switch {
		case s == "":
			if status == 0 {
				return nil, errors.New("dump ends without a status line")
			}
			for _, t := range ts {
				t.cols, t.types = t.cols[1:], t.types[1:]
			}
			return ts, nil
		case strings.HasPrefix(s, "CREATE TABLE "):
			var name string
			var err error
			if name, s, err = pgIdent(strings.TrimPrefix(s, "CREATE TABLE ")); err != nil {
				return nil, err
			}
			if ts[name] != nil {
				return nil, fmt.Errorf("table %q is created twice", name)
			}
			s = strings.TrimLeft(s, " \n\t")
			if !strings.HasPrefix(s, "(") {
				return nil, fmt.Errorf("table %q: ( expected", name)
			}
			s = s[1:]
			t := &tab{name: name}
			for {
				s = strings.TrimLeft(s, " \n\t")
				var col string
				if col, s, err = pgIdent(s); err != nil {
					return nil, fmt.Errorf("table %q: %w", name, err)
				}
				end := strings.IndexAny(s, ",)")
				if end < 0 {
					return nil, fmt.Errorf("table %q: unterminated", name)
				}
				tp := strings.TrimSpace(s[:end])
				for _, c := range t.cols {
					if c == col {
						return nil, fmt.Errorf("table %q: column %q twice", name, col)
					}
				}
				t.cols = append(t.cols, col)
				t.types = append(t.types, tp)
				c := s[end]
				s = s[end+1:]
				if c == ')' {
					break
				}
			}
			if !strings.HasPrefix(s, ";") {
				return nil, fmt.Errorf("table %q: ; expected", name)
			}
			s = s[1:]
			if t.cols[0] != "_seq_id" || t.types[0] != "INT8" && t.types[0] != "INT8 primary key" {
				return nil, fmt.Errorf("table %q: no leading _seq_id", name)
			}
			for i, tp := range t.types[1:] {
				switch tp {
				case "INT8", "BOOL", "FLOAT8", "VARCHAR", "TIMESTAMP":
				default:
					return nil, fmt.Errorf("table %q, column %q: type %q", name, t.cols[i+1], tp)
				}
			}
			ts[name] = t
		case strings.HasPrefix(s, "COPY "):
			name, r, err := pgIdent(strings.TrimPrefix(s, "COPY "))
			if err != nil {
				return nil, err
			}
			t := ts[name]
			if t == nil {
				return nil, fmt.Errorf("COPY into %q, which was not created", name)
			}
			s = strings.TrimLeft(r, " ")
			if !strings.HasPrefix(s, "(") {
				return nil, fmt.Errorf("COPY %q: column list expected", name)
			}
			s = s[1:]
			var at []int
			used := map[int]bool{}
			for {
				var col string
				if col, s, err = pgIdent(strings.TrimLeft(s, " ")); err != nil {
					return nil, fmt.Errorf("COPY %q: %w", name, err)
				}
				pos := -1
				for i, c := range t.cols {
					if c == col {
						pos = i
					}
				}
				if pos < 0 || used[pos] {
					return nil, fmt.Errorf("COPY %q: column %q unknown or repeated, table has %q", name, col, t.cols)
				}
				used[pos] = true
				at = append(at, pos)
				if strings.HasPrefix(s, ",") {
					s = s[1:]
					continue
				}
				const end = ") FROM stdin WITH (FORMAT csv);\n"
				if !strings.HasPrefix(s, end) {
					return nil, fmt.Errorf("COPY %q: unexpected %.40q", name, s)
				}
				s = s[len(end):]
				break
			}
			// Data up to a line with just \. outside of quotes.
			end, inq, bol := -1, false, true
			for i := 0; i < len(s); i++ {
				if bol && !inq && strings.HasPrefix(s[i:], "\\.\n") {
					end = i
					break
				}
				if s[i] == '"' {
					inq = !inq
				}
				bol = s[i] == '\n'
			}
			if end < 0 {
				return nil, fmt.Errorf("COPY %q: data is not terminated", name)
			}
			rows, quoted, err := parseCSVQ(s[:end])
			if err != nil {
				return nil, fmt.Errorf("COPY %q: %w", name, err)
			}
			s = s[end+3:]
			for ri, row := range rows {
				if len(row) != len(at) {
					return nil, fmt.Errorf("COPY %q: row of %d fields for %d columns: %q", name, len(row), len(at), row)
				}
				cs := make([]Cell, len(t.cols))
				for i := range cs {
					cs[i] = Cell{Null: true}
				}
				for i, v := range row {
					if v == "" && !quoted[ri][i] {
						continue
					}
					if err := pgAccepts(t.types[at[i]], v); err != nil {
						return nil, fmt.Errorf("table %q, column %q: %w", name, t.cols[at[i]], err)
					}
					cs[at[i]] = Cell{S: v}
				}
				if strings.HasSuffix(t.types[0], " primary key") {
					if k := name + "\x00" + cs[0].S; cs[0].Null || primary[k] {
						return nil, fmt.Errorf("table %q: primary key %q is empty or not unique, the dump can not be loaded", name, cs[0].S)
					} else {
						primary[k] = true
					}
				}
				t.seq = append(t.seq, cs[0].S)
				t.rows = append(t.rows, cs[1:])
			}
		case strings.HasPrefix(s, "SELECT '"):
			end := strings.Index(s, ";\n")
			if end < 0 || strings.Count(s[:end], "'") != 2 || !strings.HasSuffix(s[:end], "' AS status") {
				return nil, fmt.Errorf("unexpected statement %.60q", s)
			}
			status++
			s = s[end+2:]
		default:
			return nil, fmt.Errorf("unexpected statement %.60q", s)
		}
	}
}

func pgIdent(s string) (string, string, error) {
	if !strings.HasPrefix(s, `"`) {
		return "", "", fmt.Errorf("quoted name expected at %.40q", s)
	}
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		if s[i] != '"' {
			b.WriteByte(s[i])
			continue
		}
		if i+1 < len(s) && s[i+1] == '"' {
			b.WriteByte('"')
			i++
			continue
		}
		if b.Len() == 0 {
			return "", "", errors.New("empty name")
		}
		return b.String(), s[i+1:], nil
	}
	return "", "", errors.New("unterminated name")
}

func pgAccepts(tp, v string) error {
	bad := fmt.Errorf("value %q does not fit type %s", v, tp)
	switch strings.TrimSuffix(tp, " primary key") {
	case "INT8":
		if _, err := strconv.ParseInt(v, 10, 64); err != nil {
			return bad
		}
	case "FLOAT8":
		// A number that is too large, or too small and not a zero, is refused.
		if f, err := strconv.ParseFloat(v, 64); err != nil || f == 0 && !zeroNumber(v) {
			return bad
		}
	case "BOOL":
		if v != "true" && v != "false" {
			return bad
		}
	case "TIMESTAMP":
		for _, f := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999", "2006-01-02"} {
			if _, err := time.Parse(f, v); err == nil {
				return nil
			}
		}
		return bad
	}
	return nil
}

// sameData compares a table read from a SQL output with the CSV table.
// nulls, if known, tells for each cell if it has to be NULL.
func sameData(kind string, want, got *tab, nulls [][]Cell, exactInts bool, seq func(i int) string) error {
	if js(want.cols) != js(got.cols) {
		return fmt.Errorf("%s table %q: columns %q, CSV has %q", kind, got.name, got.cols, want.cols)
	}
	if len(want.cols) > 0 && len(want.rows) != len(got.rows) {
		return fmt.Errorf("%s table %q: %d rows, CSV has %d", kind, got.name, len(got.rows), len(want.rows))
	}
	for i := range got.rows {
		if w := seq(i); got.seq[i] != w {
			return fmt.Errorf("%s table %q, row %d: _seq_id %q, want %q", kind, got.name, i+1, got.seq[i], w)
		}
	}
	// Columns of nothing but integers keep all digits.
	ints := make([]bool, len(want.cols))
	for j := range ints {
		ints[j] = exactInts
		for _, r := range want.rows {
			if _, err := strconv.ParseInt(r[j].S, 10, 64); err != nil && r[j].S != "" {
				ints[j] = false
			}
		}
	}
	for i, r := range want.rows {
		for j, w := range r {
			g := got.rows[i][j]
			ok := false
			if kind == "SQLite" {
				ok = sqliteCell(got.types[j], g, w.S)
				if ok && ints[j] && !g.Null && g.S[0] == 'f' {
					n, err := strconv.ParseInt(w.S, 10, 64)
					f, _ := strconv.ParseFloat(g.S[1:], 64)
					x, _ := new(big.Float).SetFloat64(f).Int(nil)
					ok = err == nil && x.IsInt64() && x.Int64() == n
				}
				if nulls != nil && ok {
					n := nulls[i][j]
					ok = g.Null == (n.Null || n.Absent)
				}
			} else {
				ok = g.text() == w.S
			}
			if !ok {
				return fmt.Errorf("%s table %q, row %d, column %q (%s): got %s, CSV has %q", kind, got.name, i+1, want.cols[j], got.types[j], cellText(g), w.S)
			}
		}
	}
	return nil
}

func cellText(c Cell) string {
	if c.Null {
		return "NULL"
	}
	return strconv.Quote(c.S)
}

// csvTables reads the main table and the given child tables of the CSV output.
func csvTables(o *Out, base string, dsts []string) (main *tab, kids map[string]*tab, err error) {
	s, ok := o.Files[base]
	if !ok {
		return nil, nil, fmt.Errorf("no output file %s", base)
	}
	if main, err = csvTab(base, s); err != nil {
		return nil, nil, err
	}
	kids = map[string]*tab{}
	for _, d := range dsts {
		fn := childFile(base, d)
		s, ok := o.Files[fn]
		if !ok {
			return nil, nil, fmt.Errorf("no output file %s", fn)
		}
		if kids[d], err = csvTab(fn, s); err != nil {
			return nil, nil, err
		}
	}
	return main, kids, nil
}

// compareSQL checks a SQL output (as tables by name) against the CSV output of
// the same run. lines is the number of processed lines.
func compareSQL(kind string, ts map[string]*tab, base string, maxCols, lines int, main *tab, kids map[string]*tab, nulls [][]Cell, exactInts bool) error {
	got, err := joinParts(ts, base, maxCols)
	if err != nil {
		return err
	}
	if len(got.rows) != lines {
		return fmt.Errorf("%s: %d rows for %d lines", kind, len(got.rows), lines)
	}
	if err := sameData(kind, main, got, nulls, exactInts, func(i int) string { return strconv.Itoa(i + 1) }); err != nil {
		return err
	}
	var ds []string
	for d := range kids {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		k := kids[d]
		got, err := joinParts(ts, base+"_"+d, maxCols)
		if err != nil {
			return err
		}
		if err := sameData(kind, k, got, nil, exactInts, func(i int) string {
			if i < len(k.rows) {
				return k.rows[i][0].S // the sequence column
			}
			return "?"
		}); err != nil {
			return err
		}
	}
	for n := range ts {
		return fmt.Errorf("%s: unexpected table %q", kind, n)
	}
	return nil
}

// compareRaw checks a RAW output against the CSV table of the same run.
func compareRaw(name, raw, delim string, t *tab) error {
	var b strings.Builder
	for _, r := range t.rows {
		for j, c := range r {
			if j > 0 {
				b.WriteString(delim)
			}
			b.WriteString(c.S)
		}
		b.WriteByte('\n')
	}
	if b.String() != raw {
		w := b.String()
		i := 0
		for i < len(w) && i < len(raw) && w[i] == raw[i] {
			i++
		}
		return fmt.Errorf("%s: differs from the joined CSV rows at byte %d: want %.80q, got %.80q", name, i, w[i:], raw[i:])
	}
	return nil
}
