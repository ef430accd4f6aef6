package props

import (
	"errors"
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// The reference model: a direct, sequential reading of what the tool is
// documented to do. It works on whole paths, keeps everything in memory and
// shares no code with the implementation.

type mev struct {
	path []string
	k    jkind // jArr/jObj: structure seen at this path; 'j': kept as JSON
	s    string
	doc  *jval
}

const jKeep jkind = 'j'

// Cell is one expected cell.
type Cell struct {
	Absent bool // key not in the line
	Null   bool // JSON null
	S      string
	Doc    *jval // the cell is a JSON document equal to this
}

func (c Cell) text() string {
	if c.Absent || c.Null {
		return ""
	}
	return c.S
}

// MCol is one expected column.
type MCol struct {
	Name string // header
	Key  string // original key
	Type string
}

// MTable is an expected table.
type MTable struct {
	Cols []MCol
	Rows [][]Cell
}

// MRow is an expected row of a child table.
type MRow struct {
	Seq   int
	Index string
	Cells map[string]Cell // by trimmed column name
}

// MChild is an expected child table.
type MChild struct {
	Cols []MCol // without sequence and index, by trimmed key

	types map[string]map[jkind]bool
	Rows  []MRow // by line, order inside a line not significant
}

type mkey struct {
	canon  string
	name   string // first spelling that has values
	order  int
	types  map[jkind]bool // 'i','f','b','s','z','j' + structural
	zero   bool
	scal   bool
	path   []string
	spells []*mspell
}

// mspell is one spelling of a key (there is more than one only if keys are
// not case-sensitive).
type mspell struct {
	name  string
	path  []string
	order int
	scal  bool // has a scalar other than null
	null  bool
	strct bool // is an object or array somewhere
}

// column tells if the spelling makes a column: a null alone does not if the
// path is a structure elsewhere.
func (s *mspell) column() bool { return s.scal || s.null && !s.strct }

// Model is the expected outcome of a case.
type Model struct {
	c                       *Case
	keys                    map[string]*mkey // by canonical
	list                    []*mkey          // scalar keys in order of first appearance
	keep                    map[string]bool
	lines                   [][]mev // events of the processed lines
	Seq                     []int
	nspell                  int
	mergedCols, mergedCells int
	selected                map[string]bool // keys that are in some output column
	limited                 map[string]bool // kept because of the children limit
	transposed              []mcolumn       // keys that are in child tables

	Main     MTable
	Children map[string]*MChild
}

func flat(path []string) string { return "." + strings.Join(path, ".") }

func (m *Model) ck(s string) string {
	if m.c.F.CaseSensitiveKeys {
		return s
	}
	return strings.ToLower(s)
}

// star translates the documented simplified pattern syntax.
func starPattern(p string) string {
	if strings.HasPrefix(p, ".") && !strings.HasSuffix(p, "$") {
		q := regexp.QuoteMeta(p)
		q = strings.ReplaceAll(q, `\*`, `([^.]+)`)
		return "^" + q + "$"
	}
	return p
}

func mustRe(p string) *regexp.Regexp { return regexp.MustCompile(starPattern(p)) }

// events reads one line.
func (m *Model) events(seq int, line string) []mev {
	var evs []mev
	if m.c.F.AddSequence {
		evs = append(evs, mev{path: []string{"_sequence"}, k: jNum, s: strconv.Itoa(seq)})
	}
	pat := m.c.F.MatchLinePrefix
	if pat == "" {
		pat = m.c.Cfg.MatchLinePrefix
	}
	body := line
	if len(line) < 2 || line[0] != '{' {
		pos := strings.IndexByte(line, '{')
		if pos < 0 && pat == "" {
			return evs
		}
		pref := line
		if pos > 0 {
			pref = line[:pos]
		}
		if pat != "" && pos != 0 { // Nothing is before the brace of a line that starts with it.
			for _, sm := range regexp.MustCompile(pat).FindAllStringSubmatch(pref, -1) {
				for j := 1; j < len(sm); j++ {
					evs = append(evs, mev{path: []string{"_prefix", "[" + strconv.Itoa(j-1) + "]"}, k: jStr, s: sm[j]})
				}
			}
		}
		if pos < 0 {
			return evs
		}
		body = line[pos:]
	}
	v, _, err := parseJSON(body)
	if err != nil {
		return evs
	}
	m.walk(v, nil, &evs)
	return evs
}

func sub(path []string, seg string) []string {
	r := make([]string, 0, len(path)+1)
	return append(append(r, path...), seg)
}

func (m *Model) walk(v *jval, path []string, evs *[]mev) {
	switch v.k {
	case jObj, jArr:
		if len(path) > 0 {
			*evs = append(*evs, mev{path: path, k: v.k})
			if m.keep[flat(path)] {
				*evs = append(*evs, mev{path: path, k: jKeep, doc: v})
				return
			}
		}
		for i, e := range v.kids {
			seg := "[" + strconv.Itoa(i) + "]"
			if v.k == jObj {
				seg = v.keys[i]
			}
			m.walk(e, sub(path, seg), evs)
		}
	case jStr:
		*evs = append(*evs, mev{path: path, k: jStr, s: v.s})
		m.extract(v.s, path, evs)
	default:
		*evs = append(*evs, mev{path: path, k: v.k, s: v.s})
	}
}

func (m *Model) extract(s string, path []string, evs *[]mev) {
	if m.limited[flat(path)] {
		return // A column that has no descendants.
	}
	for p, f := range m.c.Cfg.ExtractValuesRegex {
		if mustRe(p).MatchString(flat(path)) {
			switch f {
			case "JSON":
				v, _, err := parseJSON(s)
				if err == nil && v.k != jObj && v.k != jArr {
					v, err = parseJSONAll(s)
				}
				if err == nil {
					m.walk(v, sub(path, "JSON"), evs)
					return
				}
			case "URL":
				if v, err := urlDoc(s); err == nil {
					m.walk(v, sub(path, "URL"), evs)
					return
				}
			}
		}
	}
	if !m.c.F.ExtractStrings || len(s) <= 2 {
		return
	}
	if s[0] == '{' || s[0] == '[' {
		if v, _, err := parseJSON(s); err == nil {
			m.walk(v, sub(path, "JSON"), evs)
			return
		}
	}
	if strings.Contains(s, "://") {
		if v, err := urlDoc(s); err == nil {
			m.walk(v, sub(path, "URL"), evs)
		}
	}
}

func validUTF8(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

// urlDoc is the documented decomposition of a URL.
func urlDoc(s string) (*jval, error) {
	u, err := url.Parse(s)
	if err != nil {
		return nil, err
	}
	str := func(s string) *jval { return &jval{k: jStr, s: validUTF8(s)} }
	d := &jval{k: jObj}
	add := func(k string, v *jval) { d.keys = append(d.keys, k); d.kids = append(d.kids, v) }
	opt := func(k, v string) {
		if v != "" {
			add(k, str(v))
		}
	}
	opt("scheme", u.Scheme)
	opt("user", u.User.Username())
	pw, _ := u.User.Password()
	opt("pass", pw)
	opt("host", u.Hostname())
	opt("port", u.Port())
	if q := u.Query(); len(q) > 0 {
		qd := &jval{k: jObj}
		var ks []string
		for k := range q {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			l := &jval{k: jArr}
			for _, v := range q[k] {
				l.kids = append(l.kids, str(v))
			}
			qd.keys = append(qd.keys, validUTF8(k))
			qd.kids = append(qd.kids, l)
		}
		add("query", qd)
	}
	pl := &jval{k: jArr}
	for _, seg := range strings.Split(strings.Trim(u.Path, "/"), "/") {
		pl.kids = append(pl.kids, str(seg))
	}
	add("path", pl)
	opt("fragment", u.Fragment)
	if len(pl.kids) == 1 && pl.kids[0].s == s {
		return nil, errors.New("plain text")
	}
	return d, nil
}

func numKind(lit string) jkind {
	if strings.ContainsAny(lit, ".eE") {
		return 'f'
	}
	if _, err := strconv.ParseInt(lit, 10, 64); err != nil {
		return 'f'
	}
	return 'i'
}

func (m *Model) register(evs []mev) {
	for _, e := range evs {
		f := flat(e.path)
		k := m.keys[m.ck(f)]
		if k == nil {
			k = &mkey{canon: m.ck(f), types: map[jkind]bool{}, zero: true}
			m.keys[k.canon] = k
		}
		var sp *mspell
		for _, x := range k.spells {
			if x.name == f {
				sp = x
			}
		}
		if sp == nil {
			m.nspell++
			sp = &mspell{name: f, path: e.path, order: m.nspell}
			k.spells = append(k.spells, sp)
		}
		z := true
		switch e.k {
		case jObj, jArr:
			k.types[e.k] = true
			sp.strct = true
			continue
		case jNull:
			k.types['z'] = true
			sp.null = true
			continue
		case jNum:
			k.types[numKind(e.s)] = true
			z = zeroNumber(e.s)
		case jStr:
			k.types['s'] = true
			z = e.s == ""
		case jBool:
			k.types['b'] = true
			z = e.s == "false"
		case jKeep:
			k.types['j'] = true
			z = false
		}
		sp.scal = true
		k.zero = k.zero && z
	}
}

// settle decides which keys are columns, and their names and order.
func (m *Model) settle() {
	for _, k := range m.keys {
		for _, sp := range k.spells {
			if sp.column() {
				k.name, k.path, k.order, k.scal = sp.name, sp.path, sp.order, true
				m.list = append(m.list, k)
				break
			}
		}
	}
	sort.Slice(m.list, func(i, j int) bool { return m.list[i].order < m.list[j].order })
}

// typeOf names the column type of a set of value kinds.
func typeOf(t map[jkind]bool) string {
	switch {
	case t['s']:
		return "string"
	case t['j']:
		return "string"
	case t['b'] && (t['i'] || t['f']):
		return "string"
	case t['b']:
		return "bool"
	case t['f']:
		return "float"
	case t['i']:
		return "int"
	case t['z']:
		return "null"
	}
	return ""
}

// NewModel computes the expected outcome. Inputs of several files are given
// as one list of lines.
func NewModel(c *Case) *Model {
	m := &Model{c: c, keys: map[string]*mkey{}, keep: map[string]bool{}, limited: map[string]bool{}, Children: map[string]*MChild{}}
	for _, k := range c.Cfg.KeepJSON {
		m.keep[k] = true
	}
	lines := c.Lines
	if c.F.OffsetLines > 0 {
		if c.F.OffsetLines >= len(lines) {
			lines = nil
		} else {
			lines = lines[c.F.OffsetLines:]
		}
	}
	win := lines
	if c.F.MaxLines > 0 && c.F.MaxLines < len(win) {
		win = win[:c.F.MaxLines]
	}
	scan := win
	if c.F.MaxLinesKeys > 0 && c.F.MaxLinesKeys < len(scan) {
		scan = scan[:c.F.MaxLinesKeys]
	}

	include := append([]string(nil), c.Cfg.IncludeKeys...)
	if c.F.GetKey != "" {
		include = append(include, c.F.GetKey)
	}
	scanned := len(include) == 0 || len(c.Cfg.IncludeKeysRegex) > 0

	if scanned && c.F.ChildrenLimit > 0 {
		m.limitChildren(scan)
	}
	for i, l := range win {
		// Lines may end in CR LF.
		m.lines = append(m.lines, m.events(i+1, strings.TrimSuffix(string(l), "\r")))
		m.Seq = append(m.Seq, i+1)
	}
	if scanned {
		for i := range scan {
			m.register(m.lines[i])
		}
		m.settle()
	}

	m.build(include, scanned)
	return m
}

func (m *Model) limitChildren(scan []B) {
	kids := map[string]map[string]bool{}
	for i, l := range scan {
		for _, e := range m.events(i+1, strings.TrimSuffix(string(l), "\r")) {
			if len(e.path) < 2 || e.path[0] == "_prefix" {
				continue
			}
			p := flat(e.path[:len(e.path)-1])
			if kids[p] == nil {
				kids[p] = map[string]bool{}
			}
			kids[p][e.path[len(e.path)-1]] = true
		}
	}
	for p, ks := range kids {
		allowed := false
		for _, a := range m.c.Cfg.AllowCardinality {
			if a == p {
				allowed = true
			}
		}
		if len(ks) > m.c.F.ChildrenLimit && !allowed {
			m.keep[p] = true
			m.limited[p] = true
		}
	}
}

const snakeSuffix = "|to_snake_case"

// templateName fills in the groups of a name template; conversion to snake
// case is left to the caller.
func templateName(pattern, tpl, key string) string {
	sm := mustRe(pattern).FindStringSubmatch(key)
	for i := 1; i < len(sm); i++ {
		tpl = strings.ReplaceAll(tpl, "${"+strconv.Itoa(i)+"}", strings.Join(strings.Fields(sm[i]), "_"))
	}
	return tpl
}

type mcolumn struct {
	col    MCol
	canons map[string]bool
	konst  *string
	tdst   string
	tidx   string
	ttrim  string
	types  map[jkind]bool
}

func (m *Model) build(include []string, scanned bool) {
	c := m.c
	excl := map[string]bool{}
	for _, k := range c.Cfg.ExcludeKeys {
		excl[m.ck(k)] = true
	}
	excluded := func(k string) bool {
		if excl[m.ck(k)] {
			return true
		}
		for _, r := range c.Cfg.ExcludeKeysRegex {
			if mustRe(r).MatchString(k) {
				return true
			}
		}
		return false
	}

	var sel []string
	have := map[string]bool{}
	add := func(k string) {
		if !have[k] {
			have[k] = true
			sel = append(sel, k)
		}
	}
	for _, k := range include {
		if !excluded(k) {
			add(k)
		}
	}
	for _, k := range m.list {
		if excluded(k.name) || have[k.name] {
			continue
		}
		if len(c.Cfg.IncludeKeysRegex) > 0 {
			for _, r := range c.Cfg.IncludeKeysRegex {
				if mustRe(r).MatchString(k.name) {
					add(k.name)
					break
				}
			}
			continue
		}
		if len(include) == 0 && !(c.F.SkipZeroCols && k.zero) {
			add(k.name)
		}
	}

	rename := map[string]string{}
	for k, v := range c.Cfg.ReplaceKeys {
		rename[m.ck(k)] = v
	}

	m.selected = map[string]bool{}
	for _, k := range sel {
		m.selected[k] = true
	}

	var cols []*mcolumn
	byName := map[string]*mcolumn{}
	for _, k := range sel {
		col := &mcolumn{canons: map[string]bool{}, types: map[jkind]bool{}}
		orig := k
		if strings.HasPrefix(k, "const:") {
			v := strings.TrimPrefix(k, "const:")
			col.konst = &v
			col.types['s'] = true
		} else {
			col.canons[m.ck(k)] = true
			if !scanned {
				// Named as first listed.
				for _, x := range sel {
					if m.ck(x) == m.ck(k) {
						orig = x
						break
					}
				}
			} else {
				if mk := m.keys[m.ck(k)]; mk != nil && mk.name != "" {
					orig = mk.name
					for t := range mk.types {
						col.types[t] = true
					}
				}
			}
			best := ""
			for tk, dst := range c.Cfg.Transpose {
				seg := strings.TrimSuffix(tk, ".") + "."
				if len(seg) > len(best) && strings.HasPrefix(orig, seg) {
					best = seg
					rest := orig[len(seg):]
					idx, trim := rest, ""
					if p := strings.IndexByte(rest, '.'); p >= 0 {
						idx, trim = rest[:p], rest[p:]
					}
					if trim == "" {
						trim = "._value"
					}
					if len(idx) > 2 && idx[0] == '[' && idx[len(idx)-1] == ']' {
						if n, err := strconv.Atoi(idx[1 : len(idx)-1]); err == nil && idx == "["+strconv.Itoa(n)+"]" {
							idx = strconv.Itoa(n)
						}
					}
					col.tdst, col.tidx, col.ttrim = dst, idx, trim
				}
			}
		}
		name := orig
		if r, ok := rename[m.ck(orig)]; ok && col.tdst == "" {
			name = r
		} else if col.tdst == "" {
			for p, rep := range c.Cfg.ReplaceKeysRegex {
				if mustRe(p).MatchString(orig) {
					name = templateName(p, rep, orig)
				}
			}
		}
		col.col = MCol{Name: name, Key: orig}
		if col.tdst == "" {
			if prev := byName[name]; prev != nil {
				m.mergedCols++
				for cn := range col.canons {
					prev.canons[cn] = true
				}
				for t := range col.types {
					prev.types[t] = true
				}
				if c.Cfg.ConcatDelimiter != nil {
					prev.types['s'] = true
				}
				if col.konst != nil {
					prev.konst = col.konst
				}
				continue
			}
			byName[name] = col
		}
		cols = append(cols, col)
	}

	var main []*mcolumn
	for _, col := range cols {
		col.col.Type = typeOf(col.types)
		if col.tdst == "" {
			main = append(main, col)
			m.Main.Cols = append(m.Main.Cols, col.col)
			continue
		}
		m.transposed = append(m.transposed, *col)
		ch := m.Children[col.tdst]
		if ch == nil {
			ch = &MChild{types: map[string]map[jkind]bool{}}
			m.Children[col.tdst] = ch
		}
		found := false
		for _, x := range ch.Cols {
			found = found || x.Key == col.ttrim
		}
		if !found {
			ch.Cols = append(ch.Cols, MCol{Name: m.childName(col.ttrim), Key: col.ttrim})
			ch.types[col.ttrim] = map[jkind]bool{}
		}
		for t := range col.types {
			ch.types[col.ttrim][t] = true
		}
	}

	match := func(col *mcolumn, f string) bool { return col.canons[m.ck(f)] }
	index := map[string]*mcolumn{}
	find := func(f string) *mcolumn {
		if c, ok := index[f]; ok {
			return c
		}
		var r *mcolumn
		for _, col := range cols {
			if match(col, f) {
				r = col
				break
			}
		}
		index[f] = r
		return r
	}

	for li, evs := range m.lines {
		cells := map[*mcolumn]Cell{}
		for _, e := range evs {
			if e.k == jObj || e.k == jArr {
				continue
			}
			f := flat(e.path)
			col := find(f)
			if col == nil {
				continue
			}
			cell := m.cell(f, e)
			prev, ok := cells[col]
			if ok {
				m.mergedCells++
			}
			switch {
			case !ok:
				cells[col] = cell
			case prev.Null:
				cells[col] = cell
			case cell.Null:
			case c.Cfg.ConcatDelimiter != nil:
				cells[col] = Cell{S: prev.S + *c.Cfg.ConcatDelimiter + cell.S}
			}
		}
		row := make([]Cell, 0, len(main))
		for _, col := range main {
			if col.konst != nil {
				row = append(row, Cell{S: *col.konst})
				continue
			}
			cell, ok := cells[col]
			if !ok {
				cell = Cell{Absent: true}
			}
			row = append(row, cell)
		}
		m.Main.Rows = append(m.Main.Rows, row)
		for _, col := range cols {
			if col.tdst == "" {
				continue
			}
			cell, ok := cells[col]
			if !ok {
				continue
			}
			ch := m.Children[col.tdst]
			var r *MRow
			for i := range ch.Rows {
				if ch.Rows[i].Seq == m.Seq[li] && ch.Rows[i].Index == col.tidx {
					r = &ch.Rows[i]
				}
			}
			if r == nil {
				ch.Rows = append(ch.Rows, MRow{Seq: m.Seq[li], Index: col.tidx, Cells: map[string]Cell{}})
				r = &ch.Rows[len(ch.Rows)-1]
			}
			r.Cells[col.ttrim] = cell
		}
	}
}

// childName is the name of a column of a child table.
func (m *Model) childName(key string) string {
	for k, v := range m.c.Cfg.ReplaceKeys {
		if m.ck(k) == m.ck(key) {
			return v
		}
	}
	return key
}

func (m *Model) cell(f string, e mev) Cell {
	switch e.k {
	case jNull:
		return Cell{Null: true}
	case jKeep:
		return Cell{Doc: e.doc}
	case jStr:
		s := e.s
		if n := m.c.F.FieldLimit; n > 0 && len(s) > n {
			s = truncRunes(s, n)
		}
		tf := m.c.Cfg.ParseTime[f]
		for k, v := range m.c.Cfg.ParseTime {
			if tf == "" && m.ck(k) == m.ck(f) {
				tf = v
			}
		}
		if tf != "" && tf != "RAW" {
			s = m.convertTime(s, tf)
		}
		return Cell{S: s}
	}
	return Cell{S: e.s}
}

// truncRunes is the longest prefix of at most n bytes that ends on a character boundary.
func truncRunes(s string, n int) string {
	if len(s) <= n {
		return s
	}
	end := 0
	for i := 0; i <= n; {
		end = i
		_, w := utf8.DecodeRuneInString(s[i:])
		i += w
	}
	return s[:end]
}

const timeFailed = "failed to parse time"

func (m *Model) convertTime(s, tf string) string {
	loc := time.UTC
	var out *time.Location
	if z := m.c.Cfg.OutputTimezone; z != "" {
		l, err := time.LoadLocation(z)
		if err == nil {
			loc, out = l, l
		}
	}
	t, err := time.ParseInLocation(tf, s, loc)
	if err != nil {
		return timeFailed
	}
	if out != nil {
		t = t.In(out)
	}
	of := m.c.Cfg.OutputTimeFormat
	if of == "" {
		of = time.RFC3339
	}
	return t.Format(of)
}

// compareCell checks one observed cell.
func compareCell(want Cell, got string) bool {
	if want.Doc != nil {
		v, err := parseJSONAll(got)
		return err == nil && jequal(v, want.Doc)
	}
	if strings.HasPrefix(want.S, timeFailed) {
		return strings.HasPrefix(got, timeFailed)
	}
	return want.text() == got
}

// CompareMain checks an observed table (header + rows) against the expected main table.
// Columns are matched by name unless ordered is set.
func (m *Model) CompareMain(rows [][]string, ordered bool) error {
	if len(m.Main.Cols) == 0 {
		// No columns at all: nothing tabular can be written.
		for _, r := range rows {
			if len(r) != 1 || r[0] != "" {
				return fmt.Errorf("expected no columns, got %q", r)
			}
		}
		return nil
	}
	if len(rows) == 0 {
		return fmt.Errorf("no header")
	}
	return compareTable(m.Main, rows[0], rows[1:], ordered)
}

func colNames(cols []MCol) []string {
	var r []string
	for _, c := range cols {
		r = append(r, c.Name)
	}
	return r
}

func compareTable(t MTable, head []string, rows [][]string, ordered bool) error {
	names := colNames(t.Cols)
	perm := make([]int, len(names)) // expected column -> observed position
	if len(head) != len(names) {
		return fmt.Errorf("columns: want %q, got %q", names, head)
	}
	if ordered {
		for i := range names {
			if head[i] != names[i] {
				return fmt.Errorf("columns: want %q, got %q", names, head)
			}
			perm[i] = i
		}
	} else {
		pos := map[string]int{}
		for i, h := range head {
			if _, dup := pos[h]; dup {
				return fmt.Errorf("columns: %q appears twice in %q", h, head)
			}
			pos[h] = i
		}
		for i, n := range names {
			p, ok := pos[n]
			if !ok {
				return fmt.Errorf("columns: want %q, got %q", names, head)
			}
			perm[i] = p
		}
	}
	if len(rows) != len(t.Rows) {
		return fmt.Errorf("rows: want %d, got %d (columns %q)", len(t.Rows), len(rows), head)
	}
	for i, w := range t.Rows {
		g := rows[i]
		if len(g) != len(head) {
			return fmt.Errorf("row %d: %d fields, header has %d", i+1, len(g), len(head))
		}
		for j := range w {
			if !compareCell(w[j], g[perm[j]]) {
				want := w[j].text()
				if w[j].Doc != nil {
					want = "(JSON document) " + docText(w[j].Doc)
				}
				return fmt.Errorf("row %d, column %q: want %q, got %q", i+1, names[j], want, g[perm[j]])
			}
		}
	}
	return nil
}

func docText(v *jval) string {
	switch v.k {
	case jObj:
		var p []string
		for i, k := range v.keys {
			p = append(p, js(k)+":"+docText(v.kids[i]))
		}
		return "{" + strings.Join(p, ",") + "}"
	case jArr:
		var p []string
		for _, e := range v.kids {
			p = append(p, docText(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case jStr:
		return js(v.s)
	}
	return v.s
}

// CompareChild checks an observed child table (header sequence,index,columns...).
func (m *Model) CompareChild(dst string, head []string, rows [][]string) error {
	ch := m.Children[dst]
	if ch == nil {
		return fmt.Errorf("unexpected child table %q", dst)
	}
	if len(head) != len(ch.Cols)+2 || head[0] != m.childName("._sequence") || head[1] != m.childName("._index") {
		return fmt.Errorf("child %q columns: want sequence, index and %q, got %q", dst, colNames(ch.Cols), head)
	}
	pos := map[string]int{}
	for i, h := range head[2:] {
		if _, dup := pos[h]; dup {
			return fmt.Errorf("child %q: column %q twice", dst, h)
		}
		pos[h] = i + 2
	}
	keyPos := map[string]int{}
	for _, c := range ch.Cols {
		p, ok := pos[c.Name]
		if !ok {
			return fmt.Errorf("child %q: missing column %q in %q", dst, c.Name, head)
		}
		keyPos[c.Key] = p
	}
	pos = keyPos
	type id struct{ seq, idx string }
	want := map[id]MRow{}
	for _, r := range ch.Rows {
		want[id{strconv.Itoa(r.Seq), r.Index}] = r
	}
	if len(rows) != len(ch.Rows) {
		return fmt.Errorf("child %q: want %d rows, got %d: %q", dst, len(ch.Rows), len(rows), rows)
	}
	last := 0
	for _, r := range rows {
		if len(r) != len(head) {
			return fmt.Errorf("child %q: row %q does not fit header", dst, r)
		}
		k := id{r[0], r[1]}
		w, ok := want[k]
		if !ok {
			return fmt.Errorf("child %q: unexpected or repeated row %q", dst, r)
		}
		delete(want, k)
		if w.Seq < last {
			return fmt.Errorf("child %q: row of line %d after line %d", dst, w.Seq, last)
		}
		last = w.Seq
		for n, p := range pos {
			cell, ok := w.Cells[n]
			if !ok {
				cell = Cell{Absent: true}
			}
			if !compareCell(cell, r[p]) {
				return fmt.Errorf("child %q, line %d, index %q, column %q: want %q, got %q", dst, w.Seq, w.Index, n, cell.text(), r[p])
			}
		}
	}
	return nil
}

// zeroNumber tells if a number is zero as written.
func zeroNumber(s string) bool {
	s, _, _ = strings.Cut(strings.ToLower(s), "e")
	return strings.Trim(s, "-0.") == ""
}
