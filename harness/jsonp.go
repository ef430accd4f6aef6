package props

import (
	"errors"
	"strconv"
	"unicode/utf16"
	"unicode/utf8"
)

// A small, strict, order preserving JSON parser: the oracle's own reading of a
// line, independent of the parser used by the code under test.

type jkind byte

const (
	jNull jkind = 'z'
	jBool jkind = 'b'
	jNum  jkind = 'n'
	jStr  jkind = 's'
	jArr  jkind = 'a'
	jObj  jkind = 'o'
)

type jval struct {
	k    jkind
	s    string // literal of number/bool, text of string
	keys []string
	kids []*jval
}

type jparser struct {
	b   string
	pos int
}

var errJSON = errors.New("bad JSON")

// parseJSON reads one JSON value at the start of s, returns the rest.
func parseJSON(s string) (*jval, string, error) {
	p := &jparser{b: s}
	v, err := p.value(0)
	if err != nil {
		return nil, "", err
	}
	return v, p.b[p.pos:], nil
}

// parseJSONAll reads one value and nothing else but white space.
func parseJSONAll(s string) (*jval, error) {
	p := &jparser{b: s}
	v, err := p.value(0)
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.pos != len(p.b) {
		return nil, errJSON
	}
	return v, nil
}

func (p *jparser) ws() {
	for p.pos < len(p.b) {
		switch p.b[p.pos] {
		case ' ', '\t', '\n', '\r':
			p.pos++
		default:
			return
		}
	}
}

func (p *jparser) value(depth int) (*jval, error) {
	if depth > 5000 {
		return nil, errJSON
	}
	p.ws()
	if p.pos >= len(p.b) {
		return nil, errJSON
	}
	switch c := p.b[p.pos]; {
	case c == '{':
		v := &jval{k: jObj}
		p.pos++
		p.ws()
		if p.pos < len(p.b) && p.b[p.pos] == '}' {
			p.pos++
			return v, nil
		}
		for {
			p.ws()
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.pos >= len(p.b) || p.b[p.pos] != ':' {
				return nil, errJSON
			}
			p.pos++
			e, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			v.keys = append(v.keys, k)
			v.kids = append(v.kids, e)
			p.ws()
			if p.pos >= len(p.b) {
				return nil, errJSON
			}
			if p.b[p.pos] == ',' {
				p.pos++
				continue
			}
			if p.b[p.pos] == '}' {
				p.pos++
				return v, nil
			}
			return nil, errJSON
		}
	case c == '[':
		v := &jval{k: jArr}
		p.pos++
		p.ws()
		if p.pos < len(p.b) && p.b[p.pos] == ']' {
			p.pos++
			return v, nil
		}
		for {
			e, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			v.kids = append(v.kids, e)
			p.ws()
			if p.pos >= len(p.b) {
				return nil, errJSON
			}
			if p.b[p.pos] == ',' {
				p.pos++
				continue
			}
			if p.b[p.pos] == ']' {
				p.pos++
				return v, nil
			}
			return nil, errJSON
		}
	case c == '"':
		s, err := p.str()
		if err != nil {
			return nil, err
		}
		return &jval{k: jStr, s: s}, nil
	case c == 't':
		return p.lit("true", jBool)
	case c == 'f':
		return p.lit("false", jBool)
	case c == 'n':
		return p.lit("null", jNull)
	default:
		return p.num()
	}
}

func (p *jparser) lit(w string, k jkind) (*jval, error) {
	if len(p.b)-p.pos < len(w) || p.b[p.pos:p.pos+len(w)] != w {
		return nil, errJSON
	}
	p.pos += len(w)
	return &jval{k: k, s: w}, nil
}

func (p *jparser) digits() bool {
	st := p.pos
	for p.pos < len(p.b) && p.b[p.pos] >= '0' && p.b[p.pos] <= '9' {
		p.pos++
	}
	return p.pos > st
}

func (p *jparser) num() (*jval, error) {
	st := p.pos
	if p.b[p.pos] == '-' {
		p.pos++
	}
	if p.pos < len(p.b) && p.b[p.pos] == '0' {
		p.pos++
	} else if !p.digits() {
		return nil, errJSON
	}
	if p.pos < len(p.b) && p.b[p.pos] == '.' {
		p.pos++
		if !p.digits() {
			return nil, errJSON
		}
	}
	if p.pos < len(p.b) && (p.b[p.pos] == 'e' || p.b[p.pos] == 'E') {
		p.pos++
		if p.pos < len(p.b) && (p.b[p.pos] == '+' || p.b[p.pos] == '-') {
			p.pos++
		}
		if !p.digits() {
			return nil, errJSON
		}
	}
	return &jval{k: jNum, s: p.b[st:p.pos]}, nil
}

func (p *jparser) str() (string, error) {
	if p.pos >= len(p.b) || p.b[p.pos] != '"' {
		return "", errJSON
	}
	p.pos++
	var r []byte
	for {
		if p.pos >= len(p.b) {
			return "", errJSON
		}
		c := p.b[p.pos]
		p.pos++
		switch {
		case c == '"':
			return string(r), nil
		case c < 0x20:
			return "", errJSON
		case c == '\\':
			if p.pos >= len(p.b) {
				return "", errJSON
			}
			e := p.b[p.pos]
			p.pos++
			switch e {
			case '"', '\\', '/':
				r = append(r, e)
			case 'b':
				r = append(r, '\b')
			case 'f':
				r = append(r, '\f')
			case 'n':
				r = append(r, '\n')
			case 'r':
				r = append(r, '\r')
			case 't':
				r = append(r, '\t')
			case 'u':
				u, err := p.hex4()
				if err != nil {
					return "", err
				}
				if utf16.IsSurrogate(rune(u)) {
					if len(p.b)-p.pos < 6 || p.b[p.pos] != '\\' || p.b[p.pos+1] != 'u' {
						return "", errJSON
					}
					p.pos += 2
					u2, err := p.hex4()
					if err != nil {
						return "", err
					}
					d := utf16.DecodeRune(rune(u), rune(u2))
					if d == utf8.RuneError {
						return "", errJSON
					}
					r = utf8.AppendRune(r, d)
				} else {
					r = utf8.AppendRune(r, rune(u))
				}
			default:
				return "", errJSON
			}
		default:
			r = append(r, c)
		}
	}
}

func (p *jparser) hex4() (uint16, error) {
	if len(p.b)-p.pos < 4 {
		return 0, errJSON
	}
	u, err := strconv.ParseUint(p.b[p.pos:p.pos+4], 16, 16)
	if err != nil {
		return 0, errJSON
	}
	p.pos += 4
	return uint16(u), nil
}

// jequal compares two documents: objects as maps, numbers by literal value.
func jequal(a, b *jval) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case jArr:
		if len(a.kids) != len(b.kids) {
			return false
		}
		for i := range a.kids {
			if !jequal(a.kids[i], b.kids[i]) {
				return false
			}
		}
		return true
	case jObj:
		if len(a.kids) != len(b.kids) {
			return false
		}
		m := map[string]*jval{}
		for i, k := range b.keys {
			m[k] = b.kids[i]
		}
		for i, k := range a.keys {
			o, ok := m[k]
			if !ok || !jequal(a.kids[i], o) {
				return false
			}
		}
		return true
	default:
		return a.s == b.s
	}
}
