package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// The reference model of JSON used by the oracles: an independent, slow,
// recursive parser over a complete byte slice. It shares no code with the
// library nor with encoding/json.

type node struct {
	kind       byte // 'n' 't' 'f' '0' (number) 's' 'a' 'o'
	start, end int  // position in the source
	num        string
	str        string
	keys       []string
	kids       []*node
}

type parser struct {
	b []byte
	i int
}

type syntaxErr struct{ at int }

func (e syntaxErr) Error() string { return fmt.Sprintf("syntax error at %d", e.at) }

func (p *parser) ws() {
	for p.i < len(p.b) {
		switch p.b[p.i] {
		case ' ', '\t', '\r', '\n':
			p.i++
		default:
			return
		}
	}
}

func (p *parser) bad() error { return syntaxErr{p.i} }

func (p *parser) value() (*node, error) {
	p.ws()
	if p.i >= len(p.b) {
		return nil, p.bad()
	}
	n := &node{start: p.i}
	switch c := p.b[p.i]; {
	case c == 'n':
		n.kind = 'n'
		if err := p.lit("null"); err != nil {
			return nil, err
		}
	case c == 't':
		n.kind = 't'
		if err := p.lit("true"); err != nil {
			return nil, err
		}
	case c == 'f':
		n.kind = 'f'
		if err := p.lit("false"); err != nil {
			return nil, err
		}
	case c == '"':
		n.kind = 's'
		s, err := p.str()
		if err != nil {
			return nil, err
		}
		n.str = s
	case c == '[':
		n.kind = 'a'
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			break
		}
		for {
			k, err := p.value()
			if err != nil {
				return nil, err
			}
			n.kids = append(n.kids, k)
			p.ws()
			if p.i >= len(p.b) {
				return nil, p.bad()
			}
			if p.b[p.i] == ',' {
				p.i++
				continue
			}
			if p.b[p.i] == ']' {
				p.i++
				break
			}
			return nil, p.bad()
		}
	case c == '{':
		n.kind = 'o'
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != '"' {
				return nil, p.bad()
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return nil, p.bad()
			}
			p.i++
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, v)
			p.ws()
			if p.i >= len(p.b) {
				return nil, p.bad()
			}
			if p.b[p.i] == ',' {
				p.i++
				continue
			}
			if p.b[p.i] == '}' {
				p.i++
				break
			}
			return nil, p.bad()
		}
	case c == '-' || (c >= '0' && c <= '9'):
		n.kind = '0'
		l := numLen(p.b[p.i:])
		if l == 0 {
			return nil, p.bad()
		}
		n.num = string(p.b[p.i : p.i+l])
		p.i += l
	default:
		return nil, p.bad()
	}
	n.end = p.i
	return n, nil
}

// numLen returns the length of the number at the beginning of b, 0 if none.
func numLen(b []byte) int {
	i := 0
	dig := func() int {
		s := i
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			i++
		}
		return i - s
	}
	if i < len(b) && b[i] == '-' {
		i++
	}
	if i < len(b) && b[i] == '0' {
		i++
	} else if dig() == 0 {
		return 0
	}
	if i < len(b) && b[i] == '.' {
		i++
		if dig() == 0 {
			return 0
		}
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		i++
		if i < len(b) && (b[i] == '+' || b[i] == '-') {
			i++
		}
		if dig() == 0 {
			return 0
		}
	}
	return i
}

func (p *parser) lit(s string) error {
	if len(p.b)-p.i < len(s) || string(p.b[p.i:p.i+len(s)]) != s {
		return p.bad()
	}
	p.i += len(s)
	return nil
}

func (p *parser) str() (string, error) {
	p.i++
	var out []byte
	for {
		if p.i >= len(p.b) {
			return "", p.bad()
		}
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out), nil
		case c < ' ':
			return "", p.bad()
		case c == '\\':
			if p.i+1 >= len(p.b) {
				return "", p.bad()
			}
			switch e := p.b[p.i+1]; e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := p.u4(p.i)
				if !ok {
					return "", p.bad()
				}
				if utf16.IsSurrogate(r) {
					if r2, ok := p.u4(p.i + 6); ok {
						if d := utf16.DecodeRune(r, r2); d != utf8.RuneError {
							out = utf8.AppendRune(out, d)
							p.i += 12
							continue
						}
					}
					r = utf8.RuneError
				}
				out = utf8.AppendRune(out, r)
				p.i += 6
				continue
			default:
				return "", p.bad()
			}
			p.i += 2
		default:
			out = append(out, c)
			p.i++
		}
	}
}

func (p *parser) u4(i int) (rune, bool) {
	if i+6 > len(p.b) || p.b[i] != '\\' || p.b[i+1] != 'u' {
		return 0, false
	}
	v, err := strconv.ParseUint(string(p.b[i+2:i+6]), 16, 32)
	if err != nil {
		return 0, false
	}
	return rune(v), true
}

// parseOne parses exactly one value surrounded by white space.
func parseOne(b []byte) (*node, error) {
	p := &parser{b: b}
	n, err := p.value()
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(b) {
		return nil, p.bad()
	}
	return n, nil
}

// canon is a canonical text of a tree: members sorted, number tokens as they
// are, strings quoted by strconv.
func (n *node) canon(sb *strings.Builder) {
	switch n.kind {
	case 'n':
		sb.WriteString("null")
	case 't':
		sb.WriteString("true")
	case 'f':
		sb.WriteString("false")
	case '0':
		sb.WriteString(n.num)
	case 's':
		sb.WriteString(strconv.Quote(n.str))
	case 'a':
		sb.WriteByte('[')
		for i, k := range n.kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			k.canon(sb)
		}
		sb.WriteByte(']')
	case 'o':
		type m struct{ k, v string }
		var ms []m
		for i, k := range n.kids {
			var s strings.Builder
			k.canon(&s)
			ms = append(ms, m{strconv.Quote(n.keys[i]), s.String()})
		}
		sort.SliceStable(ms, func(i, j int) bool { return ms[i].k < ms[j].k })
		sb.WriteByte('{')
		for i, e := range ms {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(e.k)
			sb.WriteByte(':')
			sb.WriteString(e.v)
		}
		sb.WriteByte('}')
	}
}

func (n *node) String() string {
	var sb strings.Builder
	n.canon(&sb)
	return sb.String()
}

// canonText canonicalises an encoded document; text that is not one JSON value
// is returned as it is, marked.
func canonText(b []byte) string {
	n, err := parseOne(b)
	if err != nil {
		return fmt.Sprintf("!%v!%q", err, b)
	}
	return n.String()
}

// canonStream canonicalises a sequence of newline terminated documents.
func canonStream(b []byte) string {
	var sb strings.Builder
	p := &parser{b: b}
	for {
		if p.i >= len(b) {
			return sb.String()
		}
		n, err := p.value()
		if err != nil {
			fmt.Fprintf(&sb, "!%v!%q", err, b[p.i:])
			return sb.String()
		}
		n.canon(&sb)
		if p.i >= len(b) || b[p.i] != '\n' {
			fmt.Fprintf(&sb, "!no newline!%q", b[p.i:])
			return sb.String()
		}
		p.i++
		sb.WriteByte('\n')
	}
}

// sameDoc tells if two documents denote the same value: numbers by value, the
// members of objects in any order.
func sameDoc(a, b *node) bool {
	if a.kind != b.kind || len(a.kids) != len(b.kids) {
		return false
	}
	switch a.kind {
	case '0':
		if a.num == b.num {
			return true
		}
		x, e1 := strconv.ParseFloat(a.num, 64)
		y, e2 := strconv.ParseFloat(b.num, 64)
		return e1 == nil && e2 == nil && x == y
	case 's':
		return a.str == b.str
	case 'a':
		for i := range a.kids {
			if !sameDoc(a.kids[i], b.kids[i]) {
				return false
			}
		}
	case 'o':
		m := map[string]*node{}
		for i, k := range b.keys {
			m[k] = b.kids[i]
		}
		for i, k := range a.keys {
			if m[k] == nil || !sameDoc(a.kids[i], m[k]) {
				return false
			}
		}
	}
	return true
}
