package main

// A document with places that are different in every repetition: marks that
// are replaced by the letters or digits of a counter.
const (
	markLetter = 2
	markDigit  = 3
)

// filled is the document of repetition i, in buf if it is large enough.
func (v *sval) filled(i int, buf []byte) []byte {
	if !v.Vary {
		return v.Doc
	}
	buf = append(buf[:0], v.Doc...)
	k := 0
	for j, c := range buf {
		switch c {
		case markLetter:
			buf[j] = 'a' + byte(i>>(4*uint(k%5)))&15
			k++
		case markDigit:
			buf[j] = '1' + byte(i>>(3*uint(k%6)))&7
			k++
		}
	}
	return buf
}

// vary puts marks in some strings, keys and numbers of the document, as long
// as it can still be decoded.
func (b *builder) vary(v *sval) {
	ok := func() bool {
		for _, i := range []int{0, 0x7ffffff, 0x2b3a51c} {
			for _, t := range []string{v.Type, "any"} {
				if _, _, ok := stdDecode(t, v.filled(i, nil), false); !ok {
					return false
				}
			}
		}
		return true
	}
	v.Vary = true
	for n := b.r.in(1, 6); n > 0; n-- {
		var at []int
		str := false
		for i := 0; i < len(v.Doc); i++ {
			switch c := v.Doc[i]; {
			case str && c == '\\':
				i++
			case c == '"':
				str = !str
				if str {
					at = append(at, i+1)
				}
			case !str && c >= '0' && c <= '9' && (i+1 == len(v.Doc) || v.Doc[i+1] < '+' || v.Doc[i+1] == ',' || v.Doc[i+1] == ']' || v.Doc[i+1] == '}'):
				at = append(at, i+1)
			}
		}
		if len(at) == 0 {
			break
		}
		p := at[b.r.n(len(at))]
		mark := "\x02\x02\x02\x02\x02\x02\x02\x02"
		if v.Doc[p-1] != '"' {
			mark = "\x03\x03\x03\x03\x03\x03"
		}
		old := v.Doc
		v.Doc = append(append(append([]byte(nil), old[:p]...), mark...), old[p:]...)
		if !ok() {
			v.Doc = old
		}
	}
}
