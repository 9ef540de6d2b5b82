package main

import (
	"encoding/base64"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// gen produces JSON documents that fit a Go type.
type gen struct {
	r      *rng
	b      []byte
	ws     int // white space style
	size   int // rough number of elements
	depth  int
	budget int // remaining elements
	maxKey int // maximal number of map entries

	noUnknown bool // no unknown members, exact key case
	noNull    bool
	noEsc     bool
	longStr   bool
	huge      int // bytes of one large part still to come
	invalid   bool
}

func newGen(r *rng, size int) *gen {
	g := &gen{r: r, size: size, budget: size, ws: r.n(4), maxKey: 6}
	g.longStr = r.p(1, 6)
	if r.p(1, 40) {
		g.huge = hugeSize(r)
	}
	return g
}

// hugeSize is a size around the thresholds programs like to use.
func hugeSize(r *rng) int {
	return []int{256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}[r.pickW(3, 3, 4, 3, 4, 3, 2, 2, 1)] + r.in(-70, 600)
}

func (g *gen) s(s string) { g.b = append(g.b, s...) }

func (g *gen) sp() {
	switch g.ws {
	case 0:
		return
	case 1:
		if g.r.p(1, 4) {
			g.b = append(g.b, " \t\r\n"[g.r.n(4)])
		}
	case 2:
		n := g.r.n(4)
		for i := 0; i < n; i++ {
			g.b = append(g.b, " \t\r\n"[g.r.n(4)])
		}
	case 3:
		if g.r.p(1, 12) {
			// a run that crosses the initial window
			n := g.r.in(1, 90)
			for i := 0; i < n; i++ {
				g.b = append(g.b, ' ')
			}
		}
	}
}

var strAtoms = []string{"a", "b", "key", "value", "hello world", "<", ">", "&", "é", "日本", "😀", "/", "~", "\u2028", "\u2029", "0", "null", "true", "x y", "{", "}", "[", "]", ":", ","}

// str writes a string literal with random escapes and returns nothing.
func (g *gen) str() {
	g.b = append(g.b, '"')
	n := g.r.n(4)
	if g.r.p(1, 10) {
		n = g.r.n(30)
	}
	for i := 0; i < n; i++ {
		g.atom()
	}
	if g.huge > 0 && g.r.p(1, 2) {
		l := g.huge
		g.huge = 0
		p := g.r.in(40, 2000)
		for i := 0; i < l; i++ {
			g.b = append(g.b, byte('a'+i%26))
			if i%16 == 0 && g.r.p(16, p) {
				g.atom()
			}
		}
	}
	if g.longStr && g.r.p(1, 5) {
		k := g.r.pickW(4, 3, 2)
		l := []int{g.r.in(50, 80), g.r.in(100, 300), g.r.in(480, 560)}[k]
		for i := 0; i < l; i++ {
			g.b = append(g.b, byte('a'+i%26))
			if g.r.p(1, 60) {
				g.atom()
			}
		}
	}
	g.b = append(g.b, '"')
}

func (g *gen) atom() {
	if g.noEsc {
		g.b = append(g.b, byte('a'+g.r.n(26)))
		return
	}
	switch g.r.pickW(10, 3, 3, 1, 1, 1) {
	case 0:
		g.s(strAtoms[g.r.n(len(strAtoms))])
	case 1:
		g.b = append(g.b, '\\', `"\/bfnrt`[g.r.n(8)])
	case 2:
		fmt1 := "\\u%04x"
		if g.r.p(1, 2) {
			fmt1 = "\\u%04X"
		}
		c := []int{0x41, 0xe9, 0x20ac, 0x1f, 0xfffd, 0x2028, 0x3c, 0x7f, 0}[g.r.n(9)]
		g.s(fmt.Sprintf(fmt1, c))
	case 3:
		g.s("\\ud83d\\ude00")
	case 4: // lone or broken surrogates
		g.s([]string{"\\ud83d", "\\ude00", "\\ud83dx", "\\ud83d\\n", "\\ud83d\\u0041", "\\ud83d\\ud83d\\ude00"}[g.r.n(6)])
	case 5:
		g.s(strings.Repeat("z", g.r.in(1, 20)))
	}
}

func (g *gen) key(k string) {
	// a struct key, possibly in another case or escaped
	g.b = append(g.b, '"')
	switch {
	case !g.noUnknown && g.r.p(1, 10):
		g.s(strings.ToUpper(k))
	case !g.noEsc && g.r.p(1, 12) && len(k) > 0:
		i := g.r.n(len(k))
		if k[i] >= 0x80 {
			g.s(k)
			break
		}
		g.s(k[:i])
		g.s(fmt.Sprintf("\\u%04x", k[i]))
		g.s(k[i+1:])
	default:
		g.s(k)
	}
	g.b = append(g.b, '"')
}

func (g *gen) intTok(bits int, signed bool) string {
	r := g.r
	if signed {
		max := int64(1)<<(bits-1) - 1
		switch r.n(6) {
		case 0:
			return "0"
		case 1:
			return strconv.FormatInt(max, 10)
		case 2:
			return strconv.FormatInt(-max-1, 10)
		case 3:
			return strconv.FormatInt(int64(r.u64())>>(64-bits), 10)
		case 4:
			return strconv.FormatInt(int64(r.n(200)-100)%max, 10)
		}
		return strconv.FormatInt(int64(r.u64())>>(64-bits+r.n(bits-1)), 10)
	}
	var max uint64 = 1<<bits - 1
	if bits == 64 {
		max = ^uint64(0)
	}
	switch r.n(5) {
	case 0:
		return "0"
	case 1:
		return strconv.FormatUint(max, 10)
	case 2:
		return strconv.FormatUint(r.u64()&max, 10)
	case 3:
		return strconv.Itoa(r.n(100))
	}
	return strconv.FormatUint((r.u64()&max)>>uint(r.n(bits)), 10)
}

var floatToks = []string{"0", "-0", "1", "-1", "0.5", "1.25", "-3.75", "1e3", "1E3", "1e+2", "2.5e-3", "123456789.123", "0.1", "1e10", "-1.5E+5", "100000", "3.14159265358979", "0.000001", "12345678901234567890", "1e-7", "9007199254740993", "0.30000000000000004", "6.02e23", "12e0", "0e0", "0.0"}

func (g *gen) floatTok(bits int) string {
	switch g.r.n(4) {
	case 0:
		f := float64(int64(g.r.u64())>>g.r.n(60)) / float64(int64(1)<<g.r.n(30))
		if bits == 32 {
			return strconv.FormatFloat(float64(float32(f)), 'g', -1, 32)
		}
		return strconv.FormatFloat(f, "gef"[g.r.n(3)], -1, 64)
	default:
		return floatToks[g.r.n(len(floatToks))]
	}
}

// anyValue writes an arbitrary value.
func (g *gen) anyValue() {
	g.depth++
	defer func() { g.depth-- }()
	g.budget--
	w := 3
	if g.depth > 5 || g.budget <= 0 {
		w = 0
	}
	switch g.r.pickW(2, 2, 2, 4, 6, w, w) {
	case 0:
		g.s("null")
	case 1:
		g.s("true")
	case 2:
		g.s("false")
	case 3:
		g.s(g.floatTok(64))
	case 4:
		g.str()
	case 5:
		g.b = append(g.b, '[')
		n := g.r.n(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.sp()
				g.b = append(g.b, ',')
			}
			g.sp()
			g.anyValue()
		}
		g.sp()
		g.b = append(g.b, ']')
	case 6:
		g.b = append(g.b, '{')
		n := g.r.n(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.sp()
				g.b = append(g.b, ',')
			}
			g.sp()
			// distinct keys
			g.s(`"`)
			g.s(strconv.Itoa(i))
			g.atom()
			g.s(`"`)
			g.sp()
			g.b = append(g.b, ':')
			g.sp()
			g.anyValue()
		}
		g.sp()
		g.b = append(g.b, '}')
	}
}

// deep writes a deeply nested value.
func (g *gen) deep(n int) {
	var close []byte
	for i := 0; i < n; i++ {
		g.sp()
		if g.r.p(1, 2) {
			g.b = append(g.b, '[')
			if g.r.p(1, 4) {
				g.s("1 ,")
			}
			if g.r.p(1, 6) {
				close = append(close, ']', ' ', '2', ',')
			} else {
				close = append(close, ']')
			}
		} else {
			g.b = append(g.b, '{')
			g.s(`"k":`)
			if g.r.p(1, 6) {
				close = append(close, '}', '3', ':', '"', 'l', '"', ',')
			} else {
				close = append(close, '}')
			}
		}
	}
	g.sp()
	g.s([]string{"[]", "{}", "0", `"x"`, "null", `[{}]`}[g.r.n(6)])
	for i := len(close) - 1; i >= 0; i-- {
		g.b = append(g.b, close[i])
	}
}

func (g *gen) list(n int, f func(i int)) {
	for i := 0; i < n; i++ {
		if i > 0 {
			g.sp()
			g.b = append(g.b, ',')
		}
		g.sp()
		f(i)
	}
	g.sp()
}

func (g *gen) count() int {
	if g.budget <= 0 || g.depth > 6 {
		return 0
	}
	if g.huge > 0 && g.depth <= 2 && g.r.p(1, 2) {
		n := g.huge / 24
		if n > 1200 {
			n = 1200
		}
		g.huge = 0
		return n
	}
	n := g.r.n(4)
	if g.r.p(1, 8) {
		n = g.r.n(12)
	}
	if g.size > 60 && g.depth <= 2 && g.r.p(1, 3) {
		n = g.r.n(g.size / 2)
	}
	return n
}

var (
	jvalT = reflect.TypeOf(JVal{})
	jptrT = reflect.TypeOf(JPtr{})
	tvalT = reflect.TypeOf(TVal{})
	tptrT = reflect.TypeOf(TPtr{})
	tkeyT = reflect.TypeOf(TKey{})
)

// value writes a document that decodes without error into t.
func (g *gen) value(t reflect.Type) { g.valueQ(t, false) }

func (g *gen) valueQ(t reflect.Type, quoted bool) {
	g.depth++
	defer func() { g.depth-- }()
	g.budget--
	switch t {
	case jvalT, jptrT:
		g.anyValue()
		return
	case tvalT, tptrT, tkeyT:
		g.str()
		return
	case rmT:
		g.anyValue()
		return
	case nuT:
		if !quoted && g.r.p(1, 4) {
			g.s(`"` + g.floatTok(64) + `"`)
			return
		}
		g.s(g.floatTok(64))
		return
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface:
		if !quoted && !g.noNull && g.r.p(1, 9) {
			g.s("null")
			return
		}
	}
	q := ""
	if quoted {
		if !g.noNull && g.r.p(1, 9) {
			g.s("null")
			return
		}
		q = `"`
	}
	switch t.Kind() {
	case reflect.Bool:
		g.s(q + g.r.pick("true", "false") + q)
	case reflect.String:
		if quoted {
			g.s(`"\"` + g.r.pick("abc", "", "x y", "q") + `\""`)
			return
		}
		g.str()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		g.s(q + g.intTok(t.Bits(), true) + q)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		g.s(q + g.intTok(t.Bits(), false) + q)
	case reflect.Float32, reflect.Float64:
		g.s(q + g.floatTok(t.Bits()) + q)
	case reflect.Interface:
		if t.NumMethod() > 0 {
			g.s("null")
			return
		}
		g.anyValue()
	case reflect.Ptr:
		g.valueQ(t.Elem(), quoted)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && t.Elem() == reflect.TypeOf(byte(0)) && g.r.p(3, 4) {
			raw := make([]byte, g.r.n(12))
			if g.longStr && g.r.p(1, 3) {
				raw = make([]byte, g.r.in(40, 500))
			}
			for i := range raw {
				raw[i] = byte(g.r.u64())
			}
			g.s(`"` + base64.StdEncoding.EncodeToString(raw) + `"`)
			return
		}
		g.b = append(g.b, '[')
		g.list(g.count(), func(int) { g.value(t.Elem()) })
		g.b = append(g.b, ']')
	case reflect.Array:
		n := t.Len()
		switch g.r.n(6) {
		case 0:
			n = g.r.n(n + 1)
		case 1:
			n += g.r.n(3)
		}
		g.b = append(g.b, '[')
		g.list(n, func(int) { g.value(t.Elem()) })
		g.b = append(g.b, ']')
	case reflect.Map:
		n := g.count()
		if n > g.maxKey {
			n = g.maxKey
		}
		g.b = append(g.b, '{')
		used := map[string]bool{}
		g.list(n, func(i int) {
			g.b = append(g.b, '"')
			switch k := t.Key(); k.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
				reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
				for {
					signed := k.Kind() <= reflect.Int64
					s := g.intTok(k.Bits(), signed)
					if g.r.p(2, 3) {
						s = strconv.Itoa(g.r.n(100))
					}
					if !used[s] {
						used[s] = true
						g.s(s)
						break
					}
				}
			default:
				g.s(strconv.Itoa(i))
				if g.r.p(1, 2) {
					g.atom()
				}
			}
			g.b = append(g.b, '"')
			g.sp()
			g.b = append(g.b, ':')
			g.sp()
			g.value(t.Elem())
		})
		g.b = append(g.b, '}')
	case reflect.Struct:
		type fld struct {
			name string
			typ  reflect.Type
			q    bool
			alt  bool // the name of another tag
			lvl  int
		}
		var fs []fld
		var collect func(t reflect.Type, lvl int)
		collect = func(t reflect.Type, lvl int) {
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if f.Anonymous && lvl < 2 {
					ft := f.Type
					if ft.Kind() == reflect.Ptr {
						ft = ft.Elem()
					}
					collect(ft, lvl+1)
					continue
				}
				tag := f.Tag.Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				if name == "" {
					name = f.Name
				}
				q := false
				for _, o := range parts[1:] {
					if o == "string" {
						q = true
					}
				}
				switch k := f.Type; {
				case k.Kind() == reflect.Ptr:
					k = k.Elem()
					fallthrough
				default:
					q = q && (k.Kind() <= reflect.Uintptr && k.Kind() >= reflect.Bool || k.Kind() == reflect.String)
				}
				fs = append(fs, fld{name, f.Type, q, false, lvl})
				if jz := f.Tag.Get("jz"); jz != "" && !g.noUnknown {
					fs = append(fs, fld{strings.Split(jz, ",")[0], f.Type, false, true, lvl})
				}
			}
		}
		collect(t, 0)
		// duplicate members are merged in different ways
		for i := 0; i < len(fs); i++ {
			for j := 0; j < i; j++ {
				if fs[j].alt && strings.EqualFold(fs[i].name, fs[j].name) {
					fs = append(fs[:j], fs[j+1:]...)
					i--
					break
				}
				if fs[i].alt && strings.EqualFold(fs[i].name, fs[j].name) {
					fs = append(fs[:i], fs[i+1:]...)
					i--
					break
				}
			}
		}
		// the less deep one of two fields with the same name is meant, and
		// neither of two as deep
		for i := 0; i < len(fs); i++ {
			for j := 0; j < i; j++ {
				if fs[i].name != fs[j].name || fs[i].alt || fs[j].alt {
					continue
				}
				k := i
				if fs[j].lvl > fs[i].lvl {
					fs[j] = fs[i]
				} else if fs[j].lvl == fs[i].lvl && g.noUnknown {
					fs = append(fs[:i], fs[i+1:]...)
					k = j
					i--
				}
				fs = append(fs[:k], fs[k+1:]...)
				i--
				break
			}
		}
		// a random subset in a random order
		for i := len(fs) - 1; i > 0; i-- {
			j := g.r.n(i + 1)
			fs[i], fs[j] = fs[j], fs[i]
		}
		n := len(fs)
		if g.r.p(1, 3) || g.budget <= 0 {
			n = g.r.n(n + 1)
		}
		if g.budget <= 0 && n > 2 {
			n = 2
		}
		if g.depth > 7 {
			n = 0
		}
		fs = fs[:n]
		if !g.noUnknown && g.r.p(1, 4) {
			fs = append(fs, fld{name: "__unknown" + strconv.Itoa(g.r.n(3))})
			if len(fs) > 1 && g.r.p(1, 2) {
				k := g.r.n(len(fs) - 1)
				fs[k], fs[len(fs)-1] = fs[len(fs)-1], fs[k]
			}
		}
		g.b = append(g.b, '{')
		g.list(len(fs), func(i int) {
			f := fs[i]
			g.key(f.name)
			g.sp()
			g.b = append(g.b, ':')
			g.sp()
			if f.typ == nil {
				if g.r.p(1, 15) {
					g.deep(g.r.in(60, 140))
				} else {
					g.anyValue()
				}
			} else {
				g.valueQ(f.typ, f.q)
			}
		})
		g.b = append(g.b, '}')
	default:
		g.s("null")
	}
}

// doc generates a document for the named type.
func genDoc(r *rng, ti *typeInfo, size int, opt func(*gen)) []byte {
	g := newGen(r, size)
	if opt != nil {
		opt(g)
	}
	if ti.typ.Kind() == reflect.Interface && r.p(1, 8) {
		g.deep(r.in(1, 140))
	} else {
		g.value(ti.typ)
	}
	return g.b
}

// corrupt damages a document somewhere (the result may or may not be valid).
func corrupt(r *rng, doc []byte) []byte {
	d := append([]byte(nil), doc...)
	if len(d) == 0 {
		return []byte("x")
	}
	for k := r.in(1, 2); k > 0; k-- {
		i := r.n(len(d))
		switch r.n(6) {
		case 0:
			d = append(d[:i], d[i+1:]...)
		case 1:
			d[i] = "{}[],:\"\\0123456789-+.eE tfnu\x00\x1f\x7f\xff"[r.n(32)]
		case 2:
			d = append(d[:i], append([]byte{"{}[],:\"\\019-+.eE tfn\x01"[r.n(21)]}, d[i:]...)...)
		case 3:
			d = d[:i]
		case 4:
			d = append(d, ` ,1]}"x`[r.n(7)])
		case 5:
			j := i + r.n(len(d)-i)
			d = append(d[:i], d[j:]...)
		}
		if len(d) == 0 {
			d = []byte("]")
		}
	}
	return d
}
