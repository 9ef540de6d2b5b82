package main

import (
	"strings"

	"sort"
	"strconv"

	"verif.local/sim/simrt"
	"verif.local/sim/ssync"
)

// builder makes one scenario.
type builder struct {
	r  *rng
	sc *scenario
	// options of the generated operations
	std     bool // only what encoding/json can judge
	nest    int
	noCb    bool
	types   []string // preferred types
	sizeMax int
	noPad   bool
	noFill  bool
	presets bool // some of the targets hold something before
}

// generate makes scenario number idx of a property from the seed.
func generate(prop string, seed uint64, idx int) *scenario {
	r := newRng(hashString(prop) ^ seed*0x9e3779b97f4a7c15 ^ uint64(idx)*0xd1342543de82ef95)
	r.u64()
	b := &builder{r: r, sizeMax: 40}
	b.sc = &scenario{Prop: prop, Seed: seed, Index: idx, Budget: 60e6, PoolSeed: r.u64(), MapSeed: r.u64(), SchedSeed: r.u64()}
	b.pool()
	f, ok := gens[prop]
	if !ok {
		panic("harness: no generator for " + prop)
	}
	switch prop {
	case "C01", "C03", "C06", "C07", "C08", "C09", "C10", "C11", "C12":
		b.presets = true
	}
	f(b)
	b.strategy()
	for _, t := range b.sc.Tasks {
		for _, o := range t.Ops {
			o.Text = ""
		}
	}
	return b.sc
}

var gens = map[string]func(*builder){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C07": genC07,
	"C08": genC08, "C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12, "C13": genC13, "C14": genC14,
}

func (b *builder) pool() {
	r := b.r
	p := ssync.PoolPolicy{Order: r.n(3)}
	p.NewP = uint32([]int{0, 0, 0, 40, 160}[r.n(5)])
	p.DropP = uint32([]int{0, 0, 0, 40, 160}[r.n(5)])
	b.sc.Pool = p
}

// strategy chooses how the tasks are interleaved.
func (b *builder) strategy() {
	r := b.r
	if len(b.sc.Tasks) <= 1 {
		b.sc.Strategy = simrt.Strategy{Kind: "serial"}
		return
	}
	est := 0
	b.sc.walk(func(o *op) { est += 1500 + 20*len(o.Doc) })
	switch r.pickW(4, 4, 3, 1) {
	case 0:
		b.sc.Strategy = simrt.Strategy{Kind: "random", Gap: uint64([]int{2, 5, 15, 50, 200, 1000}[r.n(6)]), SyncP: uint32(r.n(200))}
	case 1:
		l := uint64(est)
		if r.p(1, 2) {
			l = uint64(r.in(100, est+100)) // the first steps, where the types are built
		}
		b.sc.Strategy = simrt.Strategy{Kind: "pct", Depth: r.in(1, 8), Length: l}
	case 2:
		b.sc.Strategy = simrt.Strategy{Kind: "sync", SyncP: uint32(r.in(20, 230))}
	case 3:
		b.sc.Strategy = simrt.Strategy{Kind: "serial"}
	}
}

func (b *builder) cfg(kinds ...string) int {
	k := kinds[b.r.n(len(kinds))]
	for i, c := range b.sc.Cfgs {
		if c.Kind == k && b.r.p(7, 8) {
			return i
		}
	}
	b.sc.Cfgs = append(b.sc.Cfgs, cfgSpec{Kind: k})
	return len(b.sc.Cfgs) - 1
}

// anyCfg picks a config suited to the oracle in use.
func (b *builder) anyCfg() int {
	if b.std {
		return b.cfg("default", "default", "usenumber", "nohtml", "disallow")
	}
	return b.cfg(cfgKinds...)
}

func (b *builder) typ() *typeInfo {
	if len(b.types) > 0 && b.r.p(3, 4) {
		return byName[b.types[b.r.n(len(b.types))]]
	}
	names := decNames
	if b.noCb {
		names = plainDec
	}
	return byName[names[b.r.n(len(names))]]
}

// focus restricts most of the operations to a few types.
func (b *builder) focus(n int) {
	b.types = nil
	for i := 0; i < n; i++ {
		b.types = append(b.types, decNames[b.r.n(len(decNames))])
	}
}

// derived restricts most of the operations to types made from the same one.
func (b *builder) derived() {
	base := derivedNames[b.r.n(derivedBases)][2:]
	var all []string
	for _, n := range derivedNames {
		if strings.Contains(n, base) {
			all = append(all, n)
		}
	}
	b.types = nil
	for i := b.r.in(3, 8); i > 0; i-- {
		b.types = append(b.types, all[b.r.n(len(all))])
	}
}

func (b *builder) size() int {
	r := b.r
	switch r.n(8) {
	case 0:
		return r.in(b.sizeMax, 3*b.sizeMax)
	case 1, 2:
		return r.in(1, 4)
	}
	return r.in(2, b.sizeMax)
}

func (b *builder) doc(ti *typeInfo, cfg int) []byte {
	kind := b.sc.Cfgs[cfg].Kind
	return genDoc(b.r.fork(), ti, b.size(), func(g *gen) {
		if kind == "disallow" && (b.std || b.sc.Oracle.Model || b.r.p(7, 8)) {
			g.noUnknown = true
		}
	})
}

func (b *builder) cfgOfVia(o *op) {
	// package functions use the default config
	if isPkg(o.Via) {
		for i, c := range b.sc.Cfgs {
			if c.Kind == "default" {
				o.Cfg = i
				return
			}
		}
		b.sc.Cfgs = append(b.sc.Cfgs, cfgSpec{Kind: "default"})
		o.Cfg = len(b.sc.Cfgs) - 1
	}
}

// chunks makes a reader for n bytes.
func (b *builder) reader(n int) *readerSpec {
	r := b.r
	sp := &readerSpec{EOFData: r.p(1, 4), Scribble: r.p(1, 5)}
	switch r.pickW(3, 3, 3, 3, 2, 1) {
	case 0: // byte by byte
		sp.Rest = 1
	case 1: // small constant
		sp.Rest = r.in(2, 9)
	case 2: // one split at a random place
		if n > 0 {
			sp.Chunks = []int{r.in(1, n)}
		}
	case 3: // random sizes
		for i, m := 0, r.in(2, 40); i < m; i++ {
			sp.Chunks = append(sp.Chunks, r.in(1, 1+r.n(20)))
		}
		sp.Rest = r.in(1, 70)
	case 4: // around the initial window
		sp.Rest = r.in(60, 70)
	case 5: // everything at once
	}
	if r.p(1, 4) {
		for k := r.in(1, 4); k > 0; k-- {
			if len(sp.Chunks) == 0 {
				for i := 0; i < r.n(6); i++ {
					sp.Chunks = append(sp.Chunks, max(sp.Rest, 1))
				}
			}
			i := r.n(len(sp.Chunks) + 1)
			k := 1
			if r.p(1, 8) { // a reader that delivers nothing for a while
				k = r.in(2, 1<<r.in(2, 7))
			}
			sp.Chunks = append(sp.Chunks[:i], append(make([]int, k), sp.Chunks[i:]...)...)
		}
	}
	return sp
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// fault makes the reader fail at some place of the stream; marks are places of
// interest.
func (b *builder) fault(n int, marks []int, kinds ...string) *rfault {
	r := b.r
	f := &rfault{Kind: kinds[r.n(len(kinds))], Data: r.p(1, 2)}
	if f.Kind == "err" && r.p(1, 3) {
		f.Err = r.pick(rerrKinds...)
	}
	f.At = r.n(n + 1)
	if len(marks) > 0 && r.p(1, 2) {
		f.At = marks[r.n(len(marks))] + r.in(-1, 1)
		if f.At < 0 {
			f.At = 0
		}
		if f.At > n {
			f.At = n
		}
	}
	return f
}

var unmVias = []string{"reader", "reader", "iterr", "pkgreader", "bytes", "string", "iter", "pkg", "pkgstring", "bytes.Reader", "strings.Reader", "bytes.Buffer"}

func (b *builder) unm(vias ...string) *op {
	r := b.r
	o := &op{Kind: "unm", Via: vias[r.n(len(vias))], Cfg: b.anyCfg()}
	b.cfgOfVia(o)
	ti := b.typ()
	o.Type = ti.name
	o.Doc = b.doc(ti, o.Cfg)
	if r.p(1, 3) {
		o.Doc = b.pad(o.Doc)
	}
	o.R = b.reader(len(o.Doc))
	if o.Via == "iter" || o.Via == "iterr" {
		o.Ctx = r.p(1, 4)
	}
	if b.presets && r.p(1, 6) {
		b.preset(o)
	}
	return o
}

func (b *builder) pad(doc []byte) []byte {
	var d []byte
	for i := b.r.n(4); i > 0; i-- {
		d = append(d, " \t\r\n"[b.r.n(4)])
	}
	d = append(d, doc...)
	for i := b.r.n(4); i > 0; i-- {
		d = append(d, " \t\r\n"[b.r.n(4)])
	}
	return d
}

func (b *builder) dirty(o *op) *op {
	o.Doc = corrupt(b.r, o.Doc)
	o.Dirty = true
	o.R = b.reader(len(o.Doc))
	return o
}

func (b *builder) valid() *op {
	r := b.r
	o := &op{Kind: "valid", Via: r.pick("pkg", "iter"), Cfg: b.anyCfg()}
	b.cfgOfVia(o)
	g := newGen(r.fork(), b.size())
	if r.p(1, 4) {
		g.deep(r.in(1, 140))
	} else {
		g.anyValue()
	}
	o.Doc = b.pad(g.b)
	if r.p(1, 3) {
		o.Doc = corrupt(r, o.Doc)
	}
	return o
}

func (b *builder) iter(reader bool) *op {
	r := b.r
	o := &op{Kind: "iter", Via: "bytes", Cfg: b.anyCfg()}
	if reader {
		o.Via = "reader"
	}
	g := newGen(r.fork(), b.size()*2)
	switch r.n(6) {
	case 0:
		g.deep(r.in(1, 90))
	case 1:
		ti := b.typ()
		g.value(ti.typ)
	default:
		for i := 0; i < 3 && len(g.b) < 12; i++ {
			g.b = nil
			g.anyValue()
		}
	}
	o.Doc = b.pad(g.b)
	o.R = b.reader(len(o.Doc))
	for i := r.in(5, 40); i > 0; i-- {
		o.Choice = append(o.Choice, r.n(1000))
	}
	o.Ctx = r.p(1, 4)
	return o
}

// an integer target needs a separator that is not part of a number
func (b *builder) sep() string {
	r := b.r
	switch r.n(6) {
	case 0:
		return " "
	case 1:
		return "\n"
	case 2:
		s := ""
		for i := r.in(1, 6); i > 0; i-- {
			s += string(" \t\r\n"[r.n(4)])
		}
		return s
	case 3:
		s := ""
		for i := r.in(1, 100); i > 0; i-- {
			s += " "
		}
		return s
	case 4:
		return "\r\n"
	}
	return ""
}

func (b *builder) dstream(nMax int, acts bool) *op {
	r := b.r
	o := &op{Kind: "dstream", Cfg: b.anyCfg()}
	o.Via = []string{"dec", "dec", "dec", "it", "it", "pkgdec", "decbuf", "itbuf", "itbytes"}[r.n(9)]
	b.cfgOfVia(o)
	dec := o.Via == "dec" || o.Via == "pkgdec" || o.Via == "decbuf"
	if dec {
		o.UseNumber = r.p(1, 6)
		o.Disallow = false
	}
	n := r.in(1, nMax)
	need := false // the previous value needs a separator
	for i := 0; i < n; i++ {
		v := &sval{Act: "decode"}
		if acts {
			if dec {
				v.Act = r.pick("decode", "decode", "decode", "any", "raw")
			} else {
				v.Act = r.pick("decode", "decode", "any", "raw", "read", "skip", "skipraw", "readraw", "appendraw")
			}
		}
		ti := b.typ()
		if v.Act == "any" || v.Act == "read" {
			if r.p(1, 2) {
				ti = byName["any"]
			}
		}
		v.Type = ti.name
		v.Doc = b.doc(ti, o.Cfg)
		if v.Act == "any" || v.Act == "read" {
			v.Type = "any"
		}
		if b.presets && v.Act == "decode" && r.p(1, 6) {
			v.Preset = b.presetFor(v.Type)
			switch v.Preset.Kind {
			case "ptr", "chain", "pp":
				// the value must fit what is pointed to
				v.Preset.Type, v.Preset.Doc = "any", nil
			}
		}
		if r.p(1, 3) {
			v.Pre |= 1
		}
		sep := b.sep()
		c := v.Doc[0]
		number := c == '-' || (c >= '0' && c <= '9')
		if i > 0 && sep == "" && (need || number) {
			sep = r.pick(" ", "\n")
		}
		if i == 0 && r.p(2, 3) {
			sep = ""
		}
		o.Seps = append(o.Seps, sep)
		o.Vals = append(o.Vals, v)
		need = number
	}
	if r.p(1, 2) {
		o.Seps = append(o.Seps, b.sep())
	} else {
		o.Seps = append(o.Seps, "")
	}
	o.N = r.n(2)
	o.R = b.reader(o.streamLen())
	return o
}

func (o *op) streamLen() int {
	n := 0
	for _, v := range o.Vals {
		n += len(v.Doc)
	}
	for _, s := range o.Seps {
		n += len(s)
	}
	return n
}

// marks are the ends of the values of a stream.
func (o *op) marks() []int {
	var m []int
	n := 0
	for i, v := range o.Vals {
		n += len(o.Seps[i])
		m = append(m, n)
		n += len(v.Doc)
		m = append(m, n)
	}
	return m
}

// encoding operations

func (b *builder) sval() *sval {
	r := b.r
	if r.p(1, 12) {
		return &sval{Bad: goodKinds[r.n(len(goodKinds))]}
	}
	ti := b.typ()
	v := &sval{Type: ti.name}
	v.Doc = genDoc(r.fork(), ti, b.size(), nil)
	if r.p(1, 2) {
		v.Pre = 8
	}
	if !b.noPad && r.p(1, 4) {
		v.Pre |= 32
	}
	if !b.noFill && r.p(1, 16) {
		v.Fill = hugeSize(r)
	}
	return v
}

func (b *builder) marshal() *op {
	r := b.r
	o := &op{Kind: "marshal", Via: r.pick("marshal", "marshal", "pkg", "streamer"), Cfg: b.anyCfg()}
	b.cfgOfVia(o)
	v := b.sval()
	o.Type, o.Doc, o.Bad, o.N, o.Fill = v.Type, v.Doc, v.Bad, v.Pre, v.Fill
	if o.Via == "streamer" {
		o.SetHTML = r.p(1, 3)
		o.NoHTML = r.p(1, 2)
		o.Ctx = r.p(1, 4)
	}
	return o
}

func (b *builder) estream(n int) *op {
	r := b.r
	o := &op{Kind: "estream", Via: r.pick("enc", "enc", "pkgenc"), Cfg: b.anyCfg()}
	b.cfgOfVia(o)
	o.SetHTML = r.p(1, 3)
	o.NoHTML = r.p(1, 2)
	for i := r.in(1, n); i > 0; i-- {
		o.Vals = append(o.Vals, b.sval())
	}
	return o
}

// streamer makes a program and the document it writes.
func (b *builder) streamer(vals bool) *op {
	r := b.r
	o := &op{Kind: "streamer", Via: "st", Cfg: b.anyCfg()}
	o.SetHTML = r.p(1, 3)
	o.NoHTML = r.p(1, 2)
	o.Ctx = r.p(1, 4)
	left := b.size() + 3
	add := func(p *sop) {
		o.Prog = append(o.Prog, p)
		if r.p(1, 9) {
			o.Prog = append(o.Prog, &sop{K: "flush"})
		}
	}
	text := func(s string) { o.Doc = append(o.Doc, s...) }
	okDoc := true
	var val func(depth int)
	val = func(depth int) {
		left--
		k := r.pickW(3, 3, 2, 2, 2, 2, 2, 2, 1)
		if depth == 0 {
			k = 7 + r.n(2)
		} else if (left <= 0 || depth > 5) && k >= 7 {
			k = 0
		}
		switch k {
		case 0:
			i := int64(r.u64()) >> uint(r.n(63))
			kind := r.pick("i", "i64", "i32", "i16", "i8")
			switch kind {
			case "i32":
				i = int64(int32(i))
			case "i16":
				i = int64(int16(i))
			case "i8":
				i = int64(int8(i))
			}
			add(&sop{K: kind, I: i})
			text(strconv.FormatInt(i, 10))
		case 1:
			s := ""
			for j := r.n(4); j > 0; j-- {
				s += strAtoms[r.n(len(strAtoms))]
			}
			if r.p(1, 8) {
				for j := r.n(100); j > 0; j-- {
					s += "long "
				}
			}
			add(&sop{K: "s", S: s})
			text(jsonQuote(s))
		case 2:
			add(&sop{K: "n"})
			text("null")
		case 3:
			x := r.n(2)
			if r.p(1, 2) {
				add(&sop{K: "b", I: int64(x)})
			} else {
				add(&sop{K: []string{"f", "t"}[x]})
			}
			text([]string{"false", "true"}[x])
		case 4:
			u := int64(r.u64() >> uint(1+r.n(62)))
			kind := r.pick("u", "u64", "u32", "u16", "u8")
			switch kind {
			case "u32":
				u = int64(uint32(u))
			case "u16":
				u = int64(uint16(u))
			case "u8":
				u = int64(uint8(u))
			}
			add(&sop{K: kind, I: u})
			text(strconv.FormatInt(u, 10))
		case 5:
			f := float64(r.in(-4000, 4000)) / 8
			add(&sop{K: r.pick("f64", "f32"), F: f})
			text(strconv.FormatFloat(f, 'f', -1, 64))
		case 6:
			if vals && r.p(2, 3) {
				v := b.sval()
				for tries := 0; v.mapOrder() && tries < 20; tries++ {
					v = b.sval()
				}
				if v.mapOrder() {
					v = &sval{Type: "int", Doc: []byte("5")}
				}
				o.Vals = append(o.Vals, v)
				add(&sop{K: "v", I: int64(len(o.Vals) - 1)})
				okDoc = false
				text("0")
				return
			}
			s := r.pick(`{"raw":[1,2,{"x":"y"}]}`, `[]`, `"r"`, `12`)
			add(&sop{K: r.pick("rs", "raw"), S: s})
			text(s)
		case 7:
			add(&sop{K: "["})
			text("[")
			n := r.n(5)
			if depth == 0 {
				n = r.in(1, 8)
			}
			for j := 0; j < n; j++ {
				if j > 0 {
					text(",")
				}
				val(depth + 1)
			}
			add(&sop{K: "]"})
			text("]")
		case 8:
			add(&sop{K: "{"})
			text("{")
			n := r.n(5)
			if depth == 0 {
				n = r.in(1, 8)
			}
			for j := 0; j < n; j++ {
				if j > 0 {
					text(",")
				}
				key := "k" + strconv.Itoa(j)
				if r.p(1, 4) {
					o.Prog = append(o.Prog, &sop{K: "RF", S: key})
				} else {
					key += r.pick("", "<", "é", "\"")
					o.Prog = append(o.Prog, &sop{K: "F", S: key})
				}
				text(jsonQuote(key) + ":")
				val(depth + 1)
			}
			add(&sop{K: "}"})
			text("}")
		}
	}
	val(0)
	if !okDoc {
		o.Doc = nil
	}
	return o
}

func jsonQuote(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		default:
			b = append(b, c)
		}
	}
	return string(append(b, '"'))
}

// writer makes a failing writer for about n bytes.
func (b *builder) writerFaults(n int, kinds ...string) *writerSpec {
	r := b.r
	w := &writerSpec{}
	at := 0
	for k := r.in(1, 4); k > 0; k-- {
		f := &wfault{Kind: kinds[r.n(len(kinds))]}
		if r.p(1, 3) {
			f.Err = r.pick(werrKinds...)
		}
		at += r.n(n + 2)
		if r.p(1, 4) {
			at = r.n(n + 2)
		}
		f.At = at
		w.Faults = append(w.Faults, f)
		if f.Kind == "dead" || f.Kind == "panic" {
			break
		}
	}
	sort.Slice(w.Faults, func(i, j int) bool { return w.Faults[i].At < w.Faults[j].At })
	return w
}

// cb puts actions in the callbacks of an operation, if it has any.
func (b *builder) cb(o *op, n int, acts ...string) bool {
	cbs, _, _ := b.sc.dry(o)
	if cbs == 0 {
		return false
	}
	for i := 0; i < n; i++ {
		a := &cbAct{N: b.r.n(cbs), Act: acts[b.r.n(len(acts))]}
		if a.Act == "err" && b.r.p(1, 2) {
			a.Err = cbErrKinds[b.r.n(len(cbErrKinds))]
		}
		if a.Act == "nested" {
			a.Op = b.small()
			a.Op.Slot = 0
		}
		o.CB = append(o.CB, a)
	}
	return true
}

// cbTypes restricts the types to those with callbacks.
func (b *builder) cbTypes() {
	b.types = nil
	for _, n := range decNames {
		if byName[n].cb {
			b.types = append(b.types, n)
		}
	}
}

// small makes a small operation for nesting.
func (b *builder) small() *op {
	old, oldT := b.sizeMax, b.types
	b.sizeMax = 8
	defer func() { b.sizeMax, b.types = old, oldT }()
	b.nest++
	defer func() { b.nest-- }()
	b.types = nil
	var o *op
	switch b.r.n(8) {
	case 0, 1:
		o = b.unm(unmVias...)
	case 2:
		o = b.marshal()
	case 3:
		o = b.estream(2)
	case 4:
		o = b.dstream(3, true)
	case 5:
		o = b.iter(b.r.p(1, 2))
	case 6:
		o = b.streamer(false)
	case 7:
		o = b.valid()
	}
	o.Ctx = false
	if b.nest < 2 && b.r.p(1, 4) {
		b.cb(o, 1, "nested")
	}
	return o
}

// ------------------------------------------------------------------ properties

func (b *builder) task(ops ...*op) {
	b.sc.Tasks = append(b.sc.Tasks, &taskSp{Ops: ops})
}

func genC01(b *builder) {
	r := b.r
	b.std = true
	b.sc.Oracle = oracles{Bytes: true, Std: true, Model: true}
	if r.p(1, 5) {
		b.derived()
	}
	var ops []*op
	for i := r.in(2, 6); i > 0; i-- {
		switch r.pickW(8, 3, 4, 5, 1) {
		case 0:
			ops = append(ops, b.unm("reader", "reader", "iterr", "pkgreader", "bytes.Reader", "strings.Reader", "bytes.Buffer"))
		case 1:
			b.std = false
			ops = append(ops, b.dirty(b.unm("reader", "iterr", "pkgreader")))
			b.std = true
		case 2:
			o := b.dstream(4, true)
			for o.Via != "dec" && o.Via != "it" && o.Via != "pkgdec" {
				o = b.dstream(4, true)
			}
			ops = append(ops, o)
		case 3:
			ops = append(ops, b.iter(true))
		case 4:
			ops = append(ops, b.valid())
		}
	}
	b.task(ops...)
}

func genC02(b *builder) {
	r := b.r
	b.std = true
	b.sc.Oracle = oracles{Std: true, Model: true}
	quoted := r.p(1, 8) // tokens within strings
	if quoted {
		b.types = []string{"QuotedAll", "QuotedAll", r.pick("map[int]string", "map[uint16]*bool", "Keys", "KeyKinds"), r.pick(decNames...)}
	}
	var ops []*op
	for i := r.in(2, 5); i > 0; i-- {
		w := 3
		if quoted {
			w = 20
		}
		switch r.pickW(w, 6, 3) {
		case 0:
			o := b.unm("reader", "iterr", "pkgreader")
			o.R.Fault = b.fault(len(o.Doc), []int{len(o.Doc)}, "err", "eof")
			if quoted && r.p(3, 4) {
				var q []int
				for i, x := range o.Doc {
					if x == '"' {
						q = append(q, i, i+1)
					}
				}
				if len(q) > 0 {
					o.R.Fault.At = q[r.n(len(q))]
					o.R.Fault.Kind = "err"
				}
			}
			if o.R.Fault.Kind == "err" && (quoted || r.p(1, 3)) {
				o.R.Fault.Times = r.in(1, 2)
			}
			ops = append(ops, o)
		case 1:
			o := b.dstream(6, true)
			for o.Via != "dec" && o.Via != "it" && o.Via != "pkgdec" {
				o = b.dstream(6, true)
			}
			o.R.Fault = b.fault(o.streamLen(), o.marks(), "err", "err", "eof")
			if o.Via == "it" && o.R.Fault.Kind == "err" && r.p(2, 3) {
				o.R.Fault.Times = r.in(1, 2)
			}
			ops = append(ops, o)
		case 2:
			o := b.iter(true)
			o.R.Fault = b.fault(len(o.Doc), nil, "err", "eof")
			ops = append(ops, o)
		}
	}
	b.task(ops...)
}

func genC03(b *builder) {
	switch b.sc.Index {
	case 5:
		b.far(1<<31 + 1000)
		return
	case 400005:
		b.far(1<<32 + 1000)
		return
	}
	r := b.r
	b.std = true
	b.sc.Oracle = oracles{Std: true, Model: true}
	var ops []*op
	for i := r.in(1, 3); i > 0; i-- {
		if r.p(1, 5) {
			ops = append(ops, b.iter(r.p(3, 4)))
			continue
		}
		if r.p(1, 2) {
			b.focus(3)
		}
		o := b.dstream(14, true)
		if !o.Dirty && r.p(1, 4) {
			for _, v := range o.Vals {
				if r.p(1, 3) && v.Preset == nil {
					v.Misfit = r.in(1, 4)
				}
			}
		}
		if r.p(1, 8) {
			o.StopAfter = r.in(1, len(o.Vals))
		} else if !o.Dirty && o.Via != "decbuf" && r.p(1, 8) {
			o.Tail = r.pick("]", "}", ",", ":", "x", "]]", "\x00", "} 1")
		}
		ops = append(ops, o)
	}
	b.task(ops...)
}

func genC04(b *builder) {
	r := b.r
	b.sc.Oracle = oracles{Model: true}
	var ops []*op
	for i := r.in(1, 4); i > 0; i-- {
		var o *op
		if r.p(1, 2) {
			o = b.estream(5)
			n := 0
			for _, v := range o.Vals {
				n += len(v.Doc) + 1
			}
			if r.p(4, 5) {
				o.W = b.writerFaults(n, "err", "err", "full", "dead", "panic")
			}
		} else {
			o = b.streamer(true)
			if r.p(5, 6) {
				o.W = b.writerFaults(12*len(o.Prog)+4, "err", "err", "err", "full", "dead", "panic")
			}
		}
		if r.p(1, 10) {
			o.End = "abandon"
		}
		if o.Kind == "streamer" && r.p(1, 4) {
			o.Slot = 1
			o.End = "keep"
			o.SetHTML = true
		}
		ops = append(ops, o)
	}
	b.task(ops...)
}

func genC05(b *builder) {
	r := b.r
	b.sc.Oracle = oracles{Model: true, Solo: true}
	nt := []int{1, 1, 1, 2}[r.n(4)]
	for t := 0; t < nt; t++ {
		var ops []*op
		for i := r.in(2, 6); i > 0; i-- {
			b.types = nil
			if r.p(1, 2) {
				b.cbTypes()
			} else if r.p(1, 2) {
				b.derived()
			}
			var o *op
			switch r.pickW(4, 4, 2) {
			case 0:
				o = b.marshal()
				if r.p(1, 3) {
					o.Bad = badKinds[r.n(len(badKinds))]
				}
			case 1:
				o = b.estream(4)
				if r.p(1, 3) {
					o.Vals[r.n(len(o.Vals))].Bad = badKinds[r.n(len(badKinds))]
				}
			case 2:
				o = b.streamer(true)
				if len(o.Vals) > 0 && r.p(1, 3) {
					o.Vals[r.n(len(o.Vals))].Bad = badKinds[r.n(len(badKinds))]
				}
				if r.p(1, 3) {
					o.Slot = 1
					o.End = "keep"
					o.SetHTML = true
				}
			}
			if r.p(3, 5) {
				b.cb(o, 1, "err", "err", "panic")
			}
			ops = append(ops, o)
		}
		b.task(ops...)
	}
}

// mixed makes an operation of any kind.
func (b *builder) mixed() *op {
	r := b.r
	var o *op
	switch r.pickW(6, 5, 3, 3, 2, 2, 1) {
	case 0:
		o = b.unm(unmVias...)
	case 1:
		o = b.marshal()
	case 2:
		o = b.estream(3)
	case 3:
		o = b.dstream(4, true)
	case 4:
		o = b.iter(r.p(1, 2))
	case 5:
		o = b.streamer(true)
	case 6:
		o = b.valid()
	}
	return o
}

func genC06(b *builder) {
	r := b.r
	if b.sc.Index%200 == 0 {
		genFresh(b, r.in(2, 3))
		return
	}
	b.sc.Oracle = oracles{Solo: true}
	b.sizeMax = 12
	b.focus(r.in(1, 4))
	if r.p(1, 4) {
		b.types = []string{"Rec", "MutA", "MutB", "[]Rec", "map[string]*Rec", "HoldCust", "Mixed"}
	}
	if r.p(1, 4) {
		b.derived()
	}
	// few configs, shared
	shared := cfgKinds[r.n(len(cfgKinds))]
	b.sc.Cfgs = append(b.sc.Cfgs, cfgSpec{Kind: shared})
	nt := r.in(2, 5)
	same := r.p(1, 3) // all the tasks do the same thing
	var first []*op
	for t := 0; t < nt; t++ {
		var ops []*op
		for i := r.in(1, 3); i > 0; i-- {
			o := b.mixed()
			if !isPkg(o.Via) && r.p(4, 5) {
				o.Cfg = 0
				if shared == "disallow" {
					// the document may have unknown members: same outcome expected
					o.Dirty = true
				}
			}
			if r.p(1, 8) && o.Kind == "unm" {
				b.dirty(o)
			}
			if r.p(1, 6) {
				b.cb(o, 1, "err", "panic", "yield", "nested")
			}
			ops = append(ops, o)
		}
		if same && first != nil {
			ops = nil
			for _, o := range first {
				c := *o
				c.exp = nil
				ops = append(ops, &c)
			}
		}
		first = ops
		b.task(ops...)
	}
}

// mess makes an operation that leaves its objects in an unusual state.
func (b *builder) mess() *op {
	r := b.r
	var o *op
	switch r.n(7) {
	case 0: // failing decode
		o = b.dirty(b.unm(unmVias...))
	case 1: // interrupted stream, options switched on
		o = b.dstream(5, true)
		o.UseNumber = r.p(1, 2)
		o.Disallow = r.p(1, 2)
		o.Dirty = true
		o.StopAfter = r.in(1, len(o.Vals))
		if r.p(1, 2) {
			o.R.Fault = b.fault(o.streamLen(), nil, "err", "eof", "panic")
		}
	case 2:
		o = b.unm("reader", "iterr")
		o.R.Fault = b.fault(len(o.Doc), nil, "err", "eof", "panic")
		o.Dirty = true
	case 3:
		b.cbTypes()
		o = b.mixed()
		b.types = nil
		b.cb(o, 1, "err", "panic")
		o.Dirty = true
	case 4: // html switched
		o = b.estream(3)
		o.SetHTML = true
		o.NoHTML = r.p(1, 2)
		if r.p(1, 2) {
			o.Vals[r.n(len(o.Vals))].Bad = badKinds[r.n(len(badKinds))]
		}
		if r.p(1, 3) {
			o.W = b.writerFaults(60, "err", "dead", "panic", "full")
		}
	case 5:
		o = b.streamer(true)
		o.SetHTML = true
		if r.p(1, 2) {
			o.Prog = o.Prog[:r.n(len(o.Prog))+1] // unfinished
			o.Doc = nil
		}
		if r.p(1, 2) {
			o.W = b.writerFaults(60, "err", "dead", "panic", "full")
		}
	case 6: // iterator left in the middle
		o = b.iter(r.p(2, 3))
		if r.p(1, 2) && o.Via == "reader" {
			o.R.Fault = b.fault(len(o.Doc), nil, "err", "eof", "panic")
		}
	}
	if r.p(1, 6) {
		o.End = "abandon"
	}
	return o
}

func genC07(b *builder) {
	r := b.r
	if b.sc.Index%200 == 0 {
		genFresh(b, 1)
		return
	}
	b.sc.Oracle = oracles{Solo: true}
	b.sc.Pool.NewP = uint32([]int{0, 0, 0, 30}[r.n(4)])
	b.sc.Pool.DropP = uint32([]int{0, 0, 0, 30}[r.n(4)])
	b.sizeMax = 15
	nt := []int{1, 1, 1, 2}[r.n(4)]
	for t := 0; t < nt; t++ {
		var ops []*op
		for i := r.in(3, 8); i > 0; i-- {
			var o *op
			if r.p(1, 2) {
				o = b.mess()
			} else {
				o = b.mixed()
			}
			o.Ctx = r.p(1, 3)
			b.slot(o)
			ops = append(ops, o)
		}
		b.task(ops...)
	}
}

// slot makes the operation use an object kept over Reset.
func (b *builder) slot(o *op) {
	if !b.r.p(1, 4) || isPkg(o.Via) || o.End == "abandon" {
		return
	}
	switch o.Kind {
	case "unm":
		if o.Via != "iter" && o.Via != "iterr" {
			return
		}
	case "dstream":
		if o.Via[:2] != "it" {
			return
		}
	case "iter":
	case "streamer":
		o.SetHTML = true
	case "marshal":
		if o.Via != "streamer" {
			return
		}
		o.SetHTML = true
	default:
		return
	}
	o.Slot = b.r.in(1, 2)
	if b.r.p(4, 5) {
		o.End = "keep"
	}
}

func genC08(b *builder) {
	r := b.r
	b.sc.Oracle = oracles{Retain: true, Solo: r.p(1, 3)}
	b.sc.GCEnd = r.p(1, 3)
	nt := []int{1, 1, 2, 3}[r.n(4)]
	b.sc.Pool.NewP = uint32([]int{0, 0, 0, 30}[r.n(4)])
	for t := 0; t < nt; t++ {
		var ops []*op
		for i := r.in(2, 7); i > 0; i-- {
			o := b.mixed()
			if r.p(1, 7) {
				o = b.mess()
			}
			b.slot(o)
			ops = append(ops, o)
		}
		b.task(ops...)
	}
}

func genC09(b *builder) {
	r := b.r
	b.sc.Oracle = oracles{Solo: true, Model: true}
	b.sizeMax = 16
	nt := []int{1, 1, 2}[r.n(3)]
	for t := 0; t < nt; t++ {
		var ops []*op
		for i := r.in(1, 4); i > 0; i-- {
			b.cbTypes()
			if r.p(1, 4) {
				b.types = nil
			} else if r.p(1, 3) {
				b.derived()
			}
			var o *op
			if r.p(1, 6) {
				o = b.iter(r.p(1, 2))
			} else {
				o = b.mixed()
			}
			if r.p(4, 5) {
				b.cb(o, r.in(1, 3), "nested", "nested", "nested", "err", "panic", "yield")
			}
			if o.R != nil && r.p(1, 2) {
				b.events(&o.R.Events, 3, "nested")
			}
			if (o.Kind == "estream" || o.Kind == "streamer") && r.p(1, 2) {
				o.W = &writerSpec{}
				b.events(&o.W.Events, 3, "nested")
			}
			if o.R != nil && r.p(1, 8) && (o.Kind == "unm" || o.Kind == "dstream") {
				o.R.Fault = b.fault(len(o.Doc)+o.streamLen(), nil, "panic", "err")
				o.Dirty = true
			}
			ops = append(ops, o)
		}
		// and the library is still usable
		b.types = nil
		ops = append(ops, b.mixed())
		b.task(ops...)
	}
}

func (b *builder) events(evs *[]*event, n int, acts ...string) {
	for i := b.r.in(1, n); i > 0; i-- {
		e := &event{N: b.r.n(6), Act: acts[b.r.n(len(acts))]}
		if e.Act == "nested" {
			e.Op = b.small()
		}
		*evs = append(*evs, e)
	}
}

func genC10(b *builder) {
	r := b.r
	if b.sc.Index%100 == 0 {
		genFresh(b, []int{1, 1, 1, 2}[r.n(4)])
		return
	}
	b.sc.Oracle = oracles{Solo: true}
	b.sizeMax = 10
	kind := cfgKinds[r.n(len(cfgKinds))]
	b.sc.Cfgs = append(b.sc.Cfgs, cfgSpec{Kind: kind})
	nt := []int{1, 1, 1, 2, 3}[r.n(5)]
	b.focus(r.in(4, 12))
	if r.p(1, 2) {
		// related types
		fam := [][]string{
			{"Rec", "[]Rec", "map[string]*Rec", "MutA", "MutB", "*int", "[]*int"},
			{"Small", "*Small", "[]Small", "[]*Small", "[2]*Small", "map[NStr]Small", "Ptrs", "Large", "[]Large"},
			{"Cust", "HoldCust", "[]CInt", "any", "map[string]any"},
			{"JVal", "JPtr", "*JPtr", "[]JVal", "[]*JPtr", "map[string]JVal", "Mixed", "[]Mixed", "TVal", "TPtr", "[]TVal", "map[TKey]int", "map[TKey]JPtr"},
			{"One", "OnePtr", "OneMap", "OneStr", "Empty", "[1]*int", "[1]map", "Inner", "Inner2", "Embed", "Tagged"},
			{"same1", "same2", "same3", "same4"},
			{"bytes", "NBytes", "NBArr", "[4]byte", "Bin", "[]uint8s", "Keys", "Quoted", "OmitAll"},
		}
		b.types = fam[r.n(len(fam))]
	}
	if r.p(2, 3) {
		b.derived()
	}
	for t := 0; t < nt; t++ {
		var ops []*op
		for i := r.in(3, 10); i > 0; i-- {
			var o *op
			if r.p(1, 2) {
				o = b.unm("bytes", "reader", "iter", "string")
			} else {
				o = b.marshal()
			}
			if !isPkg(o.Via) && r.p(7, 8) {
				o.Cfg = 0
			}
			o.Dirty = true
			if o.Kind == "unm" && r.p(1, 6) {
				b.dirty(o)
			}
			if o.Kind == "marshal" && r.p(1, 6) {
				o.Bad = badKinds[r.n(len(badKinds))]
			}
			if r.p(1, 8) {
				b.cb(o, 1, "err", "panic")
			}
			ops = append(ops, o)
		}
		b.task(ops...)
	}
}

func genC11(b *builder) {
	r := b.r
	b.std = true
	b.sc.Oracle = oracles{Std: true, Retain: true, Model: true, Solo: true}
	b.sc.GCEnd = true
	nt := []int{1, 1, 2}[r.n(3)]
	for t := 0; t < nt; t++ {
		var ops []*op
		for i := r.in(1, 4); i > 0; i-- {
			b.types = nil
			if r.p(1, 3) {
				b.cbTypes()
			} else if r.p(1, 3) {
				b.derived()
			} else if r.p(1, 3) {
				b.types = []string{"map[string]string", "map[int]string", "Keys", "KeyKinds", "map[string]raw", "OneMap", "map[string][]int",
					"map[NStr]Small", "map[string]any", "map[TKey]int", "map[string]*Rec", "EmbLarge", "[]string", "[2]string", "Ptrs", "QuotedAll"}
			}
			o := b.mixed()
			if r.p(1, 2) {
				b.cb(o, r.in(1, 3), "gc", "gc", "grow")
			}
			if o.R != nil && r.p(2, 3) {
				b.events(&o.R.Events, 4, "gc", "gc", "grow")
			}
			if (o.Kind == "estream" || o.Kind == "streamer") && r.p(1, 2) {
				o.W = &writerSpec{}
				b.events(&o.W.Events, 3, "gc", "gc", "grow")
			}
			ops = append(ops, o)
		}
		b.task(ops...)
	}
	est := 500
	b.sc.walk(func(o *op) { est += 300 + 12*(len(o.Doc)+o.streamLen()) })
	for i := r.n(14); i > 0; i-- {
		b.sc.YieldGC = append(b.sc.YieldGC, uint64(r.in(1, est)))
	}
	if r.p(1, 2) {
		// before statements which allocate or work on raw memory, counted apart
		for i := r.in(1, 8); i > 0; i-- {
			b.sc.RawGC = append(b.sc.RawGC, uint64(r.in(1, 20+est/60)))
		}
		sort.Slice(b.sc.RawGC, func(i, j int) bool { return b.sc.RawGC[i] < b.sc.RawGC[j] })
	}
	sort.Slice(b.sc.YieldGC, func(i, j int) bool { return b.sc.YieldGC[i] < b.sc.YieldGC[j] })
}

func genC12(b *builder) {
	if b.sc.Index%1999 == 7 {
		b.nested(100000)
		return
	}
	r := b.r
	b.std = true
	b.sc.Oracle = oracles{Prompt: true, Progress: true, Model: true, Std: true}
	b.sc.Budget = 20e6
	var ops []*op
	for i := r.in(1, 3); i > 0; i-- {
		if r.p(1, 3) {
			b.sizeMax = 300
		} else {
			b.sizeMax = 30
		}
		var o *op
		switch r.pickW(6, 3, 3, 2, 2, 2, 1) {
		case 6: // values that are kept as a whole while they arrive
			o = &op{Kind: "unm", Via: r.pick("reader", "iterr"), Cfg: b.anyCfg(), Type: r.pick("any", "raw", "JVal", "string", "number", "bytes", "Empty")}
			o.Dirty = o.Type == "Empty" // unknown fields may be refused
			o.Doc = b.large(o.Type, r.in(4000, 40000))
			o.R = b.reader(len(o.Doc))
			if r.p(3, 4) {
				o.R.Rest = r.in(1, 1<<r.n(7))
			}
		case 5: // going on after failures
			types, size := b.types, b.sizeMax
			o = b.memOp("itany")
			o.N = r.in(2, 12)
			b.types, b.sizeMax = types, size
		case 0:
			o = b.dstream(8, true)
		case 1:
			o = b.iter(true)
		case 2:
			b.std = false
			o = b.dirty(b.unm("reader", "iterr", "bytes"))
			b.std = true
		case 3:
			o = b.unm(unmVias...)
		case 4: // pathological documents
			o = &op{Kind: "unm", Via: r.pick("reader", "bytes"), Cfg: b.anyCfg(), Type: r.pick("any", "raw", "Empty", "JVal"), Dirty: true}
			o.Doc = b.patho(r.in(100, 6000))
			o.R = b.reader(len(o.Doc))
		}
		if o.R != nil && o.Kind != "mem" && r.p(1, 4) {
			// a reader that never recovers, with the errors that could
			if o.Kind == "dstream" {
				o.R.Fault = b.fault(o.streamLen(), o.marks(), "err", "err", "eof")
			} else {
				o.R.Fault = b.fault(len(o.Doc), nil, "err", "err", "eof")
			}
			if o.R.Fault.Kind == "err" {
				o.R.Fault.Err = r.pick(rerrKinds...)
			}
		}
		if o.R != nil && r.p(1, 5) {
			for k := r.in(1, 30); k > 0; k-- {
				o.R.Chunks = append(o.R.Chunks, 0)
			}
		}
		ops = append(ops, o)
	}
	b.task(ops...)
}

// large makes a valid document of about n bytes for the type.
func (b *builder) large(typ string, n int) []byte {
	r := b.r
	rep := func(s string) string { return strings.Repeat(s, n/len(s)) }
	str := func() string { return `"` + rep(r.pick("a", `\u0041`, "ab\\n", "é", "0123456789abcdef")) + `"` }
	num := func() string { return r.pick("1", "0.", "1.", "-7.") + rep("1234567890") + r.pick("", "e1", "E-5") }
	switch typ {
	case "string":
		return []byte(str())
	case "number":
		return []byte(num())
	case "bytes":
		return []byte(`"` + rep("QUJD") + `"`)
	case "Empty":
		return []byte(`{"x":` + str() + `,"y":[` + rep("[1],") + `2]}`)
	}
	switch r.n(5) {
	case 0:
		return []byte(str())
	case 1:
		return []byte("[" + rep(r.pick("1,", "[{}],", `"abc",`, "  true , ")) + "null]")
	case 2:
		return []byte(`{"a":` + str() + `,"b":[` + rep("{},") + `0]}`)
	case 3:
		return []byte(`[` + str() + `,` + str() + `]`)
	}
	return []byte(rep(" ") + `[1]` + rep("\n"))
}

// patho makes long and monotonous documents.
func (b *builder) patho(n int) []byte {
	r := b.r
	rep := func(s string, n int) []byte {
		var d []byte
		for len(d) < n {
			d = append(d, s...)
		}
		return d
	}
	switch r.n(9) {
	case 0:
		return append(append([]byte{'"'}, rep(r.pick(`\u0041`, `\\`, `\"`, `\ud83d\ude00`, `a`, `\ud83d`), n)...), '"')
	case 1:
		return rep(" ", n)
	case 2:
		return append(rep(" ", n), []byte("null")...)
	case 3:
		return rep(r.pick("1", "-", "1e", "0.", "12345"), n)
	case 4:
		return rep("[", n/8)
	case 5:
		return rep(`{"a":`, n/8)
	case 6:
		d := append([]byte{'['}, rep(r.pick("1,", `"x",`, "null,", "[],", "{},"), n)...)
		return append(d, '0', ']')
	case 7:
		k := n / 10
		return append(append(rep("[", k), rep("]", k)...), rep("\n", r.n(100))...)
	}
	return append(append([]byte(`{"`), rep(r.pick(`k`, `\u006b`), n)...), []byte(`":1}`)...)
}

var pipeTypes []string

func init() {
	for _, n := range decNames {
		if n == "Tagged" {
			continue
		}
		pipeTypes = append(pipeTypes, n)
	}
}

func genC13(b *builder) {
	b.noPad = true // the white space does not arrive
	r := b.r
	b.std = true
	b.sc.Oracle = oracles{Model: true, Std: true}
	b.sizeMax = 12
	b.types = pipeTypes
	if r.p(1, 3) {
		b.focus(3)
	}
	cfg := b.cfg("default", "nohtml", "usenumber")
	pipe := func() int {
		p := &pipeSpec{Cap: []int{1, 2, 7, 16, 64, 513, 4096}[r.n(7)]}
		for i := r.n(6); i > 0; i-- {
			p.Frag = append(p.Frag, r.in(1, 1+r.n(80)))
		}
		b.sc.Pipes = append(b.sc.Pipes, p)
		return len(b.sc.Pipes) - 1
	}
	b.noFill = true
	for k := r.in(1, 2); k > 0; k-- {
		o := &op{Cfg: cfg}
		for i := r.in(1, 6); i > 0; i-- {
			v := b.sval()
			for v.Bad != "" {
				v = b.sval()
			}
			o.Vals = append(o.Vals, v)
		}
		if r.p(1, 2) {
			o.Kind = "psend"
			o.Pipe = pipe()
			switch r.n(5) {
			case 0:
				o.Vals[r.n(len(o.Vals))].Bad = badKinds[r.n(len(badKinds))]
			case 1:
				n := 0
				for _, v := range o.Vals {
					n += len(v.Doc) + 1
				}
				b.sc.Pipes[o.Pipe].BreakAt = r.in(1, n+1)
			case 2:
				b.cb(o, 1, "err", "panic")
			}
			b.task(o)
			rc := &op{Kind: "precv", Cfg: cfg, Pipe: o.Pipe, Via: r.pick("", "", "it")}
			if r.p(2, 3) {
				for i := 0; i < 6; i++ {
					rc.Choice = append(rc.Choice, r.n(16))
				}
			}
			b.task(rc)
		} else {
			o.Kind = "ping"
			o.Pipe = pipe()
			o.Pipe2 = pipe()
			b.task(o)
			b.task(&op{Kind: "pong", Cfg: cfg, Pipe: o.Pipe, Pipe2: o.Pipe2})
		}
	}
	if r.p(1, 4) { // somebody else uses the same config
		b.types = nil
		o := b.mixed()
		b.task(o)
	}
	// a value that the reference cannot carry is replaced
	b.sc.walk(func(o *op) {
		if o.Kind != "psend" && o.Kind != "ping" {
			return
		}
		var bad []bool
		alone(func() {
			o.exp = &prep{}
			o.prepare(b.sc)
			for i := range o.Vals {
				bad = append(bad, !o.exp.stdOK[i] && !o.exp.fails[i] && o.exp.wrong[i] == "")
			}
		})
		o.exp = nil
		for i, x := range bad {
			if x {
				o.Vals[i] = &sval{Type: "string", Doc: []byte(`"replaced"`)}
			}
		}
	})
}

func genC14(b *builder) {
	r := b.r
	b.std = true
	b.sc.Oracle = oracles{Model: true}
	b.sc.Budget = 400e6
	b.sc.Pool = ssync.PoolPolicy{}
	b.task(b.memOp(r.pick("dec", "dec", "it", "it", "itany", "itany", "itany", "unm", "unmreader", "itreset", "itnew", "marshal", "est", "streamer", "stnew")))
}

// memOp makes an operation that is repeated many times.
func (b *builder) memOp(via string) *op {
	r := b.r
	o := &op{Kind: "mem", Cfg: b.cfg("default", "usenumber")}
	o.Via = via
	n := r.in(1, 5)
	if r.p(1, 2) {
		b.types = []string{"raw", "JVal", "number", "bytes", "any", "string", "[]raw", "map[string]raw", "NBytes", "[]number", "Small", "TVal"}
	}
	tot := 0
	for i := 0; i < n; i++ {
		ti := b.typ()
		v := &sval{Type: ti.name}
		b.sizeMax = []int{3, 20, 60}[r.n(3)]
		v.Doc = b.doc(ti, o.Cfg)
		if r.p(1, 2) {
			b.vary(v)
		}
		switch o.Via {
		case "dec":
			v.Act = r.pick("decode", "decode", "raw", "any")
		case "it":
			v.Act = r.pick("decode", "skip", "skipraw", "skipraw", "readraw", "read")
		case "itany":
			v.Act = r.pick("decode", "decode", "skip", "skipraw", "skipraw", "readraw", "read", "fails", "objcb", "arrcb")
			if len(v.Doc) > 2000 {
				v.Doc = v.Doc[:r.in(500, 2000)]
			}
			if r.p(1, 3) {
				v.Doc = corrupt(r, v.Doc)
			}
		case "itreset", "itnew":
			v.Act = r.pick("decode", "skip", "skipraw", "cut")
		}
		if v.Act == "read" || v.Act == "any" {
			v.Type = "any"
		}
		if r.p(1, 4) {
			v.Pre |= 16
		}
		if (o.Via == "marshal" || o.Via == "stnew") && r.p(1, 4) {
			v.Bad = badKinds[r.n(len(badKinds))]
		}
		if (o.Via == "unm" || o.Via == "unmreader" || o.Via == "itreset" || o.Via == "itnew") && r.p(1, 4) {
			v.Doc = corrupt(r, v.Doc)
			o.Dirty = true
		}
		tot += len(v.Doc) + 1
		o.Vals = append(o.Vals, v)
	}
	if o.Via == "itany" && r.p(1, 2) {
		o.At = r.in(2, 60)
	}
	if o.Via == "streamer" && r.p(1, 2) {
		o.At = r.in(2, 20)
	}
	avg := tot / n
	o.R = &readerSpec{}
	switch r.n(4) {
	case 0:
		o.R.Chunks = []int{r.in(1, 600)}
	case 1:
		for i := r.in(2, 7); i > 0; i-- {
			o.R.Chunks = append(o.R.Chunks, r.in(1, 600))
		}
	case 2:
		o.R.Chunks = []int{avg + r.in(0, 3)}
	}
	// the volume: enough for a leak of a fraction of it to show
	max := 0
	for _, v := range o.Vals {
		if len(v.Doc) > max {
			max = len(v.Doc)
		}
	}
	vol := 4*(memSlack+8*max) + r.n(200000)
	o.N = vol / (avg + 8)
	if o.N > 60000 {
		o.N = 60000
	}
	if o.N < 40 {
		o.N = 40
	}
	return o
}
