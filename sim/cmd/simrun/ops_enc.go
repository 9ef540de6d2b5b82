package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// sop is one call of a streamer program.
type sop struct {
	K string  `json:"k"`
	S string  `json:"s,omitempty"`
	I int64   `json:"i,omitempty"`
	F float64 `json:"f,omitempty"`
}

// badValue makes a value that cannot be encoded.
func badValue(kind string) (interface{}, bool) {
	switch kind {
	case "chan":
		return HasChan{A: 5, C: make(chan int)}, true
	case "func":
		return &HasFunc{A: "before", F: func() {}, B: []int{1}}, true
	case "badkey":
		return BadKey{A: 7, M: map[[2]string]string{{"a", "b"}: "c"}}, true
	case "nan":
		return HasFloat{A: "x", F: math.NaN(), B: "y"}, true
	case "inf":
		return &HasFloat{A: "x", F: math.Inf(1), B: "y"}, true
	case "inf32":
		return []interface{}{"before", float32(math.Inf(-1)), "after"}, true
	case "anychan":
		return []interface{}{1, "leftover", map[string]interface{}{"k": make(chan int)}}, true
	case "anyfunc":
		return map[string]interface{}{"k": []interface{}{"leftover", func() {}}}, true
	case "deepnan":
		return []map[string][]float64{{"k": {1, 2, math.NaN()}}}, true
	case "topchan":
		return make(chan int), true
	case "ptrchan":
		c := make(chan string)
		return &c, true
	case "chans":
		return []chan int{nil, make(chan int)}, true
	case "chan1":
		return [1]chan int{make(chan int)}, true
	case "func1":
		return struct{ F func() }{func() {}}, true
	case "topmap":
		return map[[2]string]int{{"a", "b"}: 1}, true
	case "ptrmap":
		return &map[HasFloat]string{{A: "x"}: "leftover"}, true
	case "anymap":
		return map[string]interface{}{"k": []interface{}{"leftover", map[[1]int]int{{1}: 1}}}, true
	case "complex":
		return []interface{}{"leftover", complex(1, 2)}, true
	case "mapchan":
		return map[string]chan int{"leftover": make(chan int)}, true
	case "inf1":
		f := math.Inf(-1)
		return struct{ P *float64 }{&f}, true
	}
	return nil, false
}

var badKinds = []string{"chan", "func", "badkey", "nan", "inf", "inf32", "anychan", "anyfunc", "deepnan",
	"topchan", "ptrchan", "chans", "chan1", "func1", "topmap", "ptrmap", "anymap", "complex", "mapchan", "inf1"}

// goodValue makes special encodable values that no document gives.
func goodValue(kind string) (interface{}, bool) {
	switch kind {
	case "dyn":
		return DynM{J: JVal{`{"a":1}`}, T: TVal{"tt"}, E: &JPtr{`[1, 2]`}, S: "s<>&"}, true
	case "dynptr":
		return &DynM{J: &JPtr{`"x"`}, T: &TPtr{"pp"}, E: []interface{}{JVal{"1"}, TVal{"2"}, &TPtr{"3"}}}, true
	case "dynnil":
		return DynM{J: (*JPtr)(nil), T: nil, E: (*int)(nil)}, true
	case "jdir":
		return []json.Marshaler{JDir{"a": 1}, JDir(nil), JVal{"true"}}, true
	case "texts":
		return []encoding.TextMarshaler{TVal{"x"}, &TPtr{"y<"}, TKey{"z"}}, true
	case "iface":
		i := StrI(3)
		var d fmt.Stringer = StrM{"k": {A: "x"}}
		return HoldIface{A: StrS{A: "<s>", B: []int{1}}, B: []fmt.Stringer{StrM{"m": {A: "y"}}, i, &StrP{P: &i}, nil},
			C: map[string]fmt.Stringer{"c": &i}, D: &d, E: [1]fmt.Stringer{&StrS{}}, F: "f"}, true
	case "ifaces":
		i := StrI(4)
		return []interface{}{[]fmt.Stringer{&StrP{&i}, (*StrS)(nil), nil}, &HoldIface{}, struct{ S fmt.Stringer }{i}}, true
	case "omit":
		return []interface{}{OmitKinds{W: JVal{"[1]"}, X: &TPtr{"q"}, Y: StrS{A: "1"}, L: "5"}, &OmitKinds{W: (*JPtr)(nil), Y: (*StrP)(nil)},
			OmitKinds{}, &OmitCB{E: JDir{}, B: &JPtr{}}}, true
	case "names":
		return []interface{}{Conf{ConfA: ConfA{1, "s", 2}, ConfB: &ConfB{"d", 3, "n"}, Near: []int{4}}, EmbLarge{}, &EmbOne{&OneStr{"\u2028\u2029\x01\xff"}}}, true
	case "keys":
		k, a, b, c := "k", "a<", "b", new(int)
		return []interface{}{map[KDir]int{{&k}: 1}, map[*TKey][]int{{"p"}: {1, 2}}, map[TArr1]string{{c}: "v"},
			map[KDir]map[TKey]TVal{{&a}: {{"i"}: {"t"}}}, KDir{&b}, struct{ M map[KDir]*TPtr }{map[KDir]*TPtr{{&a}: {"q"}}}}, true
	case "nil":
		return nil, true
	case "nilptr":
		return (*Small)(nil), true
	}
	return nil, false
}

var goodKinds = []string{"dyn", "dynptr", "dynnil", "jdir", "texts", "nil", "nilptr", "iface", "ifaces", "omit", "names", "keys"}

// wrapped values: a large part that can be encoded before (and after) v.
type wrapS struct {
	A []string
	V interface{}
	Z []int
}

type wrapE struct {
	wrapS
	W map[string]interface{}
}

func makeValue(v *sval) interface{} {
	if v.Fill > 0 {
		w := *v
		w.Fill = 0
		x := makeValue(&w)
		f := strings.Repeat("f", v.Fill)
		switch v.Fill % 4 {
		case 0:
			return []interface{}{[]string{f}, x, []int{1}}
		case 1:
			return wrapS{A: []string{f, "<"}, V: x, Z: []int{2}}
		case 2:
			return &wrapE{wrapS: wrapS{A: []string{f}}, W: map[string]interface{}{"x": x}}
		}
		return []interface{}{map[string]string{"f": f}, []interface{}{[]int{}, x}}
	}
	if v.Bad != "" {
		if x, ok := badValue(v.Bad); ok {
			return x
		}
		x, ok := goodValue(v.Bad)
		if !ok {
			panic("harness: bad value " + v.Bad)
		}
		return x
	}
	_, target, ok := stdDecode(v.Type, v.Doc, false)
	if !ok {
		panic("harness: encoding/json rejects " + string(v.Doc) + " for " + v.Type)
	}
	if v.Pre&32 != 0 {
		padRaw(reflect.ValueOf(target), 0)
	}
	if v.Pre&8 != 0 {
		return target
	}
	return reflect.ValueOf(target).Elem().Interface()
}

// mapOrder tells if the bytes of the encoding depend on the order of a map.
func (v *sval) mapOrder() bool {
	if v.Fill > 0 {
		w := *v
		w.Fill = 0
		return w.mapOrder()
	}
	switch v.Bad {
	case "":
		return byName[v.Type].maps
	case "dyn", "dynptr", "jdir", "texts", "nil", "nilptr", "dynnil", "iface", "ifaces", "omit", "names":
		return false
	}
	return true
}

// values of an encoding operation
func (o *op) encVals() []*sval {
	if o.Kind == "marshal" {
		return []*sval{{Type: o.Type, Doc: o.Doc, Bad: o.Bad, Pre: o.N, Fill: o.Fill}}
	}
	return o.Vals
}

func (o *op) prepareEnc(sc *scenario) {
	kind := o.kind(sc)
	e := o.exp
	e.vals, e.snaps, e.encs, e.fails, e.wrong = nil, nil, nil, nil, nil
	for _, v := range o.encVals() {
		x := makeValue(v)
		e.vals = append(e.vals, x)
		e.snaps = append(e.snaps, render(x))
		if freshProc {
			e.encs, e.fails, e.wrong = append(e.encs, nil), append(e.fails, false), append(e.wrong, "")
			continue
		}
		enc, ok := o.encodeAlone(kind, x)
		e.encs = append(e.encs, enc)
		e.fails = append(e.fails, !ok)
		if v.Bad == "" && hidesMarshaler(byName[v.Type].typ, map[reflect.Type]bool{}) {
			e.wrong = append(e.wrong, "")
			continue
		}
		e.wrong = append(e.wrong, wrongEncoding(kind, x, enc, ok))
	}
	if o.Kind == "streamer" {
		var buf bytes.Buffer
		e.marks = nil
		s := newEncCfg(kind).NewStreamer()
		s.Reset(&buf)
		if o.SetHTML {
			s.EscapeHTML(!o.NoHTML)
		}
		for _, p := range o.Prog {
			if p.K == "flush" {
				s.Flush()
				e.marks = append(e.marks, buf.Len())
				continue
			}
			o.apply(s, p)
		}
		s.Flush()
		e.marks = append(e.marks, buf.Len())
		e.want = append([]byte(nil), buf.Bytes()...)
		e.fails = append(e.fails, s.Error != nil)
	}
	if o.Kind == "psend" || o.Kind == "ping" {
		un := useNumberKind(kind)
		for i, v := range o.Vals {
			s, x, ok := stdDecode(v.Type, e.encs[i], un)
			if ok && o.Kind == "ping" {
				enc2, ok2 := o.encodeAlone(kind, x)
				if !ok2 {
					ok = false
				} else {
					s, _, ok = stdDecode(v.Type, enc2, un)
				}
			}
			e.std = append(e.std, s)
			e.stdOK = append(e.stdOK, ok)
			n, _ := parseOne(e.encs[i])
			e.nodes = append(e.nodes, n)
		}
	}
}

// wrongEncoding compares the encoding of a value with the document
// encoding/json makes of it.
func wrongEncoding(kind string, x interface{}, enc []byte, ok bool) string {
	if !stdKind(kind) || !ok {
		return ""
	}
	std, err := json.Marshal(x)
	if err != nil {
		return ""
	}
	want, err := parseOne(std)
	if err != nil {
		return ""
	}
	got, err := parseOne(enc)
	if err != nil || !sameDoc(got, want) {
		return fmt.Sprintf("the value %.300q is encoded as %.300q", std, enc)
	}
	return ""
}

// hidesMarshaler tells if the type has, in an array or a struct, a type whose
// pointer is a marshaler. encoding/json calls the method where the element is
// addressable, jzon everywhere.
func hidesMarshaler(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	hidden := func(t reflect.Type) bool {
		p := reflect.PtrTo(t)
		return p.Implements(jmT) && !t.Implements(jmT) || p.Implements(tmT) && !t.Implements(tmT)
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map:
		return hidesMarshaler(t.Elem(), seen)
	case reflect.Array:
		return hidden(t.Elem()) || hidesMarshaler(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i).Type; hidden(f) || hidesMarshaler(f, seen) {
				return true
			}
		}
	}
	return false
}

// encodeAlone is the encoding of one value with a fresh config and streamer.
func (o *op) encodeAlone(kind string, x interface{}) (out []byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			out, ok = nil, false
		}
	}()
	var buf bytes.Buffer
	s := newEncCfg(kind).NewStreamer()
	s.Reset(&buf)
	if o.SetHTML {
		s.EscapeHTML(!o.NoHTML)
	}
	s.Value(x)
	if s.Error != nil {
		return nil, false
	}
	if err := s.Flush(); err != nil {
		return nil, false
	}
	return buf.Bytes(), true
}

func (o *op) apply(s *jzon.Streamer, p *sop) {
	switch p.K {
	case "{":
		s.ObjectStart()
	case "}":
		s.ObjectEnd()
	case "[":
		s.ArrayStart()
	case "]":
		s.ArrayEnd()
	case "F":
		s.Field(p.S)
	case "RF":
		s.RawField([]byte(strconv.Quote(p.S)))
	case "s":
		s.String(p.S)
	case "rs":
		s.RawString(p.S)
	case "raw":
		s.Raw([]byte(p.S))
	case "i":
		s.Int(int(p.I))
	case "i8":
		s.Int8(int8(p.I))
	case "i16":
		s.Int16(int16(p.I))
	case "i32":
		s.Int32(int32(p.I))
	case "i64":
		s.Int64(p.I)
	case "u":
		s.Uint(uint(p.I))
	case "u8":
		s.Uint8(uint8(p.I))
	case "u16":
		s.Uint16(uint16(p.I))
	case "u32":
		s.Uint32(uint32(p.I))
	case "u64":
		s.Uint64(uint64(p.I))
	case "f64":
		s.Float64(p.F)
	case "f32":
		s.Float32(float32(p.F))
	case "n":
		s.Null()
	case "b":
		s.Bool(p.I != 0)
	case "t":
		s.True()
	case "f":
		s.False()
	case "v":
		s.Value(o.exp.vals[p.I])
	default:
		panic("harness: streamer call " + p.K)
	}
}

// encText is what a transcript says about encoded bytes.
func encText(b []byte, maps bool) string {
	if maps {
		return canonStream(append(append([]byte(nil), b...), '\n'))
	}
	return string(b)
}

func (c *opCtx) execMarshal() {
	o := c.op
	count(stEncodeOps)
	x := o.exp.vals[0]
	v := o.encVals()[0]
	var out []byte
	var err error
	if c.guard(func() {
		switch o.Via {
		case "marshal":
			out, err = c.enc().Marshal(x)
		case "pkg":
			out, err = jzon.Marshal(x)
		case "streamer":
			s := c.streamer()
			defer c.streamerEnd(s)
			w := c.writer(o.W)
			s.Reset(w)
			c.freshStreamer(s)
			if o.Ctx {
				s.Context = "ctx"
			}
			if o.SetHTML {
				s.EscapeHTML(!o.NoHTML)
			}
			s.Value(x)
			err = s.Error
			if e2 := s.Flush(); err == nil {
				err = e2
			} else if e2 != err {
				c.fail("error-lost", "Flush reports %v after the failure %v", e2, err)
			}
			out = w.out
			if o.Ctx && s.Context != "ctx" {
				c.fail("context-lost", "the context of the streamer became %v", s.Context)
			}
		default:
			panic("harness: via " + o.Via)
		}
	}) {
		c.checkSnap(0)
		return
	}
	if err != nil {
		c.log1("marshal ", c.errText(err))
		if len(out) > 0 && c.wr == nil {
			c.fail("trace-left", "a failed Marshal returned %q", out)
		}
		if c.wr != nil && len(c.wr.out) > 0 && c.wr.fired == 0 {
			c.fail("trace-left", "a failed encoding wrote %q", c.wr.out)
		}
	} else {
		c.log1("marshal ok ", encText(out, v.mapOrder()))
		c.retain("encoded bytes", out)
	}
	if c.ts.run.solo {
		return
	}
	c.checkSnap(0)
	if c.or().Model {
		if err == nil && o.exp.wrong[0] != "" {
			c.fail("wrong-encoding", "%s", o.exp.wrong[0])
		}
		c.checkEncErr(err, o.exp.fails[0], "Marshal")
		if err == nil && !c.cbFailed && !o.exp.fails[0] && encText(out, v.mapOrder()) != encText(o.exp.encs[0], v.mapOrder()) {
			c.fail("wrong-bytes", "encoded %q, alone %q", out, o.exp.encs[0])
		}
	}
}

// checkEncErr checks that failures and only failures are reported.
func (c *opCtx) checkEncErr(err error, fails bool, where string) {
	if err == nil {
		if c.cbFailed {
			c.fail("error-swallowed", "%s: the error of a callback was not reported", where)
		}
		if fails {
			c.fail("error-swallowed", "%s: a value that cannot be encoded was", where)
		}
		if c.wr != nil && c.wr.fired > c.seen {
			c.fail("error-swallowed", "%s: the error of the writer was not reported", where)
		}
		return
	}
	if c.cbFailed {
		if !isErr(err, c.cbErr) {
			c.fail("error-lost", "%s: the error of the callback became %v", where, err)
		}
		return
	}
	if c.wr != nil && c.wr.fired > c.seen {
		if !isErr(err, c.wr.lastErr) {
			c.fail("error-lost", "%s: the error of the writer became %v", where, err)
		}
		return
	}
	if !fails {
		c.fail("unexpected-error", "%s: %v", where, err)
	}
}

func (c *opCtx) checkSnap(i int) {
	if c.ts.run.solo || !c.or().Retain {
		return
	}
	if now := render(c.op.exp.vals[i]); now != c.op.exp.snaps[i] {
		c.fail("input-modified", "the encoded value was modified: %.500s -> %.500s", c.op.exp.snaps[i], now)
	}
}

// streamer gives a new streamer, or the one kept in the slot.
func (c *opCtx) streamer() *jzon.Streamer {
	if c.op.Slot > 0 && !c.ts.run.solo {
		k := c.slotKey("st")
		if x, ok := c.ts.slots[k]; ok {
			delete(c.ts.slots, k)
			count(stReuseSlot)
			return x.(*jzon.Streamer)
		}
	}
	var s *jzon.Streamer
	if isPkg(c.op.Via) {
		s = jzon.NewStreamer()
	} else {
		s = c.enc().NewStreamer()
	}
	if s.Context != nil {
		c.fail("not-fresh", "a new streamer has the context %v of another user", s.Context)
	}
	if s.Error != nil {
		c.fail("not-fresh", "a new streamer has the error %v", s.Error)
	}
	if err := s.Flush(); err != jzon.ErrNoAttachedWriter {
		c.fail("not-fresh", "Flush of a new streamer without writer: %v", err)
	}
	return s
}

func (c *opCtx) streamerEnd(s *jzon.Streamer) {
	switch c.op.End {
	case "abandon":
		count(stAbandon)
	case "keep":
		if !c.ts.run.solo && c.op.Slot > 0 {
			c.ts.slots[c.slotKey("st")] = s
			return
		}
		s.Release()
	default:
		s.Release()
	}
}

// --------------------------------------------------------------------- estream

func (c *opCtx) execEstream() {
	o := c.op
	w := c.writer(o.W)
	var enc *jzon.Encoder
	if isPkg(o.Via) {
		enc = jzon.NewEncoder(w)
	} else {
		enc = c.enc().NewEncoder(w)
	}
	if o.SetHTML {
		enc.SetEscapeHTML(!o.NoHTML)
	}
	defer func() {
		if o.End == "abandon" {
			count(stAbandon)
			return
		}
		enc.Release()
	}()
	var done []int // the values completely accepted
	maps := false
	for i, v := range o.Vals {
		if o.StopAfter > 0 && i >= o.StopAfter {
			break
		}
		if v.mapOrder() {
			maps = true
		}
		where := "value " + strconv.Itoa(i) + " (" + v.Type + v.Bad + ")"
		c.cbFailed = false
		before := len(w.out)
		fired := w.fired
		c.seen = fired
		var err error
		count(stEncodeOps)
		if c.guard(func() { err = enc.Encode(o.exp.vals[i]) }) {
			if w.pan {
				c.checkAccepted(done, i, where)
				break // the writer panicked: how much it took is not known to the library
			}
			if len(w.out) != before {
				c.fail("trace-left", "%s: a panicking encoding wrote %q", where, w.out[before:])
			}
			c.checkSnap(i)
			continue
		}
		c.log1(where, " ", c.errText(err))
		c.checkSnap(i)
		if c.ts.run.solo && err == nil {
			done = append(done, i)
			continue
		}
		if c.or().Model {
			c.checkEncErr(err, o.exp.fails[i], where)
		}
		if err == nil {
			done = append(done, i)
			if c.or().Model {
				c.checkAccepted(done, -1, where)
			}
			continue
		}
		if w.fired == fired {
			count(stValueFail)
			if len(w.out) != before {
				c.fail("trace-left", "%s: a failed encoding wrote %q", where, w.out[before:])
			}
		}
		if c.or().Model {
			if w.fired > fired {
				c.checkAccepted(done, i, where)
			}
			c.encSticky(enc, w, err, i)
		}
		break
	}
	if maps {
		// the bytes accepted of an incomplete value depend on the map order
		if w.fired == 0 {
			c.log1("out ", canonStream(w.out))
		} else {
			c.log1("out ", strconv.Itoa(len(w.out)))
		}
	} else {
		c.log1("out ", string(w.out))
	}
}

// checkAccepted checks the accepted bytes: the encodings of the values done,
// in order, and a prefix of the encoding of value part.
func (c *opCtx) checkAccepted(done []int, part int, where string) {
	o := c.op
	rest := c.wr.out
	for _, i := range done {
		want := append(append([]byte(nil), o.exp.encs[i]...), '\n')
		if len(rest) < len(want) {
			c.fail("output-lost", "%s: value %d was accepted by Encode but the writer got %.300q", where, i, c.wr.out)
			return
		}
		got := rest[:len(want)]
		rest = rest[len(want):]
		if !bytes.Equal(got, want) && (!o.Vals[i].mapOrder() || canonStream(got) != canonStream(want)) {
			c.fail("wrong-bytes", "%s: value %d arrived as %.300q, want %.300q", where, i, got, want)
			return
		}
		if o.exp.wrong[i] != "" {
			c.fail("wrong-encoding", "%s: %s", where, o.exp.wrong[i])
			return
		}
	}
	if part < 0 {
		if len(rest) > 0 {
			c.fail("output-duplicated", "%s: %.300q was written in excess", where, rest)
		}
		return
	}
	if o.exp.fails[part] {
		if len(rest) > 0 {
			c.fail("trace-left", "%s: %.300q written of a value that fails", where, rest)
		}
		return
	}
	want := append(append([]byte(nil), o.exp.encs[part]...), '\n')
	if len(rest) > len(want) || (!o.Vals[part].mapOrder() && !bytes.HasPrefix(want, rest)) {
		c.fail("wrong-bytes", "%s: %.300q was accepted, which is not a prefix of %.300q", where, rest, want)
	}
}

func (c *opCtx) encSticky(enc *jzon.Encoder, w *simWriter, err error, i int) {
	if c.ts.run.solo {
		return
	}
	count(stStickyChecked)
	calls := w.calls
	for k := 0; k < 2; k++ {
		var e2 error
		if c.guard(func() { e2 = enc.Encode(k) }) {
			return
		}
		if e2 != err {
			c.fail("not-sticky", "Encode after the failure %v reports %v", err, e2)
			return
		}
	}
	if w.calls != calls {
		c.fail("not-sticky", "a failed Encoder writes again")
	}
}

// -------------------------------------------------------------------- streamer

func (c *opCtx) execStreamer() {
	o := c.op
	w := c.writer(o.W)
	s := c.streamer()
	defer c.streamerEnd(s)
	s.Reset(w)
	c.freshStreamer(s)
	if o.Ctx {
		s.Context = "ctx"
	}
	if o.SetHTML {
		s.EscapeHTML(!o.NoHTML)
	}
	mark := 0
	fails := o.exp.fails[len(o.exp.fails)-1]
	pans := false
	flush := func() bool {
		want := o.exp.marks[mark]
		mark++
		for try := 0; ; try++ {
			fired := w.fired
			var err error
			if c.guard(func() { err = s.Flush() }) {
				pans = true
				return false
			}
			c.log1("flush ", c.errText(err), " ", strconv.Itoa(len(w.out)))
			if c.ts.run.solo {
				if err == nil || s.Error != nil || w.dead || try > 6 {
					return err == nil
				}
				continue
			}
			if c.or().Model && !c.cbFailed {
				if !bytes.HasPrefix(o.exp.want, w.out) {
					c.fail("wrong-bytes", "the writer got %.400q, want a prefix of %.400q", w.out, o.exp.want)
					return false
				}
				if len(w.out) > want {
					c.fail("output-duplicated", "the writer got %d bytes, only %d were produced", len(w.out), want)
					return false
				}
			}
			if err == nil {
				if c.or().Model {
					if w.fired > fired {
						c.fail("error-swallowed", "Flush did not report the error of the writer")
					}
					if len(w.out) != want && !fails && !c.cbFailed {
						c.fail("output-lost", "after a successful Flush the writer has %d of %d bytes", len(w.out), want)
						return false
					}
				}
				return true
			}
			if s.Error != nil {
				if err != s.Error {
					c.fail("error-lost", "Flush reports %v, the streamer failed with %v", err, s.Error)
				}
				return false
			}
			if w.fired == fired {
				c.fail("unexpected-error", "Flush: %v", err)
				return false
			}
			if !isErr(err, w.lastErr) {
				c.fail("error-lost", "Flush: the error of the writer became %v", err)
				return false
			}
			count(stFlushRetry)
			if w.dead || try > 6 {
				return false
			}
		}
	}
	ok := true
	for _, p := range o.Prog {
		if c.ts.viol != nil {
			return
		}
		if p.K == "flush" {
			if ok = flush(); !ok {
				break
			}
			continue
		}
		count(stEncodeOps)
		if c.guard(func() { o.apply(s, p) }) {
			ok = false
			pans = true
			break
		}
	}
	if ok {
		ok = flush()
	}
	for i := range o.exp.vals {
		c.checkSnap(i)
	}
	if s.Error != nil {
		c.log1("error ", c.errText(s.Error))
	}
	c.log1("out ", string(w.out))
	if c.ts.run.solo || !c.or().Model || pans {
		return
	}
	if c.cbFailed && (s.Error == nil || !isErr(s.Error, c.cbErr)) {
		c.fail("error-swallowed", "the error of a callback became %v", s.Error)
	}
	if fails && s.Error == nil {
		c.fail("error-swallowed", "a value that cannot be encoded was")
	}
	if ok && !fails && !c.cbFailed && len(o.Doc) > 0 {
		if got, want := canonText(w.out), canonText(o.Doc); got != want {
			c.fail("wrong-bytes", "the streamer wrote %.500s, want %.500s", got, want)
		}
	}
	if o.Ctx && s.Context != "ctx" {
		c.fail("context-lost", "the context of the streamer became %v", s.Context)
	}
}

// ----------------------------------------------------------------------- pipes

func (c *opCtx) execPsend() {
	o := c.op
	p := c.ts.run.pipes[o.Pipe]
	enc := c.enc().NewEncoder(p)
	defer enc.Release()
	defer p.Close()
	sent := 0
	for i := range o.Vals {
		var err error
		if c.guard(func() { err = enc.Encode(o.exp.vals[i]) }) {
			return
		}
		count(stEncodeOps)
		sent += len(o.exp.encs[i]) + 1
		if o.exp.fails[i] || c.cbFailed {
			if err == nil {
				c.fail("error-swallowed", "value %d cannot be encoded, Encode returned nil", i)
			}
			return
		}
		if p.sp.BreakAt > 0 && sent > p.sp.BreakAt {
			if !isErr(err, errWrite) {
				c.fail("error-lost", "value %d: the pipe broke, Encode returned %v", i, err)
			}
			return
		}
		if err != nil {
			c.fail("unexpected-error", "Encode of value %d: %v", i, err)
			return
		}
		if o.exp.wrong[i] != "" {
			c.fail("wrong-encoding", "%s", o.exp.wrong[i])
			return
		}
		if p.total != sent && p.sp.BreakAt == 0 {
			c.fail("output-lost", "after value %d the pipe has %d bytes, want %d", i, p.total, sent)
			return
		}
	}
}

// peer finds the operation on the other side of the pipe.
func (c *opCtx) peer(kind string) *op {
	var r *op
	c.ts.run.sc.walk(func(o *op) {
		if o.Kind == kind && (o.Pipe == c.op.Pipe || o.Pipe == c.op.Pipe2) {
			r = o
		}
	})
	return r
}

func (c *opCtx) execPrecv() {
	o := c.op
	p := c.ts.run.pipes[o.Pipe]
	sender := c.peer("psend")
	if sender == nil {
		return
	}
	e := sender.exp
	// a Decoder, or an Iterator on the same stream
	s := &session{c: c}
	if o.Via == "it" {
		s.it = c.iterator()
		s.it.Reset(p)
	} else {
		s.dec = c.dec().NewDecoder(p)
	}
	defer s.close()
	un := useNumberKind(o.kind(c.ts.run.sc))
	end := 0
	for i, v := range sender.Vals {
		if e.fails[i] {
			break
		}
		start := end
		end += len(e.encs[i]) // end of the value, without the new line
		rv := &sval{Type: v.Type, Act: "decode"}
		k := 0
		if len(o.Choice) > 0 {
			k = o.Choice[i%len(o.Choice)]
		}
		if s.dec != nil {
			rv.Act = []string{"decode", "decode", "any", "raw"}[k/2%4]
		} else {
			rv.Act = []string{"decode", "any", "raw", "read", "skip", "skipraw", "readraw", "appendraw"}[k/2%8]
		}
		atEnd := sender.hasCB("err") || sender.hasCB("panic") // the sender may stop anywhere
		if k&1 != 0 {
			more := false
			if c.guard(func() {
				if s.dec != nil {
					more = s.dec.More()
				} else {
					_, err := s.it.NextValueType()
					more = err == nil
				}
			}) {
				return
			}
			if broken := p.sp.BreakAt != 0 && p.sp.BreakAt <= start; !more && !broken && !atEnd {
				c.fail("message-lost", "value %d: there is nothing more, although %.300q was sent", i, e.encs[i])
				return
			}
		}
		var what, got string
		var target interface{}
		var err error
		if c.guard(func() { what, got, target, err = s.read(i, rv) }) {
			return
		}
		count(stDecodeOps)
		complete := p.sp.BreakAt == 0 || end <= p.sp.BreakAt
		if p.sp.BreakAt != 0 && e.nodes[i] != nil && e.nodes[i].kind == '0' {
			complete = end < p.sp.BreakAt
		}
		if atEnd && err == io.EOF {
			// the sender stops at an unknown value: nothing but a clean end
			c.drained(p, err)
			return
		}
		if err != nil {
			if complete {
				c.fail("message-lost", "value %d: %v (sent %.300q)", i, err, e.encs[i])
			} else if !isErr(err, errRead) {
				c.fail("error-lost", "value %d: the broken pipe became %v", i, err)
			}
			return
		}
		if d := string(e.encs[i]); !complete && end == p.sp.BreakAt && (d == "0" || d == "-0") {
			return // no digit may follow a zero
		}
		if !complete {
			c.fail("success-without-bytes", "value %d received although the pipe broke at %d", i, p.sp.BreakAt)
			return
		}
		want := e.std[i]
		switch what {
		case "none":
			want = ""
		case "bytes":
			want = string(e.encs[i])
			if v.mapOrder() {
				got, want = canonText([]byte(got)), canonText(e.encs[i])
			}
		case "value":
			got, want = render(target), render(nodeValue(e.nodes[i], un))
		default:
			got = render(target)
		}
		if got != want {
			c.fail("wrong-value", "value %d (%s): sent %.300q\n got: %s\nwant: %s", i, rv.Act, e.encs[i], got, want)
			return
		}
		off := p.read - len(s.buffered())
		if s.dec != nil {
			if o := s.dec.InputOffset(); o != int64(off) {
				c.fail("wrong-offset", "value %d: InputOffset %d, %d bytes were read and not buffered", i, o, off)
			}
		}
		if off != end {
			c.fail("wrong-offset", "value %d: the receiver is at offset %d, want %d", i, off, end)
			return
		}
		end++
	}
	var err error
	var x interface{}
	if c.guard(func() {
		if s.dec != nil {
			err = s.dec.Decode(&x)
		} else {
			err = s.it.ReadVal(&x)
		}
	}) {
		return
	}
	if p.sp.BreakAt > 0 && p.broken {
		if !isErr(err, errRead) {
			c.fail("error-lost", "end of the broken pipe: %v", err)
		}
		return
	}
	if err != io.EOF {
		c.fail("message-duplicated", "after the last value: %v, value %v", err, x)
	}
}

func (c *opCtx) drained(p *simPipe, err error) {
	if len(p.buf) > 0 {
		c.fail("message-lost", "end of the stream %v with %d bytes left", err, len(p.buf))
	}
}

// ping sends each value and waits for its echo.
func (c *opCtx) execPing() {
	o := c.op
	out, in := c.ts.run.pipes[o.Pipe], c.ts.run.pipes[o.Pipe2]
	enc := c.enc().NewEncoder(out)
	dec := c.dec().NewDecoder(in)
	defer enc.Release()
	defer dec.Release()
	defer out.Close()
	for i, v := range o.Vals {
		var err error
		if c.guard(func() { err = enc.Encode(o.exp.vals[i]) }) {
			return
		}
		if err != nil {
			c.fail("unexpected-error", "Encode of value %d: %v", i, err)
			return
		}
		count(stEncodeOps)
		target := newTarget(v.Type)
		if c.guard(func() { err = dec.Decode(target) }) {
			return
		}
		count(stDecodeOps)
		if err != nil {
			c.fail("unexpected-error", "echo of value %d: %v", i, err)
			return
		}
		if got := render(target); got != o.exp.std[i] {
			c.fail("wrong-value", "echo of value %d (%.300q):\n got: %s\nwant: %s", i, o.exp.encs[i], got, o.exp.std[i])
			return
		}
	}
}

// pong echoes every value.
func (c *opCtx) execPong() {
	o := c.op
	in, out := c.ts.run.pipes[o.Pipe], c.ts.run.pipes[o.Pipe2]
	peer := c.peer("ping")
	if peer == nil {
		return
	}
	dec := c.dec().NewDecoder(in)
	enc := c.enc().NewEncoder(out)
	defer enc.Release()
	defer dec.Release()
	defer out.Close()
	for i, v := range peer.Vals {
		target := newTarget(v.Type)
		var err error
		if c.guard(func() { err = dec.Decode(target) }) {
			return
		}
		count(stDecodeOps)
		if err != nil {
			c.fail("unexpected-error", "value %d: %v", i, err)
			return
		}
		if c.guard(func() { err = enc.Encode(target) }) {
			return
		}
		count(stEncodeOps)
		if err != nil {
			c.fail("unexpected-error", "echo of value %d: %v", i, err)
			return
		}
	}
	var x interface{}
	if err := dec.Decode(&x); err != io.EOF {
		c.fail("message-duplicated", "after the last value: %v, value %v", err, x)
	}
}
