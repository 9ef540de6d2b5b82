package main

import (
	"encoding/json"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// walker walks a document with the iterator API and compares every step with
// the reference tree.
type walker struct {
	c     *opCtx
	it    *jzon.Iterator
	bytes bool
	ci    int
	nodes int
	stop  bool
}

type stopWalk struct{}

func (stopWalk) Error() string { return "harness: walk stopped" }

func (w *walker) choose(n int) int {
	ch := w.c.op.Choice
	if len(ch) == 0 {
		return 0
	}
	k := ch[w.ci%len(ch)]
	w.ci++
	return k % n
}

func (c *opCtx) execIter() {
	o := c.op
	n := o.exp.nodes[0]
	if n == nil {
		panic("harness: iterator walk over an invalid document")
	}
	it := c.iterator()
	w := &walker{c: c, it: it}
	switch o.Via {
	case "bytes":
		it.ResetBytes(c.input(o.Doc))
		w.bytes = true
	case "reader":
		it.Reset(c.reader(o.R, o.Doc))
	default:
		panic("harness: via " + o.Via)
	}
	c.freshIter(it)
	if o.Ctx {
		it.Context = "ctx"
	}
	defer c.iterEnd(it)
	panicked := c.guard(func() {
		err := w.value(n, nil)
		c.log1("walk ", strconv.Itoa(w.nodes), " ", c.errText(err))
		if err == nil && !w.stop {
			_, err = it.NextValueType()
			if err == nil {
				c.fail("wrong-value", "a value after the end of the document")
			} else if f := c.fault(); f != nil && f.Kind == "err" {
				if !isErr(err, f.err()) {
					c.fail("error-lost", "at the end of the document: %v", err)
				}
			} else if err != io.EOF {
				c.fail("wrong-error", "at the end of the document: %v", err)
			}
		}
		if o.Ctx && it.Context != "ctx" && !c.ts.run.solo {
			c.fail("context-lost", "the context of the iterator became %v", it.Context)
		}
	})
	_ = panicked
	if c.or().Progress && c.rd != nil {
		c.checkReads()
	}
}

func (w *walker) pos() int {
	if w.bytes {
		return len(w.c.op.Doc) - len(w.it.Buffer())
	}
	return w.c.rd.pos - len(w.it.Buffer())
}

// bad handles an error of a call that had to deliver what ends at end.
func (w *walker) bad(call string, err error, end int, number bool) error {
	c := w.c
	if _, ok := err.(stopWalk); ok {
		return err
	}
	if c.cbFailed && isErr(err, c.cbErr) {
		return stopWalk{}
	}
	if f := c.fault(); f != nil {
		done := end <= f.At
		if number && f.Kind != "eof" {
			done = end < f.At
		}
		if done {
			c.fail("unexpected-error", "%s: %v although all its bytes were delivered (end %d, failure at %d)", call, err, end, f.At)
		} else if f.Kind == "err" && !isErr(err, f.err()) {
			c.fail("error-lost", "%s: the reader's error became %v", call, err)
		} else if f.Kind == "eof" && !number && !isErr(err, io.EOF) {
			c.fail("error-lost", "%s: the end of the input became %v", call, err)
		}
		return stopWalk{}
	}
	c.fail("unexpected-error", "%s: %v (document %.300q)", call, err, c.op.Doc)
	return stopWalk{}
}

// good handles the success of a call.
func (w *walker) good(call string, end int, number bool) error {
	c := w.c
	w.nodes++
	count(stIterNodes)
	if c.ts.run.solo || !c.or().Model {
		return nil
	}
	if f := c.fault(); f != nil && f.Kind != "panic" && (f.Times == 0) {
		done := end <= f.At
		if number && f.Kind == "err" {
			done = end < f.At
		}
		if !done {
			if number && f.Kind == "eof" {
				return stopWalk{} // a shorter number was delivered
			}
			if number && end == f.At && zeroAt(c.op.Doc, end) {
				return stopWalk{} // no digit may follow a zero: it is complete
			}
			c.fail("success-without-bytes", "%s succeeded although the reader failed at %d, before its end %d", call, f.At, end)
			return stopWalk{}
		}
	}
	if p := w.pos(); p != end {
		c.fail("wrong-offset", "%s: the iterator is at offset %d, want %d of %.400q", call, p, end, c.op.Doc)
		return stopWalk{}
	}
	if c.or().Prompt && c.rd != nil {
		limit := end
		if number {
			limit++
		}
		if c.rd.lastPos >= limit {
			c.fail("late", "%s: read again at offset %d although the value ended at %d", call, c.rd.lastPos, end)
			return stopWalk{}
		}
	}
	return nil
}

func (w *walker) wrong(call, got, want string) error {
	w.c.fail("wrong-value", "%s: %.600s, want %.600s (document %.300q)", call, got, want, w.c.op.Doc)
	return stopWalk{}
}

// check is good plus the comparison of a value.
func (w *walker) check(call string, n *node, got, want string) error {
	w.c.log1(call, " ", got)
	if f := w.c.fault(); f != nil && f.Kind == "eof" && n.kind == '0' && n.end > f.At {
		return stopWalk{}
	}
	if w.c.or().Model && got != want {
		return w.wrong(call, got, want)
	}
	return w.good(call, n.end, n.kind == '0')
}

func (n *node) src(doc []byte) string { return string(doc[n.start:n.end]) }

// value reads the value n.
func (w *walker) value(n *node, up *node) error {
	it := w.it
	doc := w.c.op.Doc
	if w.choose(5) == 0 {
		vt, err := it.NextValueType()
		if err != nil {
			return w.bad("NextValueType", err, n.start+1, false)
		}
		want := map[byte]jzon.ValueType{'n': jzon.NullValue, 't': jzon.BoolValue, 'f': jzon.BoolValue, '0': jzon.NumberValue, 's': jzon.StringValue, 'a': jzon.ArrayValue, 'o': jzon.ObjectValue}[n.kind]
		if w.c.or().Model && vt != want {
			return w.wrong("NextValueType", strconv.Itoa(int(vt)), strconv.Itoa(int(want)))
		}
	}
	if w.c.or().Model && w.choose(8) == 0 {
		if err := w.misread(n); err != nil {
			return err
		}
	}
	num := n.kind == '0'
	un := useNumberKind(w.c.op.kind(w.c.ts.run.sc))
	// the generic ways
	switch w.choose(12) {
	case 0:
		if err := it.Skip(); err != nil {
			return w.bad("Skip", err, n.end, num)
		}
		return w.check("Skip", n, "", "")
	case 1:
		b, err := it.SkipRaw()
		if err != nil {
			return w.bad("SkipRaw", err, n.end, num)
		}
		return w.check("SkipRaw", n, string(b), n.src(doc))
	case 2:
		b, err := it.ReadRaw()
		if err != nil {
			return w.bad("ReadRaw", err, n.end, num)
		}
		w.c.retain("ReadRaw", b)
		return w.check("ReadRaw", n, string(b), n.src(doc))
	case 3:
		b, err := it.AppendRaw([]byte("ab"))
		if err != nil {
			return w.bad("AppendRaw", err, n.end, num)
		}
		w.c.retain("AppendRaw", b)
		return w.check("AppendRaw", n, string(b), "ab"+n.src(doc))
	case 4:
		v, err := it.Read()
		if err != nil {
			return w.bad("Read", err, n.end, num)
		}
		w.c.retain("Read", v)
		return w.check("Read", n, render(v), render(nodeValue(n, un)))
	case 5:
		var v interface{}
		if err := it.ReadVal(&v); err != nil {
			return w.bad("ReadVal", err, n.end, num)
		}
		w.c.retain("ReadVal", v)
		return w.check("ReadVal", n, render(v), render(nodeValue(n, un)))
	}
	switch n.kind {
	case 'n':
		if err := it.ReadNull(); err != nil {
			return w.bad("ReadNull", err, n.end, false)
		}
		return w.check("ReadNull", n, "", "")
	case 't', 'f':
		b, err := it.ReadBool()
		if err != nil {
			return w.bad("ReadBool", err, n.end, false)
		}
		return w.check("ReadBool", n, strconv.FormatBool(b), strconv.FormatBool(n.kind == 't'))
	case '0':
		return w.number(n)
	case 's':
		return w.str(n)
	case 'a':
		return w.array(n)
	default:
		return w.object(n)
	}
}

// misread calls a method for another kind of value. Where that consumes
// nothing of the value, the next call finds it as if nothing had happened.
func (w *walker) misread(n *node) error {
	it := w.it
	all := []struct {
		name  string
		kinds string // the kinds of values the method reads
		f     func() error
	}{
		{"ReadNull", "n", it.ReadNull},
		{"ReadBool", "tf", func() error { _, err := it.ReadBool(); return err }},
		{"ReadString", "s", func() error { _, err := it.ReadString(); return err }},
		{"SkipString", "s", it.SkipString},
		{"ReadArrayBegin", "a", func() error { _, err := it.ReadArrayBegin(); return err }},
		{"ReadArrayCB", "a", func() error { return it.ReadArrayCB(func(it *jzon.Iterator) error { return it.Skip() }) }},
		{"SkipArray", "a", it.SkipArray},
		{"ReadObjectBegin", "o", func() error { _, _, err := it.ReadObjectBegin(); return err }},
		{"ReadObjectCB", "o", func() error {
			return it.ReadObjectCB(func(it *jzon.Iterator, _ string) error { return it.Skip() })
		}},
		{"SkipObject", "o", it.SkipObject},
		{"ReadNumber", "0", func() error { _, err := it.ReadNumber(); return err }},
		{"SkipNumber", "0", it.SkipNumber},
		{"ReadFloat64", "0", func() error { _, err := it.ReadFloat64(); return err }},
		{"ReadFloat32", "0", func() error { _, err := it.ReadFloat32(); return err }},
		{"ReadInt", "0", func() error { _, err := it.ReadInt(); return err }},
		{"ReadUint16", "0", func() error { _, err := it.ReadUint16(); return err }},
		{"ReadInt64", "0", func() error { _, err := it.ReadInt64(); return err }},
		{"ReadUint32", "0", func() error { _, err := it.ReadUint32(); return err }},
	}
	m := all[w.choose(len(all))]
	if strings.IndexByte(m.kinds, n.kind) >= 0 {
		return nil
	}
	err := m.f()
	if err == nil {
		return w.wrong(m.name, "success", "a failure at "+strconv.Quote(n.src(w.c.op.Doc)))
	}
	w.c.log1("misread ", m.name, " ", w.c.errText(err))
	if f := w.c.fault(); f != nil && n.start >= f.At {
		return w.bad(m.name, err, n.start+1, false)
	}
	if w.pos() > n.start {
		return stopWalk{}
	}
	count(stMisfit)
	return nil
}

func (w *walker) str(n *node) error {
	it := w.it
	switch w.choose(5) {
	case 0:
		s, err := it.ReadString()
		if err != nil {
			return w.bad("ReadString", err, n.end, false)
		}
		w.c.retain("ReadString", s)
		return w.check("ReadString", n, s, n.str)
	case 1:
		b, err := it.ReadStringAsSlice()
		if err != nil {
			return w.bad("ReadStringAsSlice", err, n.end, false)
		}
		return w.check("ReadStringAsSlice", n, string(b), n.str)
	case 2:
		buf := append(make([]byte, 0, w.choose(40)+2), "ab"...)
		b, err := it.ReadStringAndAppend(buf)
		if err != nil {
			return w.bad("ReadStringAndAppend", err, n.end, false)
		}
		w.c.retain("ReadStringAndAppend", b)
		return w.check("ReadStringAndAppend", n, string(b), "ab"+n.str)
	case 3:
		if err := it.SkipString(); err != nil {
			return w.bad("SkipString", err, n.end, false)
		}
		return w.check("SkipString", n, "", "")
	}
	if w.c.op.kind(w.c.ts.run.sc) == "native" { // strings have a codec of their own
		s, err := it.ReadString()
		if err != nil {
			return w.bad("ReadString", err, n.end, false)
		}
		return w.check("ReadString", n, s, n.str)
	}
	var s string
	if err := it.ReadVal(&s); err != nil {
		return w.bad("ReadVal(string)", err, n.end, false)
	}
	w.c.retain("ReadVal(string)", s)
	return w.check("ReadVal(string)", n, s, n.str)
}

func (w *walker) number(n *node) error {
	it := w.it
	if v, err := strconv.ParseInt(n.num, 10, 64); err == nil && n.num != "-0" && w.choose(2) == 0 {
		// an integer: through one of the integer readers it fits in
		type rdr struct {
			name string
			ok   bool
			f    func() (string, error)
		}
		fi := func(x int64, err error) (string, error) { return strconv.FormatInt(x, 10), err }
		fu := func(x uint64, err error) (string, error) { return strconv.FormatUint(x, 10), err }
		all := []rdr{
			{"ReadInt", true, func() (string, error) { x, e := it.ReadInt(); return fi(int64(x), e) }},
			{"ReadInt64", true, func() (string, error) { return fi(it.ReadInt64()) }},
			{"ReadInt32", v >= math.MinInt32 && v <= math.MaxInt32, func() (string, error) { x, e := it.ReadInt32(); return fi(int64(x), e) }},
			{"ReadInt16", v >= math.MinInt16 && v <= math.MaxInt16, func() (string, error) { x, e := it.ReadInt16(); return fi(int64(x), e) }},
			{"ReadInt8", v >= math.MinInt8 && v <= math.MaxInt8, func() (string, error) { x, e := it.ReadInt8(); return fi(int64(x), e) }},
			{"ReadUint", v >= 0, func() (string, error) { x, e := it.ReadUint(); return fu(uint64(x), e) }},
			{"ReadUint64", v >= 0, func() (string, error) { return fu(it.ReadUint64()) }},
			{"ReadUint32", v >= 0 && v <= math.MaxUint32, func() (string, error) { x, e := it.ReadUint32(); return fu(uint64(x), e) }},
			{"ReadUint16", v >= 0 && v <= math.MaxUint16, func() (string, error) { x, e := it.ReadUint16(); return fu(uint64(x), e) }},
			{"ReadUint8", v >= 0 && v <= math.MaxUint8, func() (string, error) { x, e := it.ReadUint8(); return fu(uint64(x), e) }},
		}
		k := w.choose(len(all))
		for !all[k].ok {
			k--
		}
		s, err := all[k].f()
		if err != nil {
			return w.bad(all[k].name, err, n.end, true)
		}
		return w.check(all[k].name, n, s, n.num)
	}
	switch w.choose(5) {
	case 0:
		s, err := it.ReadNumber()
		if err != nil {
			return w.bad("ReadNumber", err, n.end, true)
		}
		w.c.retain("ReadNumber", s)
		return w.check("ReadNumber", n, string(s), n.num)
	case 1:
		f, err := it.ReadFloat64()
		want, perr := strconv.ParseFloat(n.num, 64)
		if perr != nil {
			return stopWalk{}
		}
		if err != nil {
			return w.bad("ReadFloat64", err, n.end, true)
		}
		return w.check("ReadFloat64", n, render(f), render(want))
	case 2:
		want, perr := strconv.ParseFloat(n.num, 32)
		if perr != nil {
			return stopWalk{}
		}
		f, err := it.ReadFloat32()
		if err != nil {
			return w.bad("ReadFloat32", err, n.end, true)
		}
		return w.check("ReadFloat32", n, render(f), render(float32(want)))
	case 3:
		if err := it.SkipNumber(); err != nil {
			return w.bad("SkipNumber", err, n.end, true)
		}
		return w.check("SkipNumber", n, "", "")
	}
	var s json.Number
	if err := it.ReadVal(&s); err != nil {
		return w.bad("ReadVal(Number)", err, n.end, true)
	}
	return w.check("ReadVal(Number)", n, string(s), n.num)
}

func (w *walker) array(n *node) error {
	it := w.it
	switch w.choose(5) {
	case 0:
		if err := it.SkipArray(); err != nil {
			return w.bad("SkipArray", err, n.end, false)
		}
		return w.check("SkipArray", n, "", "")
	case 1, 2:
		i := 0
		var ferr error
		err := it.ReadArrayCB(func(it2 *jzon.Iterator) error {
			if it2 != it {
				w.c.fail("wrong-value", "the callback got another iterator")
			}
			if err := callback("ReadArrayCB"); err != nil {
				return err
			}
			if i >= len(n.kids) {
				ferr = w.wrong("ReadArrayCB", "one more element", strconv.Itoa(len(n.kids))+" elements")
				return ferr
			}
			k := n.kids[i]
			i++
			if ferr = w.value(k, n); ferr != nil {
				return ferr
			}
			return callback("done")
		})
		if err != nil {
			return w.cbErr("ReadArrayCB", err, ferr, n.end)
		}
		if ferr != nil {
			w.c.fail("error-swallowed", "ReadArrayCB swallowed the error of its callback")
			return stopWalk{}
		}
		return w.check("ReadArrayCB", n, strconv.Itoa(i), strconv.Itoa(len(n.kids)))
	}
	more, err := it.ReadArrayBegin()
	if err != nil {
		return w.bad("ReadArrayBegin", err, n.firstEnd(w.c.op.Doc), false)
	}
	i := 0
	for ; more; i++ {
		if i >= len(n.kids) {
			return w.wrong("ReadArrayMore", "one more element", strconv.Itoa(len(n.kids))+" elements")
		}
		if err := w.value(n.kids[i], n); err != nil {
			return err
		}
		if w.choose(17) == 16 {
			w.stop = true // leave in the middle
			return stopWalk{}
		}
		more, err = it.ReadArrayMore()
		if err != nil {
			return w.bad("ReadArrayMore", err, n.sepEnd(w.c.op.Doc, i), false)
		}
	}
	return w.check("ReadArrayMore", n, strconv.Itoa(i), strconv.Itoa(len(n.kids)))
}

// cbErr handles an error returned through a callback API.
func (w *walker) cbErr(call string, err, ferr error, end int) error {
	if ferr != nil {
		if err == ferr || isErr(err, ferr) {
			return stopWalk{}
		}
		w.c.fail("error-lost", "%s: the error of the callback %v became %v", call, ferr, err)
		return stopWalk{}
	}
	return w.bad(call, err, end, false)
}

// firstEnd is the offset at which ReadArrayBegin/ReadObjectBegin can decide.
func (n *node) firstEnd(doc []byte) int {
	i := n.start + 1
	for i < len(doc) && isWS(doc[i]) {
		i++
	}
	return i + 1
}

// sepEnd is the offset at which "more" can decide after element i.
func (n *node) sepEnd(doc []byte, i int) int {
	j := n.kids[i].end
	for j < len(doc) && isWS(doc[j]) {
		j++
	}
	return j + 1
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

func (w *walker) object(n *node) error {
	it := w.it
	switch w.choose(5) {
	case 0:
		if err := it.SkipObject(); err != nil {
			return w.bad("SkipObject", err, n.end, false)
		}
		return w.check("SkipObject", n, "", "")
	case 1, 2:
		i := 0
		var ferr error
		err := it.ReadObjectCB(func(it2 *jzon.Iterator, field string) error {
			if it2 != it {
				w.c.fail("wrong-value", "the callback got another iterator")
			}
			if err := callback("ReadObjectCB"); err != nil {
				return err
			}
			if i >= len(n.kids) {
				ferr = w.wrong("ReadObjectCB", "one more member", strconv.Itoa(len(n.kids))+" members")
				return ferr
			}
			w.c.log1("key ", field)
			w.c.retain("key", field)
			if w.c.or().Model && field != n.keys[i] {
				ferr = w.wrong("ReadObjectCB key", field, n.keys[i])
				return ferr
			}
			k := n.kids[i]
			i++
			if ferr = w.value(k, n); ferr != nil {
				return ferr
			}
			return callback("done")
		})
		if err != nil {
			return w.cbErr("ReadObjectCB", err, ferr, n.end)
		}
		if ferr != nil {
			w.c.fail("error-swallowed", "ReadObjectCB swallowed the error of its callback")
			return stopWalk{}
		}
		return w.check("ReadObjectCB", n, strconv.Itoa(i), strconv.Itoa(len(n.kids)))
	}
	more, key, err := it.ReadObjectBegin()
	if err != nil {
		end := n.end
		if len(n.kids) > 0 {
			end = n.kids[0].start
		}
		return w.badUpTo("ReadObjectBegin", err, end)
	}
	i := 0
	for ; more; i++ {
		if i >= len(n.kids) {
			return w.wrong("ReadObjectMore", "one more member", strconv.Itoa(len(n.kids))+" members")
		}
		w.c.log1("key ", key)
		w.c.retain("key", key)
		if w.c.or().Model && key != n.keys[i] {
			return w.wrong("object key", key, n.keys[i])
		}
		if err := w.value(n.kids[i], n); err != nil {
			return err
		}
		if w.choose(17) == 16 {
			w.stop = true
			return stopWalk{}
		}
		more, key, err = it.ReadObjectMore()
		if err != nil {
			end := n.end
			if i+1 < len(n.kids) {
				end = n.kids[i+1].start
			}
			return w.badUpTo("ReadObjectMore", err, end)
		}
	}
	return w.check("ReadObjectMore", n, strconv.Itoa(i), strconv.Itoa(len(n.kids)))
}

// badUpTo is bad for a call whose last needed byte lies before end (the colon
// after a key, possibly followed by white space).
func (w *walker) badUpTo(call string, err error, end int) error {
	if f := w.c.fault(); f != nil && end > f.At {
		end = f.At + 1
	}
	return w.bad(call, err, end, false)
}

// zeroAt tells if the number ending at end is a single zero.
func zeroAt(doc []byte, end int) bool {
	if doc[end-1] != '0' {
		return false
	}
	if end > 1 {
		switch c := doc[end-2]; {
		case c >= '0' && c <= '9', c == '.', c == 'e', c == 'E', c == '+':
			return false
		case c == '-':
			return end == 2 || (doc[end-3] != 'e' && doc[end-3] != 'E')
		}
	}
	return true
}
