package main

import (
	"bytes"
	"encoding/json"
	"io"
	"io/ioutil"
	"strconv"

	"github.com/zerosnake0/jzon"
)

// ---------------------------------------------------------------- preparation

func useNumberKind(kind string) bool { return kind == "usenumber" || kind == "custom2" }

// stdKind tells if encoding/json is a reference for that kind of config.
func stdKind(kind string) bool {
	return kind == "default" || kind == "usenumber" || kind == "nohtml" || kind == "disallow"
}

func (o *op) kind(sc *scenario) string {
	if isPkg(o.Via) {
		return "default"
	}
	return sc.Cfgs[o.Cfg].Kind
}

func isPkg(via string) bool { return len(via) >= 3 && via[:3] == "pkg" }

// stdDecode decodes with encoding/json.
func stdDecode(typ string, doc []byte, useNumber bool) (string, interface{}, bool) {
	target := newTarget(typ)
	d := json.NewDecoder(bytes.NewReader(doc))
	if useNumber {
		d.UseNumber()
	}
	if err := d.Decode(target); err != nil {
		return "", nil, false
	}
	rest, err := ioutil.ReadAll(io.MultiReader(d.Buffered()))
	if err != nil || len(bytes.TrimLeft(rest, " \t\r\n")) != 0 {
		return "", nil, false
	}
	return render(target), target, true
}

func (o *op) prepare(sc *scenario) {
	kind := o.kind(sc)
	un := o.UseNumber || useNumberKind(kind)
	switch o.Kind {
	case "unm":
		s, _, ok := stdDecode(o.Type, o.Doc, un)
		o.exp.std = []string{s}
		o.exp.stdOK = []bool{ok}
		n, err := parseOne(o.Doc)
		if err != nil {
			n = nil
		}
		o.exp.nodes = []*node{n}
		if sc.Oracle.Bytes {
			o.exp.bytesOK, o.exp.bytesVal = o.decodeBytes(sc)
		}
	case "valid", "iter":
		n, err := parseOne(o.Doc)
		if err != nil {
			n = nil
		}
		o.exp.nodes = []*node{n}
	case "dstream", "precv":
		o.exp.data = nil
		for i, v := range o.Vals {
			if i < len(o.Seps) {
				o.exp.data = append(o.exp.data, o.Seps[i]...)
			}
			off := len(o.exp.data)
			p := &parser{b: v.Doc}
			n, err := p.value()
			if err != nil {
				panic("harness: invalid stream value " + string(v.Doc))
			}
			o.exp.nodes = append(o.exp.nodes, n)
			o.exp.starts = append(o.exp.starts, off+n.start)
			o.exp.ends = append(o.exp.ends, off+n.end)
			o.exp.data = append(o.exp.data, v.Doc...)
			s, _, ok := stdDecode(v.Type, v.Doc, un)
			o.exp.std = append(o.exp.std, s)
			o.exp.stdOK = append(o.exp.stdOK, ok)
			fits := true
			if !stdKind(kind) {
				fits, _ = (&op{Type: v.Type, Doc: v.Doc, Cfg: o.Cfg, Preset: v.Preset}).decodeBytes(sc)
			}
			o.exp.fits = append(o.exp.fits, fits)
		}
		if len(o.Seps) > len(o.Vals) {
			o.exp.data = append(o.exp.data, o.Seps[len(o.Vals)]...)
			o.exp.data = append(o.exp.data, o.Tail...)
		}
	case "marshal", "estream", "streamer", "psend", "ping":
		o.prepareEnc(sc)
	}
}

// decodeBytes decodes the document from one contiguous slice, with a fresh
// config: the reference of the chunked decodings.
func (o *op) decodeBytes(sc *scenario) (ok bool, val string) {
	cfg := newDecCfg(o.kind(sc))
	target := o.Preset.target(o.Type)
	it := cfg.NewIterator()
	err := it.Unmarshal(append([]byte(nil), o.Doc...), target)
	if err != nil {
		return false, ""
	}
	return true, render(target)
}

// ------------------------------------------------------------------- objects

func (c *opCtx) slotKey(what string) string {
	return what + strconv.Itoa(c.op.Cfg) + "/" + strconv.Itoa(c.op.Slot)
}

// iterator gives a new iterator, or the one kept in the slot.
func (c *opCtx) iterator() *jzon.Iterator {
	if c.op.Slot > 0 && !c.ts.run.solo {
		k := c.slotKey("it")
		if x, ok := c.ts.slots[k]; ok {
			delete(c.ts.slots, k)
			count(stReuseSlot)
			return x.(*jzon.Iterator)
		}
	}
	var it *jzon.Iterator
	if isPkg(c.op.Via) {
		it = jzon.NewIterator()
	} else {
		it = c.dec().NewIterator()
	}
	if it.Context != nil {
		c.fail("not-fresh", "a new iterator has the context %v of another user", it.Context)
	}
	if n := len(it.Buffer()); n != 0 {
		c.fail("not-fresh", "a new iterator has %d bytes to read", n)
	}
	return it
}

// freshIter checks that nothing of an earlier use is left after a Reset.
func (c *opCtx) freshIter(it *jzon.Iterator) {
	if it.Context != nil {
		c.fail("not-fresh", "after a Reset the iterator has the context %v of an earlier use", it.Context)
	}
}

// freshStreamer is the same for a streamer.
func (c *opCtx) freshStreamer(s *jzon.Streamer) {
	if s.Context != nil {
		c.fail("not-fresh", "after a Reset the streamer has the context %v of an earlier use", s.Context)
	}
	if s.Error != nil {
		c.fail("not-fresh", "after a Reset the streamer has the error %v of an earlier use", s.Error)
	}
}

func (c *opCtx) iterEnd(it *jzon.Iterator) {
	switch c.op.End {
	case "abandon":
		count(stAbandon)
	case "keep":
		if !c.ts.run.solo && c.op.Slot > 0 {
			c.ts.slots[c.slotKey("it")] = it
			return
		}
		it.Release()
	default:
		it.Release()
	}
}

// ----------------------------------------------------------------- unm, valid

func (c *opCtx) execUnm() {
	o := c.op
	count(stDecodeOps)
	target := o.Preset.target(o.Type)
	var err error
	var in []byte
	var instr string
	if c.guard(func() {
		switch o.Via {
		case "bytes":
			in = c.input(o.Doc)
			err = c.dec().Unmarshal(in, target)
		case "string":
			instr = string(o.Doc)
			err = c.dec().UnmarshalFromString(instr, target)
		case "reader":
			err = c.dec().UnmarshalFromReader(c.reader(o.R, o.Doc), target)
		case "bytes.Reader", "strings.Reader", "bytes.Buffer":
			in = c.input(o.Doc)
			err = c.dec().UnmarshalFromReader(plainReader(o.Via, in), target)
		case "pkg":
			in = c.input(o.Doc)
			err = jzon.Unmarshal(in, target)
		case "pkgstring":
			instr = string(o.Doc)
			err = jzon.UnmarshalFromString(instr, target)
		case "pkgreader":
			err = jzon.UnmarshalFromReader(c.reader(o.R, o.Doc), target)
		case "iter", "iterr":
			it := c.iterator()
			defer c.iterEnd(it)
			if o.Ctx && !c.ts.run.solo {
				it.Reset(nil)
				it.Context = "ctx of " + o.Type
			}
			if o.Via == "iter" {
				in = c.input(o.Doc)
				err = it.Unmarshal(in, target)
			} else {
				err = it.UnmarshalFromReader(c.reader(o.R, o.Doc), target)
			}
			c.freshIter(it)
		default:
			panic("harness: via " + o.Via)
		}
	}) {
		return
	}
	if instr != "" && instr != string(o.Doc) {
		c.fail("input-modified", "the input string was modified: %q -> %q", o.Doc, instr)
	}
	if in != nil && !bytes.Equal(in, o.Doc) {
		c.fail("input-modified", "the input was modified: %q -> %q", o.Doc, in)
	}
	got := ""
	if err == nil {
		got = render(target)
	}
	c.log1("unm ", c.errText(err), " ", got)
	if c.ts.run.solo {
		return
	}
	c.checkOutcome(err, got)
	if err == nil {
		c.retain("decoded value", target)
	}
}

// checkOutcome compares the outcome of decoding the whole document with the
// references.
func (c *opCtx) checkOutcome(err error, got string) {
	o := c.op
	if c.rd != nil && c.rd.sp.Fault != nil && c.rd.sp.Fault.At <= len(o.Doc) {
		c.checkUnmFault(err, got)
		return
	}
	if c.or().Bytes && len(o.CB) == 0 {
		if (err == nil) != o.exp.bytesOK {
			c.fail("depends-on-chunks", "outcome %v, from one slice success=%v, document %q", err, o.exp.bytesOK, o.Doc)
		} else if err == nil && got != o.exp.bytesVal {
			c.fail("depends-on-chunks", "document %q\n got: %s\nfrom one slice: %s", o.Doc, got, o.exp.bytesVal)
		}
	}
	if c.or().Std && len(o.CB) == 0 && !o.Dirty {
		if !o.exp.stdOK[0] {
			panic("harness: encoding/json rejects " + string(o.Doc) + " for " + o.Type)
		}
		if err != nil {
			c.fail("unexpected-error", "error %v on the valid document %q", err, o.Doc)
		} else if got != o.exp.std[0] {
			c.fail("wrong-value", "document %q\n got: %s\nwant: %s", o.Doc, got, o.exp.std[0])
		}
	}
	if err == nil && c.or().Model && (o.Type == "any" || o.Type == "raw") && o.exp.nodes[0] == nil {
		c.fail("invalid-accepted", "invalid document %q accepted, value %s", o.Doc, got)
	}
	c.checkPromptDoc(err)
}

func (c *opCtx) checkUnmFault(err error, got string) {
	o := c.op
	f := c.rd.sp.Fault
	if !c.or().Model || len(o.CB) > 0 || o.Dirty {
		return
	}
	n := o.exp.nodes[0]
	if f.Kind == "err" {
		// an unmarshal needs the end of the input, which never comes unless
		// the failure is transient and met nowhere
		if err == nil {
			c.fail("error-swallowed", "reader failed at %d of %q, the call returned %s", f.At, o.Doc, got)
		} else if !isErr(err, f.err()) {
			c.fail("error-lost", "reader failed at %d of %q, the call returned %v", f.At, o.Doc, err)
		}
		return
	}
	// truncated: the delivered prefix decides
	if f.Kind == "eof" && n != nil {
		if _, perr := parseOne(o.Doc[:f.At]); perr != nil {
			if err == nil {
				c.fail("truncation-accepted", "truncated document %q accepted, value %s", o.Doc[:f.At], got)
			} else if !isErr(err, io.EOF) {
				c.fail("error-lost", "document truncated at %d of %q, the call returned %v", f.At, o.Doc, err)
			}
		} else if err != nil {
			// a prefix that is a complete document: white space or a shorter number
			if n.kind != '0' {
				c.fail("unexpected-error", "complete document %q rejected: %v", o.Doc[:f.At], err)
			}
		} else if n.kind != '0' && c.or().Std && got != o.exp.std[0] {
			c.fail("wrong-value", "document %q\n got: %s\nwant: %s", o.Doc, got, o.exp.std[0])
		}
	}
}

func (c *opCtx) execValid() {
	o := c.op
	count(stDecodeOps)
	in := c.input(o.Doc)
	var ok bool
	if c.guard(func() {
		if isPkg(o.Via) {
			ok = jzon.Valid(in)
		} else {
			it := c.iterator()
			ok = it.Valid(in)
			c.iterEnd(it)
		}
	}) {
		return
	}
	c.log1("valid ", strconv.FormatBool(ok))
	if c.or().Model && ok != (o.exp.nodes[0] != nil) {
		c.fail("wrong-value", "Valid(%q) = %v", o.Doc, ok)
	}
	if !bytes.Equal(in, o.Doc) {
		c.fail("input-modified", "the input was modified: %q -> %q", o.Doc, in)
	}
}

// --------------------------------------------------------------------- dstream

// session is a Decoder or an Iterator on a stream.
type session struct {
	c     *opCtx
	dec   *jzon.Decoder
	it    *jzon.Iterator
	total int // length of the stream
	bytes bool
	buf   *bytes.Buffer // the reader, if it is one
	fed   int           // how much of the stream was written to it
}

// feed writes the stream to the buffer the decoder reads, up to pos and some
// more.
func (s *session) feed(pos int) {
	if s.buf == nil {
		return
	}
	if pos += (pos*7 + s.fed) % 31 % 17; pos > s.total {
		pos = s.total
	}
	if pos > s.fed {
		s.buf.Write(s.c.op.exp.data[s.fed:pos])
		s.fed = pos
	}
}

// delivered is the number of bytes the library got.
func (s *session) delivered() int {
	if s.buf != nil {
		return s.fed - s.buf.Len()
	}
	if s.bytes {
		return s.total
	}
	return s.c.rd.pos
}

func (s *session) buffered() []byte {
	if s.dec != nil {
		b, err := ioutil.ReadAll(s.dec.Buffered())
		if err != nil {
			s.c.fail("buffered", "Buffered: %v", err)
		}
		return b
	}
	return append([]byte(nil), s.it.Buffer()...)
}

// checkPos checks that exactly the first pos bytes of the stream are consumed.
func (s *session) checkPos(pos int, where string) {
	c := s.c
	if !c.or().Model || c.ts.run.solo {
		return
	}
	count(stConserve)
	data := c.op.exp.data
	b := s.buffered()
	d := s.delivered()
	if d < pos {
		c.fail("success-without-bytes", "%s: only %d bytes were delivered, %d are needed", where, d, pos)
		return
	}
	if string(b) != string(data[pos:d]) {
		c.fail("bytes-lost", "%s: the buffered bytes are %.200q, the unconsumed delivered bytes are %.200q (offset %d, delivered %d)", where, b, data[pos:d], pos, d)
	}
	if s.dec != nil {
		if off := s.dec.InputOffset(); off != int64(pos) {
			c.fail("wrong-offset", "%s: InputOffset %d, want %d", where, off, pos)
		}
	}
}

func (c *opCtx) open() *session {
	o := c.op
	s := &session{c: c, total: len(o.exp.data)}
	var r io.Reader
	switch o.Via {
	case "dec", "it", "pkgdec", "pkgit":
		r = c.reader(o.R, o.exp.data)
	case "decbuf": // shared with someone who writes to it
		s.buf = new(bytes.Buffer)
		s.feed(0)
		r = s.buf
	case "itbuf":
		r = bytes.NewBuffer(c.input(o.exp.data))
		s.bytes = true
	case "itbytes":
		s.bytes = true
	default:
		panic("harness: via " + o.Via)
	}
	switch o.Via {
	case "dec", "decbuf":
		s.dec = c.dec().NewDecoder(r)
	case "pkgdec":
		s.dec = jzon.NewDecoder(r)
	case "it", "itbuf", "pkgit":
		s.it = c.iterator()
		s.it.Reset(r)
		c.freshIter(s.it)
	case "itbytes":
		s.it = c.iterator()
		s.it.ResetBytes(c.input(o.exp.data))
		c.freshIter(s.it)
	}
	if s.dec != nil {
		if o.UseNumber {
			s.dec.UseNumber()
		}
		if o.Disallow {
			s.dec.DisallowUnknownFields()
		}
	} else if o.Ctx {
		s.it.Context = "ctx"
	}
	return s
}

func (s *session) close() {
	if s.it != nil {
		s.c.iterEnd(s.it)
		return
	}
	if s.c.op.End == "abandon" {
		count(stAbandon)
		return
	}
	s.dec.Release()
}

// complete tells if value i can be told complete from the bytes the reader
// hands over before its failure.
func (o *op) complete(i int) bool {
	if o.R == nil || o.R.Fault == nil || o.R.Fault.At > len(o.exp.data) {
		return true
	}
	f := o.R.Fault
	if o.exp.nodes[i].kind == '0' && f.Kind != "eof" {
		return o.exp.ends[i] < f.At
	}
	return o.exp.ends[i] <= f.At
}

func (c *opCtx) fault() *rfault {
	if c.rd == nil || c.rd.sp.Fault == nil || c.rd.sp.Fault.At > len(c.rd.data) {
		return nil
	}
	return c.rd.sp.Fault
}

// misfit reads the value into something it does not fit. Where that consumes
// nothing of the value, the next call finds it as if nothing had happened.
func (s *session) misfit(i int, v *sval, x *interface{}) (goOn bool) {
	n := s.c.op.exp.nodes[i]
	if s.it == nil || n == nil || n.kind == 'n' {
		return true
	}
	for k := 0; k < v.Misfit; k++ {
		*x = new([]int)
		if n.kind == 'a' {
			*x = new(map[string]int)
		}
		if k > 0 {
			y := *x
			*x = &y
		}
		var target interface{} = x
		if k%2 == 1 {
			target = *x
		}
		err := s.it.ReadVal(target)
		if err == nil {
			s.c.fail("wrong-value", "value %d: %.300q was read into a %T", i, v.Doc, *x)
			return false
		}
		s.c.log1("misfit ", s.c.errText(err))
		if s.delivered()-len(s.buffered()) > s.c.op.exp.starts[i] {
			return false
		}
		count(stMisfit)
	}
	*x = nil
	return true
}

// read performs the action of value i; ok tells that val is meaningful.
func (s *session) read(i int, v *sval) (what string, got string, target interface{}, err error) {
	var x interface{}
	if v.Misfit > 0 && !s.misfit(i, v, &x) {
		return "end", "", nil, nil
	}
	switch v.Act {
	case "any":
		if s.dec != nil {
			err = s.dec.Decode(&x)
		} else {
			err = s.it.ReadVal(&x)
		}
		return "value", "", x, err
	case "raw":
		var x json.RawMessage
		if s.dec != nil {
			err = s.dec.Decode(&x)
		} else {
			err = s.it.ReadVal(&x)
		}
		return "bytes", string(x), x, err
	case "read":
		x, e := s.it.Read()
		return "value", "", x, e
	case "skip":
		return "none", "", nil, s.it.Skip()
	case "skipraw":
		b, e := s.it.SkipRaw()
		return "bytes", string(b), nil, e
	case "readraw":
		b, e := s.it.ReadRaw()
		return "bytes", string(b), b, e
	case "appendraw":
		b, e := s.it.AppendRaw([]byte("<<"))
		if e == nil && (len(b) < 2 || string(b[:2]) != "<<") {
			s.c.fail("wrong-value", "AppendRaw lost the prefix: %q", b)
		}
		if len(b) < 2 {
			return "bytes", "", nil, e
		}
		return "bytes", string(b[2:]), b, e
	}
	x = v.Preset.target(v.Type)
	if s.dec != nil {
		err = s.dec.Decode(x)
	} else {
		err = s.it.ReadVal(x)
	}
	return "typed", "", x, err
}

func (c *opCtx) execDstream() {
	o := c.op
	s := c.open()
	defer s.close()
	prevEnd := 0
	s.checkPos(0, "before the first value")
	for i, v := range o.Vals {
		if o.StopAfter > 0 && i >= o.StopAfter {
			return
		}
		if c.ts.viol != nil {
			return
		}
		s.feed(o.exp.ends[i])
		if !c.streamValue(s, i, v, prevEnd) {
			return
		}
		prevEnd = o.exp.ends[i]
	}
	if c.ts.viol != nil {
		return
	}
	s.feed(s.total)
	c.streamEnd(s, prevEnd)
}

// active is the failure of the reader that the calls to come can still meet.
func (c *opCtx) activeFault() *rfault {
	f := c.fault()
	if f != nil && f.Times > 0 && c.seen >= f.Times {
		return nil
	}
	return f
}

func (c *opCtx) streamValue(s *session, i int, v *sval, prevEnd int) (goOn bool) {
	o := c.op
	where := "value " + strconv.Itoa(i) + " (" + v.Act + ")"
	if v.Pre&1 != 0 {
		if c.guard(func() {
			f := c.activeFault()
			var more bool
			if s.dec != nil {
				more = s.dec.More()
			} else {
				_, err := s.it.NextValueType()
				more = err == nil
				if err != nil && f != nil && f.Kind == "err" && !isErr(err, f.err()) {
					c.fail("error-lost", "%s: NextValueType reports %v", where, err)
				}
			}
			c.log1("more ", strconv.FormatBool(more))
			if want := f == nil || o.exp.starts[i] < f.At; more != want && c.or().Model {
				c.fail("wrong-more", "%s: More is %v, want %v", where, more, want)
			}
			if more {
				s.checkPos(o.exp.starts[i], where+" after More")
			} else {
				c.seen++
			}
		}) {
			return false
		}
	}
	var what, got string
	var target interface{}
	var err error
	retried := false
retry:
	count(stDecodeOps)
	f := c.activeFault()
	if c.guard(func() { what, got, target, err = s.read(i, v) }) {
		return false
	}
	if err != nil {
		c.log1(where, " ", c.errText(err))
		if c.cbFailed && isErr(err, c.cbErr) {
			c.sticky(s, err)
			return false
		}
		if o.Dirty || ((!o.exp.fits[i] || v.Preset != nil) && (v.Act == "decode" || v.Act == "")) {
			c.sticky(s, err)
			return false
		}
		if !c.or().Model || c.ts.run.solo {
			return false
		}
		if f == nil {
			class := "unexpected-error"
			if retried {
				class = "no-recovery"
			}
			c.fail(class, "%s: %v (document %.300q)", where, err, v.Doc)
			return false
		}
		if o.complete(i) {
			c.fail("unexpected-error", "%s: %v although all its bytes were delivered (document %.300q, failure at %d)", where, err, v.Doc, f.At)
			return false
		}
		if f.Kind == "err" && !isErr(err, f.err()) {
			c.fail("error-lost", "%s: the reader's error became %v", where, err)
			return false
		}
		if f.Kind == "eof" && !isErr(err, io.EOF) && o.exp.nodes[i].kind != '0' {
			c.fail("error-lost", "%s: the end of the input became %v", where, err)
			return false
		}
		c.seen++
		if s.dec != nil {
			c.sticky(s, err)
			return false
		}
		if f.Times > 0 && f.At <= o.exp.starts[i] {
			// the reader recovers: nothing of the value was consumed
			retried = true
			count(stRetryOK)
			goto retry
		}
		return false
	}
	if what == "end" {
		return false
	}
	// success
	if what == "value" || what == "typed" {
		got = render(target)
	}
	c.log1(where, " ok ", got)
	if f != nil && o.exp.nodes[i].kind == '0' && f.Kind == "eof" && o.exp.starts[i] < f.At && !o.complete(i) {
		return false // the shorter number is what was delivered
	}
	if c.ts.run.solo {
		return true
	}
	zero := false // no digit may follow a zero: it is complete
	if d := string(bytes.TrimSpace(v.Doc)); (d == "0" || d == "-0") && f != nil && o.exp.ends[i] == f.At {
		zero = true
	}
	if c.or().Model && f != nil && !o.complete(i) && !zero {
		c.fail("success-without-bytes", "%s: success %q although the reader failed at %d, before the end of %.300q", where, got, f.At, v.Doc)
		return false
	}
	if o.hasCB("err") && c.cbFailed && c.or().Model {
		c.fail("error-swallowed", "%s: the error of a callback was not reported", where)
		return false
	}
	switch {
	case what == "bytes" && c.or().Model:
		want := string(bytes.TrimSpace(v.Doc))
		if got != want {
			c.fail("wrong-value", "%s: raw %q, want %q", where, got, want)
			return false
		}
	case what == "value" && c.or().Std:
		kind := o.kind(c.ts.run.sc)
		want := render(nodeValue(o.exp.nodes[i], o.UseNumber || useNumberKind(kind)))
		if got != want {
			c.fail("wrong-value", "%s: document %.300q\n got: %s\nwant: %s", where, v.Doc, got, want)
			return false
		}
	case what == "typed" && c.or().Std && !o.Dirty && v.Preset == nil:
		if !o.exp.stdOK[i] {
			c.fail("wrong-value", "%s: success %s although the document %.300q does not fit %s", where, got, v.Doc, v.Type)
			return false
		}
		if got != o.exp.std[i] {
			c.fail("wrong-value", "%s: document %.300q\n got: %s\nwant: %s", where, v.Doc, got, o.exp.std[i])
			return false
		}
	}
	if target != nil {
		c.retain("streamed value", target)
	}
	s.checkPos(o.exp.ends[i], where)
	if c.or().Prompt && c.rd != nil {
		limit := o.exp.ends[i]
		if o.exp.nodes[i].kind == '0' {
			limit++
		}
		if c.rd.lastPos >= limit {
			c.fail("late", "%s: read again at offset %d although the value ended at %d", where, c.rd.lastPos, o.exp.ends[i])
			return false
		}
	}
	return c.ts.viol == nil
}

// sticky checks that a failed Decoder keeps reporting its failure.
func (c *opCtx) sticky(s *session, err error) {
	if s.dec == nil || !c.or().Model || c.ts.run.solo {
		return
	}
	count(stStickyChecked)
	calls := 0
	if c.rd != nil {
		calls = c.rd.calls
	}
	for k := 0; k < 2; k++ {
		var x interface{}
		var e2 error
		if c.guard(func() { e2 = s.dec.Decode(&x) }) {
			c.fail("panic", "Decode after a failure panicked")
			return
		}
		if e2 != err {
			c.fail("not-sticky", "Decode after the failure %v reports %v", err, e2)
			return
		}
		if s.dec.More() {
			c.fail("not-sticky", "More is true after the failure %v", err)
			return
		}
	}
	if c.rd != nil && c.rd.calls != calls {
		c.fail("not-sticky", "a failed Decoder reads again")
	}
}

// streamEnd checks what happens after the last value.
func (c *opCtx) streamEnd(s *session, prevEnd int) {
	o := c.op
	f := c.activeFault()
	if !c.or().Model || o.Dirty {
		return
	}
	var err error
	var more bool
	if o.Tail != "" && f == nil {
		c.strayTail(s)
		return
	}
	if c.guard(func() {
		if s.dec != nil {
			more = s.dec.More()
			if !more {
				c.seen++
				s.checkPos(s.delivered(), "after the last value")
			}
			var x interface{}
			err = s.dec.Decode(&x)
		} else {
			if o.N&1 == 0 {
				_, err = s.it.NextValueType()
				more = err == nil
			} else {
				err = s.it.Skip()
			}
		}
	}) {
		return
	}
	c.log1("end ", strconv.FormatBool(more), " ", c.errText(err))
	if more {
		c.fail("wrong-more", "More is true after the last value")
	}
	if err == nil {
		c.fail("wrong-value", "a value was read after the last one")
		return
	}
	if c.ts.run.solo {
		return
	}
	if f != nil && f.Kind == "err" {
		if !isErr(err, f.err()) && err != io.EOF {
			c.fail("error-lost", "after the last value: the reader's error became %v", err)
		}
		if (f.Times == 0 || c.seen < f.Times) && err == io.EOF && !more {
			c.fail("error-swallowed", "after the last value: the reader's error became %v", err)
		}
	} else if err != io.EOF {
		c.fail("wrong-error", "after the last value: %v, want io.EOF", err)
	}
	c.sticky(s, err)
}

// strayTail checks what follows the last value and is no value: the bytes are
// still there and announced, and do not decode.
func (c *opCtx) strayTail(s *session) {
	o := c.op
	start := len(o.exp.data) - len(o.Tail)
	var err error
	more := true
	if c.guard(func() {
		if s.dec != nil {
			more = s.dec.More()
			s.checkPos(start, "before the stray bytes after the last value")
			var x interface{}
			err = s.dec.Decode(&x)
		} else {
			_, e := s.it.NextValueType()
			more = e == nil
			s.checkPos(start, "before the stray bytes after the last value")
			err = s.it.Skip()
		}
	}) {
		return
	}
	c.log1("tail ", strconv.FormatBool(more), " ", c.errText(err))
	if !more {
		c.fail("wrong-more", "More is false before %q", o.Tail)
	}
	if err == nil {
		c.fail("wrong-value", "a value was read from %q", o.Tail)
		return
	}
	if err == io.EOF {
		c.fail("wrong-error", "io.EOF before %q", o.Tail)
	}
	c.sticky(s, err)
}

// --------------------------------------------------------------- prompt checks

func (c *opCtx) checkPromptDoc(err error) {
	// UnmarshalFromReader has to see the end of the input: nothing to check
	// but the number of reads after it.
	if !c.or().Progress || c.rd == nil {
		return
	}
	c.checkReads()
}

func (c *opCtx) checkReads() {
	r := c.rd
	if max := len(r.data) + r.zeros + r.fired + 4 + 2*len(c.op.Vals); r.calls > max {
		c.fail("too-many-reads", "%d Read calls for %d bytes (%d empty)", r.calls, len(r.data), r.zeros)
	}
}
