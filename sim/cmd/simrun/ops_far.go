package main

import (
	"bytes"
	"encoding/json"
	"io"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"
	"verif.local/sim/simrt"
)

var farSpaces = bytes.Repeat([]byte{' '}, 4096)

// farReader delivers values with an enormous amount of white space between, so
// that the positions in the stream exceed what 32 bits can hold.
type farReader struct {
	vals []*sval
	gap  int64
	i    int
	pos  int
	left int64 // white space before the next value
	off  int64 // bytes delivered
	chk  int
}

func (r *farReader) Read(p []byte) (int, error) {
	count(stReads)
	if r.chk > 0 && len(p) > r.chk {
		p = p[:r.chk]
	}
	if r.i >= len(r.vals) {
		return 0, io.EOF
	}
	n := 0
	if r.left > 0 {
		m := len(p)
		if int64(m) > r.left {
			m = int(r.left)
		}
		n = copy(p[:m], farSpaces)
		r.left -= int64(n)
	}
	for n < len(p) && r.left == 0 && r.i < len(r.vals) {
		d := r.vals[r.i].Doc
		c := copy(p[n:], d[r.pos:])
		n += c
		r.pos += c
		if r.pos == len(d) {
			r.i++
			r.pos = 0
			r.left = 10
			if r.i == 1 {
				r.left = r.gap
			}
		}
	}
	r.off += int64(n)
	return n, nil
}

// execFar decodes a few values from a stream of some gigabytes: every value
// arrives, and the positions reported are right, however far into the stream.
func (c *opCtx) execFar() {
	o := c.op
	simrt.Point(true)
	rd := &farReader{vals: o.Vals, gap: int64(o.N)}
	if o.R != nil && len(o.R.Chunks) > 0 {
		rd.chk = o.R.Chunks[0]
	}
	var (
		end  int64
		dec  *jzon.Decoder
		it   *jzon.Iterator
		view func() ([]byte, int64)
	)
	if o.Via == "it" {
		it = c.dec().NewIterator()
		it.Reset(rd)
		view = func() ([]byte, int64) { return it.Buffer(), 0 }
	} else {
		dec = c.dec().NewDecoder(rd)
		view = func() ([]byte, int64) {
			b, _ := io.ReadAll(dec.Buffered())
			return b, dec.InputOffset()
		}
	}
	for i, v := range o.Vals {
		var got []byte
		var err error
		if it != nil {
			got, err = it.ReadRaw()
		} else {
			var raw json.RawMessage
			err = dec.Decode(&raw)
			got = raw
		}
		if err != nil {
			c.fail("unexpected-error", "value %d after %d bytes: %v", i, end, err)
			return
		}
		if !bytes.Equal(got, v.Doc) {
			c.fail("wrong-value", "value %d after %d bytes: got %q, want %q", i, end, clip(got), clip(v.Doc))
			return
		}
		end += int64(len(v.Doc))
		buf, off := view()
		if int64(len(buf)) != rd.off-end {
			c.fail("wrong-buffered", "after %d bytes: %d bytes buffered, %d were delivered", end, len(buf), rd.off)
			return
		}
		if dec != nil && off != end {
			c.fail("wrong-offset", "after %d bytes: InputOffset returned %d", end, off)
			return
		}
		if i == 0 {
			end += int64(o.N)
		} else {
			end += 10
		}
		if i == len(o.Vals)-1 {
			break
		}
		if dec != nil && !dec.More() {
			c.fail("wrong-more", "after %d bytes: More returned false", end)
			return
		}
	}
	count(stFar)
}

func clip(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

// far makes a stream with more than 2 (or 4) gigabytes between the values.
func (b *builder) far(gap int) {
	r := b.r
	b.std = true
	b.sc.Oracle = oracles{Model: true}
	b.sc.Budget = 1e12
	o := &op{Kind: "far", Via: "dec", Cfg: b.cfg("default"), N: gap}
	if r.p(1, 3) {
		o.R = &readerSpec{Chunks: []int{r.in(100, 511)}}
	}
	for i := 0; i < 3; i++ {
		o.Vals = append(o.Vals, &sval{Type: "raw", Doc: []byte(r.pick(`{"a":1}`, `[1,2]`, `"text"`, `true`, `{"b":[{}]}`))})
	}
	b.task(o)
}

// nestDoc is a document with n levels of nesting.
func nestDoc(shape string, n int) (pre, suf string) {
	switch shape {
	case "next":
		return `{"next":`, `}`
	case "kids":
		return `{"kids":[`, `]}`
	case "m":
		return `{"m":{"k":`, `}}`
	case "obj":
		return `{"a" :`, `, "b":[]}`
	}
	return `[`, `]`
}

// execNest reads a document that is nested very deep: the work and the memory
// are proportional to its size.
func (c *opCtx) execNest() {
	o := c.op
	pre, suf := nestDoc(o.Type, o.N)
	in := "null"
	if o.Type == "kids" || o.Type == "next" || o.Type == "m" {
		in = `{}`
	}
	doc := []byte(strings.Repeat(pre, o.N) + in + strings.Repeat(suf, o.N))
	full := len(doc)
	if o.At > 0 {
		doc = doc[:full*o.At/100]
	}
	var ms0, ms1 runtime.MemStats
	runtime.ReadMemStats(&ms0)
	s0 := simrt.Step()
	it := c.dec().NewIterator()
	var rd *simReader
	if o.R != nil {
		rd = c.reader(o.R, doc)
		c.rd = nil
		it.Reset(rd)
	} else {
		it.ResetBytes(doc)
	}
	var err error
	depth := o.N
	switch o.Via {
	case "skip":
		err = it.Skip()
	case "skipraw":
		var b []byte
		b, err = it.SkipRaw()
		if err == nil && !bytes.Equal(b, doc) {
			c.fail("wrong-value", "nest/%s/%s: SkipRaw returned %d bytes, not the %d of the document", o.Via, o.Type, len(b), len(doc))
		}
	case "read":
		var x interface{}
		x, err = it.Read()
		if err == nil {
			depth = anyDepth(x)
		}
	case "any":
		var x interface{}
		err = it.ReadVal(&x)
		if err == nil {
			depth = anyDepth(x)
		}
	default:
		var x Rec
		err = it.ReadVal(&x)
		if err == nil {
			depth = recDepth(&x)
		}
	}
	it.Release()
	used := simrt.Step() - s0
	runtime.ReadMemStats(&ms1)
	reads := 0
	if rd != nil {
		reads = rd.calls
	}
	switch {
	case o.At > 0 && err == nil:
		c.fail("success-without-bytes", "nest/%s/%s: %d of %d bytes were accepted", o.Via, o.Type, len(doc), full)
	case o.At == 0 && err != nil:
		c.fail("unexpected-error", "nest/%s/%s: depth %d: %v", o.Via, o.Type, o.N, err)
	case depth != o.N:
		c.fail("wrong-value", "nest/%s/%s: depth %d became %d", o.Via, o.Type, o.N, depth)
	}
	if max := uint64(stepsBase + stepsPerByte*(len(doc)+reads)); used > max {
		c.fail("no-progress", "nest/%s/%s: %d steps for %d bytes and %d reads, more than %d", o.Via, o.Type, used, len(doc), reads, max)
	}
	if max := uint64(allocBase + allocPerByte*len(doc) + allocPerRead*reads); ms1.TotalAlloc-ms0.TotalAlloc > max {
		c.fail("no-progress", "nest/%s/%s: more than %d bytes were allocated for %d bytes and %d reads", o.Via, o.Type, max, len(doc), reads)
	}
	count(stNest)
}

func anyDepth(x interface{}) int {
	for n := 0; ; n++ {
		switch v := x.(type) {
		case []interface{}:
			if len(v) == 0 {
				return n
			}
			x = v[0]
		case map[string]interface{}:
			x = v["a"]
			if len(v) == 0 {
				return n
			}
		default:
			return n
		}
	}
}

func recDepth(r *Rec) int {
	for n := 0; ; n++ {
		switch {
		case r.Next != nil:
			r = r.Next
		case len(r.Kids) == 1:
			r = &r.Kids[0]
		case r.M["k"] != nil:
			r = r.M["k"]
		default:
			return n
		}
	}
}

// nested makes a document nested up to n levels deep.
func (b *builder) nested(n int) {
	r := b.r
	b.sc.Oracle = oracles{Model: true}
	b.sc.Budget = 1e12
	o := &op{Kind: "nest", Cfg: b.cfg("default"), N: 1 + r.n(n)}
	o.Via = r.pick("skip", "skipraw", "read", "any", "decode", "decode")
	if o.Via == "decode" {
		o.Type = r.pick("next", "kids", "m")
	} else {
		o.Type = r.pick("arr", "obj")
	}
	if r.p(1, 3) {
		o.At = r.in(1, 99)
	}
	if r.p(2, 3) {
		o.R = &readerSpec{Rest: r.in(0, 600)}
	}
	b.task(o)
}
