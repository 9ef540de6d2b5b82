package main

import (
	"encoding/json"
	"io"
	"runtime"
	"strconv"

	"github.com/zerosnake0/jzon"
	"verif.local/sim/simrt"
)

// memReader delivers n values made from templates, without storing them.
type memReader struct {
	vals   []*sval
	i, n   int
	pos    int
	chunks []int
	k      int
	sep    string
	fail   int // every n-th Read fails once
	calls  int
	base   int // number of the first repetition
	doc    []byte
	docI   int
	buf    []byte
}

func (r *memReader) cur() []byte {
	if r.doc == nil || r.docI != r.i {
		v := r.vals[r.i%len(r.vals)]
		r.doc, r.docI = v.filled(r.base+r.i, r.buf), r.i
		if v.Vary {
			r.buf = r.doc
		}
	}
	return r.doc
}

func (r *memReader) Read(p []byte) (int, error) {
	simrt.Point(true)
	count(stReads)
	r.calls++
	if r.fail > 0 && r.calls%r.fail == 0 {
		count(stReadErr)
		return 0, errMem
	}
	max := len(p)
	if len(r.chunks) > 0 {
		if c := r.chunks[r.k%len(r.chunks)]; c > 0 && c < max {
			max = c
		}
		r.k++
	}
	n := 0
	for n < max && r.i < r.n {
		d := r.cur()
		if r.pos < len(d) {
			c := copy(p[n:max], d[r.pos:])
			n += c
			r.pos += c
			continue
		}
		sep := r.sep
		if sep == "" {
			sep = "\n"
		}
		c := copy(p[n:max], sep[r.pos-len(d):])
		n += c
		r.pos += c
		if r.pos == len(d)+len(sep) {
			r.pos = 0
			r.i++
		}
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

type memWriter struct {
	n     int
	fail  int // every n-th Write accepts half and fails
	calls int
}

func (w *memWriter) Write(p []byte) (int, error) {
	simrt.Point(true)
	count(stWrites)
	w.calls++
	if w.fail > 0 && w.calls%w.fail == 0 {
		count(stWriteErr)
		w.n += len(p) / 2
		return len(p) / 2, errMem
	}
	w.n += len(p)
	return len(p), nil
}

// memFail is an Unmarshaler that fails in turn
type memFail struct{ n int }

func (m *memFail) UnmarshalJSON(b []byte) error {
	m.n++
	switch m.n % 3 {
	case 0:
		return errMem
	case 1:
		panic(errMem)
	}
	return nil
}

func liveHeap() uint64 {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

const memSlack = 64 << 10

var errMem error = &injErr{"injected"}

// execMem repeats an operation on a long stream (or many times) and checks
// that the memory still in use does not grow with the number of repetitions.
func (c *opCtx) execMem() {
	o := c.op
	count(stMemRuns)
	max := 0
	for _, v := range o.Vals {
		if len(v.Doc) > max {
			max = len(v.Doc)
		}
	}
	limit := uint64(memSlack + 8*max)
	if o.Via == "itany" { // the last value at a measurement may be any
		limit = uint64(memSlack + 32*max)
	}
	// what is left of the last value is not growth: measure after the same one
	at := func(i, k int) bool {
		l := len(o.Vals)
		if l == 0 {
			return i == k
		}
		return i == k-((k-(o.N-1))%l+l)%l
	}
	var first uint64
	total := 0
	err := c.memLoop(func(i, size int) bool {
		total += size
		switch {
		case c.or().Progress: // the memory is not the matter
		case at(i, o.N/4):
			first = liveHeap()
		case at(i, o.N/2) || at(i, 3*o.N/4) || i == o.N-1:
			now := liveHeap()
			if first > 0 && now > first+limit {
				c.fail("memory-grows", "%s: after %d values the memory in use is %d bytes larger than after %d values (largest value %d bytes, %d bytes processed)", o.Via, i, now-first, o.N/4, max, total)
				return false
			}
		}
		return c.ts.viol == nil
	})
	if err != nil {
		c.fail("unexpected-error", "%s: %v", o.Via, err)
	}
}

func (c *opCtx) memLoop(check func(i, size int) bool) error {
	o := c.op
	var chunks []int
	if o.R != nil {
		chunks = o.R.Chunks
	}
	val := func(i int) *sval { return o.Vals[i%len(o.Vals)] }
	switch o.Via {
	case "dec":
		dec := c.dec().NewDecoder(&memReader{vals: o.Vals, n: o.N, chunks: chunks})
		for i := 0; i < o.N; i++ {
			v := val(i)
			var x interface{}
			switch v.Act {
			case "raw":
				x = new(json.RawMessage)
			case "any":
				x = new(interface{})
			default:
				x = newTarget(v.Type)
			}
			if err := dec.Decode(x); err != nil {
				return err
			}
			count(stDecodeOps)
			if !check(i, len(v.Doc)) {
				return nil
			}
		}
		dec.Release()
	case "it":
		it := c.iterator()
		it.Reset(&memReader{vals: o.Vals, n: o.N, chunks: chunks})
		for i := 0; i < o.N; i++ {
			v := val(i)
			var err error
			switch v.Act {
			case "skip":
				err = it.Skip()
			case "skipraw":
				_, err = it.SkipRaw()
			case "readraw":
				_, err = it.ReadRaw()
			case "read":
				_, err = it.Read()
			default:
				err = it.ReadVal(newTarget(v.Type))
			}
			if err != nil {
				return err
			}
			count(stDecodeOps)
			if !check(i, len(v.Doc)) {
				return nil
			}
		}
		it.Release()
	case "itany": // errors and all: the stream goes on
		it := c.iterator()
		r := &memReader{vals: o.Vals, n: o.N, chunks: chunks, sep: "\n\x01\n", fail: o.At}
		it.Reset(r)
		var mf memFail
		seen, longest := 0, 0
		for _, v := range o.Vals {
			if len(v.Doc) > longest {
				longest = len(v.Doc)
			}
		}
		for k, bad := 0, 0; ; k++ {
			v := val(k)
			var err error
			act := v.Act
			if bad > 5 || bad%3 == 2 {
				act = "skip" // always gets on
			}
			s0, r0 := simrt.Step(), r.calls
			c.guard2(func() {
				switch act {
				case "skip":
					err = it.Skip()
				case "skipraw":
					_, err = it.SkipRaw()
				case "readraw":
					_, err = it.ReadRaw()
				case "read":
					_, err = it.Read()
				case "fails":
					err = it.ReadVal(&mf)
				case "objcb":
					err = it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
						if mf.n++; mf.n%4 == 0 {
							return errMem
						}
						_, err := it.SkipRaw()
						return err
					})
				case "arrcb":
					err = it.ReadArrayCB(func(it *jzon.Iterator) error {
						if mf.n++; mf.n%4 == 0 {
							return errMem
						}
						return it.Skip()
					})
				default:
					err = it.ReadVal(newTarget(v.Type))
				}
			}, &err)
			count(stDecodeOps)
			if used, max := simrt.Step()-s0, uint64(stepsBase+stepsPerByte*(2*longest+r.calls-r0)); used > max && c.or().Progress {
				c.fail("no-progress", "call %d (%s) took %d steps and %d reads, the largest value has %d bytes", k, act, used, r.calls-r0, longest)
				return nil
			}
			if isErr(err, io.EOF) && r.i >= r.n {
				break
			}
			if err != nil {
				bad++
			} else {
				bad = 0
			}
			for seen < r.i && seen < o.N-1 {
				if !check(seen, len(val(seen).Doc)) {
					return nil
				}
				seen++
			}
		}
		for ; seen < o.N; seen++ {
			if !check(seen, len(val(seen).Doc)) {
				return nil
			}
		}
		it.Release()
	case "unm":
		for i := 0; i < o.N; i++ {
			v := val(i)
			x := newTarget(v.Type)
			err := c.dec().Unmarshal(v.filled(i, nil), x)
			if err != nil && !o.Dirty {
				return err
			}
			count(stDecodeOps)
			if !check(i, len(v.Doc)) {
				return nil
			}
		}
	case "unmreader":
		for i := 0; i < o.N; i++ {
			v := val(i)
			x := newTarget(v.Type)
			err := c.dec().UnmarshalFromReader(&memReader{vals: []*sval{v}, n: 1, base: i, chunks: chunks}, x)
			if err != nil && !o.Dirty {
				return err
			}
			count(stDecodeOps)
			if !check(i, len(v.Doc)) {
				return nil
			}
		}
	case "itreset":
		it := c.iterator()
		for i := 0; i < o.N; i++ {
			v := val(i)
			r := &memReader{vals: []*sval{v}, n: 1, base: i, chunks: chunks}
			it.Reset(r)
			var err error
			switch v.Act {
			case "skipraw":
				_, err = it.SkipRaw()
			case "skip":
				err = it.Skip()
			case "cut": // leave in the middle
				_, err = it.NextValueType()
			default:
				err = it.ReadVal(newTarget(v.Type))
			}
			if err != nil && !o.Dirty {
				return err
			}
			count(stDecodeOps)
			if !check(i, len(v.Doc)) {
				return nil
			}
		}
		it.Release()
	case "itnew":
		for i := 0; i < o.N; i++ {
			v := val(i)
			it := c.iterator()
			it.Reset(&memReader{vals: []*sval{v}, n: 1, base: i, chunks: chunks})
			it.Context = "ctx " + strconv.Itoa(i)
			var err error
			switch v.Act {
			case "skipraw":
				_, err = it.SkipRaw()
			case "skip":
				err = it.Skip()
			case "cut":
				_, err = it.NextValueType()
			default:
				err = it.ReadVal(newTarget(v.Type))
			}
			if err != nil && !o.Dirty {
				return err
			}
			if v.Pre&16 == 0 {
				it.Release()
			}
			count(stDecodeOps)
			if !check(i, len(v.Doc)) {
				return nil
			}
		}
	case "marshal", "est", "streamer", "stnew":
		vals := make([]interface{}, len(o.Vals))
		for i, v := range o.Vals {
			if !v.Vary {
				vals[i] = makeValue(v)
			}
		}
		w := memWriter{fail: o.At}
		var enc *jzon.Encoder
		var s *jzon.Streamer
		if o.Via == "est" {
			enc = c.enc().NewEncoder(&w)
		}
		if o.Via == "streamer" {
			s = c.streamer()
			s.Reset(&w)
			s.ArrayStart()
		}
		for i := 0; i < o.N; i++ {
			x := vals[i%len(vals)]
			if v := o.Vals[i%len(vals)]; v.Vary {
				w := *v
				w.Doc = v.filled(i, nil)
				x = makeValue(&w)
			}
			fails := false
			if b := o.Vals[i%len(vals)].Bad; b != "" {
				_, fails = badValue(b)
			}
			var err error
			switch o.Via {
			case "marshal":
				_, err = c.enc().Marshal(x)
			case "est":
				err = enc.Encode(x)
			case "streamer":
				err = s.Value(x).Flush()
				for k := 0; k < 8 && err == errMem; k++ {
					err = s.Flush()
				}
			case "stnew":
				s := c.streamer()
				s.Reset(&w)
				s.Context = i
				err = s.Value(x).Error
				if i%3 != 0 {
					s.Flush()
				}
				s.Release()
			}
			if (err != nil) != fails {
				return err
			}
			count(stEncodeOps)
			if !check(i, len(o.Vals[i%len(vals)].Doc)) {
				return nil
			}
		}
	default:
		panic("harness: via " + o.Via)
	}
	return nil
}

// guard2 turns an injected panic into an error
func (c *opCtx) guard2(f func(), err *error) {
	defer func() {
		if r := recover(); r != nil {
			if r != interface{}(errMem) {
				panic(r)
			}
			*err = errMem
		}
	}()
	f()
}
