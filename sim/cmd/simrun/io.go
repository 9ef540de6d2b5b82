package main

import (
	"bytes"
	"io"
	"strings"
	"unsafe"

	"verif.local/sim/simrt"
)

// readerSpec is the complete behaviour of a simulated reader.
type readerSpec struct {
	Chunks   []int    `json:"chunks,omitempty"` // sizes of the first reads, 0 is an empty read
	Rest     int      `json:"rest"`             // size of the following reads, 0 is "all that fits"
	EOFData  bool     `json:"eofData,omitempty"`
	Scribble bool     `json:"scribble,omitempty"`
	Fault    *rfault  `json:"fault,omitempty"`
	Events   []*event `json:"events,omitempty"`
}

type rfault struct {
	At    int    `json:"at"`
	Kind  string `json:"kind"` // err, eof, panic
	Data  bool   `json:"data,omitempty"`
	Times int    `json:"times,omitempty"` // 0: for ever
	Err   string `json:"err,omitempty"`   // the error, see ioErrs
}

// event happens in the N-th Read or Write call.
type event struct {
	N   int    `json:"n"`
	Act string `json:"act"` // gc, grow, nested, yield
	Op  *op    `json:"op,omitempty"`
}

type simReader struct {
	c     *opCtx
	sp    *readerSpec
	data  []byte
	pos   int
	calls int
	zeros int
	fired int
	// lastPos is the position at the last call
	lastPos  int
	ended    bool // EOF or permanent failure was returned
	lastErr  error
	postErrs int
}

func (c *opCtx) reader(sp *readerSpec, data []byte) *simReader {
	if sp == nil {
		sp = &readerSpec{}
	}
	r := &simReader{c: c, sp: sp, data: data, lastPos: -1}
	c.rd = r
	return r
}

func (c *opCtx) events(evs []*event, n int) {
	if c.ts.run.solo {
		return
	}
	for _, e := range evs {
		if e.N != n {
			continue
		}
		switch e.Act {
		case "gc":
			doGC()
		case "grow":
			count(stGrow)
			growStack(40)
		case "yield":
			simrt.Point(true)
			simrt.Point(true)
		case "nested":
			if e.Op != nil && c.nest < 3 {
				count(stNested)
				c.nested(e.Op)
			}
		}
	}
}

func (r *simReader) Read(p []byte) (n int, err error) {
	simrt.Point(true)
	k := r.calls
	r.calls++
	r.lastPos = r.pos
	count(stReads)
	r.c.events(r.sp.Events, k)
	size := r.sp.Rest
	if k < len(r.sp.Chunks) {
		size = r.sp.Chunks[k]
		if size == 0 {
			r.zeros++
			count(stReadZero)
			r.scribble(p, 0)
			return 0, nil
		}
	}
	if size <= 0 || size > len(p) {
		size = len(p)
	}
	limit := len(r.data)
	f := r.sp.Fault
	armed := f != nil && (f.Times == 0 || r.fired < f.Times) && f.At <= len(r.data)
	if armed && f.At < limit {
		limit = f.At
	}
	if r.pos > limit {
		limit = r.pos
	}
	n = copy(p[:size], r.data[r.pos:limit])
	r.pos += n
	if n > 0 && n < len(p) {
		count(stReadShort)
	}
	r.scribble(p, n)
	if armed && r.pos == f.At && (n == 0 || f.Data && f.Kind != "panic") {
		r.fired++
		switch f.Kind {
		case "panic":
			count(stReadPanic)
			panic(injPanic{"injected reader panic"})
		case "eof":
			count(stReadEOFTrunc)
			r.ended = true
			return n, io.EOF
		}
		if n > 0 {
			count(stReadErrData)
		} else {
			count(stReadErr)
		}
		if f.Times > 0 {
			count(stReadTransient)
		} else {
			r.ended = true
		}
		r.lastErr = f.err()
		return n, f.err()
	}
	if n == 0 && len(p) > 0 {
		r.ended = true
		return 0, io.EOF
	}
	if r.sp.EOFData && r.pos == len(r.data) && !(armed && f.At == r.pos) {
		count(stReadEOFData)
		return n, io.EOF
	}
	return n, nil
}

// scribble uses the rest of p as scratch space, as the contract of io.Reader
// allows.
func (r *simReader) scribble(p []byte, n int) {
	if r.sp.Scribble && n < len(p) {
		count(stScribble)
		for i := n; i < len(p); i++ {
			p[i] = `"]}0,`[i%5]
		}
	}
}

// otherReader wraps the same bytes in a well known reader type.
func plainReader(kind string, data []byte) io.Reader {
	switch kind {
	case "bytes.Reader":
		return bytes.NewReader(data)
	case "strings.Reader":
		return strings.NewReader(string(data))
	case "bytes.Buffer":
		return bytes.NewBuffer(data)
	}
	return nil
}

// writerSpec is the complete behaviour of a simulated writer.
type writerSpec struct {
	Faults []*wfault `json:"faults,omitempty"`
	Events []*event  `json:"events,omitempty"`
}

type wfault struct {
	At   int    `json:"at"`   // number of accepted bytes at which it happens
	Kind string `json:"kind"` // err (short write), full (all accepted, with an error), panic, dead (fails for ever)
	Err  string `json:"err,omitempty"`
}

type simWriter struct {
	c       *opCtx
	sp      *writerSpec
	out     []byte
	calls   int
	fi      int
	dead    bool
	fired   int
	pan     bool
	lastErr error // of the last failure
}

func (c *opCtx) writer(sp *writerSpec) *simWriter {
	if sp == nil {
		sp = &writerSpec{}
	}
	w := &simWriter{c: c, sp: sp}
	c.wr = w
	return w
}

func (w *simWriter) Write(p []byte) (int, error) {
	simrt.Point(true)
	k := w.calls
	w.calls++
	count(stWrites)
	cp := append([]byte(nil), p...)
	w.c.events(w.sp.Events, k)
	if !bytes.Equal(cp, p) {
		w.c.fail("write-buffer-changed", "the bytes passed to Write changed during the call: %q -> %q", cp, p)
	}
	if w.dead {
		count(stWriteErr)
		w.fired++
		return 0, w.lastErr
	}
	if w.fi < len(w.sp.Faults) {
		f := w.sp.Faults[w.fi]
		if len(w.out)+len(p) > f.At || (f.Kind == "full" && len(w.out)+len(p) >= f.At) {
			w.fi++
			w.fired++
			w.lastErr = f.err()
			n := f.At - len(w.out)
			if n < 0 {
				n = 0
			}
			switch f.Kind {
			case "full":
				w.out = append(w.out, p...)
				count(stWriteFullErr)
				simrt.Point(true)
				return len(p), w.lastErr
			case "panic":
				w.out = append(w.out, p[:n]...)
				w.pan = true
				count(stWritePanic)
				panic(injPanic{"injected writer panic"})
			case "dead":
				w.dead = true
			}
			w.out = append(w.out, p[:n]...)
			if n > 0 {
				count(stWriteShort)
			} else {
				count(stWriteErr)
			}
			simrt.Point(true)
			return n, w.lastErr
		}
	}
	w.out = append(w.out, p...)
	simrt.Point(true)
	return len(p), nil
}

// pipeSpec describes a bounded pipe between two tasks.
type pipeSpec struct {
	Cap     int   `json:"cap"`
	Frag    []int `json:"frag,omitempty"` // sizes of the successive deliveries (cycled)
	BreakAt int   `json:"breakAt,omitempty"`
}

type simPipe struct {
	sp     *pipeSpec
	buf    []byte
	total  int // accepted
	read   int
	closed bool // by the writer: EOF
	broken bool
	fi     int
	addr   byte
}

func newPipe(sp *pipeSpec) *simPipe {
	return &simPipe{sp: sp, buf: make([]byte, 0, sp.Cap)}
}

//go:norace
func (p *simPipe) Write(b []byte) (int, error) {
	simrt.Point(true)
	n := 0
	for n < len(b) {
		if p.broken {
			return n, errWrite
		}
		if p.sp.BreakAt > 0 && p.total >= p.sp.BreakAt {
			p.broken = true
			count(stPipeBreak)
			simrt.Wake(unsafe.Pointer(p))
			return n, errWrite
		}
		room := p.sp.Cap - len(p.buf)
		if room == 0 {
			count(stPipeBlockW)
			simrt.Block(unsafe.Pointer(p))
			continue
		}
		k := len(b) - n
		if k > room {
			k = room
		}
		if p.sp.BreakAt > 0 && k > p.sp.BreakAt-p.total {
			k = p.sp.BreakAt - p.total
		}
		simrt.RaceReleaseMerge(unsafe.Pointer(&p.addr))
		l := len(p.buf)
		p.buf = p.buf[:l+k]
		for i := 0; i < k; i++ {
			p.buf[l+i] = b[n+i]
		}
		p.total += k
		n += k
		simrt.Wake(unsafe.Pointer(p))
		simrt.Point(true)
	}
	return n, nil
}

//go:norace
func (p *simPipe) Read(b []byte) (int, error) {
	simrt.Point(true)
	for len(p.buf) == 0 {
		if p.broken {
			return 0, errRead
		}
		if p.closed {
			return 0, io.EOF
		}
		count(stPipeBlockR)
		simrt.Block(unsafe.Pointer(p))
	}
	simrt.RaceAcquire(unsafe.Pointer(&p.addr))
	k := len(p.buf)
	if len(p.sp.Frag) > 0 {
		if f := p.sp.Frag[p.fi%len(p.sp.Frag)]; f < k {
			k = f
		}
		p.fi++
	}
	if k > len(b) {
		k = len(b)
	}
	for i := 0; i < k; i++ {
		b[i] = p.buf[i]
	}
	l := len(p.buf) - k
	for i := 0; i < l; i++ {
		p.buf[i] = p.buf[i+k]
	}
	p.buf = p.buf[:l]
	p.read += k
	simrt.Wake(unsafe.Pointer(p))
	simrt.Point(true)
	return k, nil
}

//go:norace
func (p *simPipe) Close() {
	simrt.Point(true)
	p.closed = true
	simrt.Wake(unsafe.Pointer(p))
}
