package main

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	"github.com/zerosnake0/jzon"
	"verif.local/sim/simrt"
	"verif.local/sim/ssync"
)

// A scenario is one simulated run, completely explicit: replaying it needs
// nothing but this value and the code.
type scenario struct {
	Prop   string    `json:"prop"`
	Seed   uint64    `json:"seed"` // the seed it was generated from (information only)
	Index  int       `json:"index"`
	Mode   string    `json:"mode,omitempty"`
	Cfgs   []cfgSpec `json:"cfgs"`
	Tasks  []*taskSp `json:"tasks"`
	Oracle oracles   `json:"oracle"`

	Pool     ssync.PoolPolicy `json:"pool"`
	PoolSeed uint64           `json:"poolSeed"`
	MapSeed  uint64           `json:"mapSeed"`

	Strategy  simrt.Strategy   `json:"strategy"`
	SchedSeed uint64           `json:"schedSeed"`
	Fixed     bool             `json:"fixed,omitempty"` // follow Schedule
	Schedule  []simrt.Decision `json:"schedule,omitempty"`
	Budget    uint64           `json:"budget"`
	GCEnd     bool             `json:"gcEnd,omitempty"`
	YieldGC   []uint64         `json:"yieldGC,omitempty"`
	RawGC     []uint64         `json:"rawGC,omitempty"`
	Pipes     []*pipeSpec      `json:"pipes,omitempty"`
}

type oracles struct {
	Solo     bool `json:"solo,omitempty"`     // transcripts equal those of the same operation run alone
	Bytes    bool `json:"bytes,omitempty"`    // the outcome equals the one of decoding the same bytes in one slice
	Std      bool `json:"std,omitempty"`      // decoded values equal those of encoding/json
	Model    bool `json:"model,omitempty"`    // positions, conservation, prefixes, errors: the reference model
	Retain   bool `json:"retain,omitempty"`   // results and inputs unchanged at the end
	Prompt   bool `json:"prompt,omitempty"`   // no read once the value is complete
	Progress bool `json:"progress,omitempty"` // steps and reads proportional to the input
}

type taskSp struct {
	Ops []*op `json:"ops"`
}

// op is one operation (or one session on a stream) of a task.
type op struct {
	Kind string `json:"kind"`
	Cfg  int    `json:"cfg"`
	Via  string `json:"via,omitempty"`
	Type string `json:"type,omitempty"`
	Doc  []byte `json:"doc,omitempty"`
	// Text is Doc in readable form, information only.
	Text string `json:"text,omitempty"`

	Vals []*sval     `json:"vals,omitempty"`
	Seps []string    `json:"seps,omitempty"`
	Prog []*sop      `json:"prog,omitempty"`
	R    *readerSpec `json:"r,omitempty"`
	W    *writerSpec `json:"w,omitempty"`
	CB   []*cbAct    `json:"cb,omitempty"`

	Choice []int  `json:"choice,omitempty"` // API choices of an iterator walk
	End    string `json:"end,omitempty"`    // release (default), abandon, keep
	Slot   int    `json:"slot,omitempty"`   // 1.. : reuse the object of that slot through Reset

	UseNumber bool    `json:"useNumber,omitempty"`
	Disallow  bool    `json:"disallow,omitempty"`
	NoHTML    bool    `json:"noHTML,omitempty"`
	SetHTML   bool    `json:"setHTML,omitempty"` // call EscapeHTML(!NoHTML) explicitly
	Ctx       bool    `json:"ctx,omitempty"`
	StopAfter int     `json:"stopAfter,omitempty"` // leave the session after that many values
	Pipe      int     `json:"pipe,omitempty"`
	Pipe2     int     `json:"pipe2,omitempty"`
	N         int     `json:"n,omitempty"`
	At        int     `json:"at,omitempty"`  // mem: every n-th Read or Write fails
	Bad       string  `json:"bad,omitempty"` // kind of failing value
	Fill      int     `json:"fill,omitempty"`
	Preset    *preset `json:"preset,omitempty"` // what the target holds before
	Tail      string  `json:"tail,omitempty"`   // follows the last separator of a stream: no value
	Dirty     bool    `json:"dirty,omitempty"`  // the document may be invalid: no reference value

	exp *prep
}

type sval struct {
	Type   string  `json:"type"`
	Doc    []byte  `json:"doc"`
	Text   string  `json:"text,omitempty"`
	Act    string  `json:"act,omitempty"`
	Pre    int     `json:"pre,omitempty"` // bits: 1 More, 2 Buffered, 4 InputOffset
	Bad    string  `json:"bad,omitempty"`
	Preset *preset `json:"preset,omitempty"`
	Misfit int     `json:"misfit,omitempty"` // the value is first read into targets it does not fit, that many times
	Vary   bool    `json:"vary,omitempty"`   // Doc has marks, different in every repetition
	Fill   int     `json:"fill,omitempty"`   // encoded inside a value with that many other bytes
}

// cbAct is what happens in the N-th user callback of an operation.
type cbAct struct {
	N   int    `json:"n"`
	Act string `json:"act"`           // err, panic, gc, grow, yield, nested
	Err string `json:"err,omitempty"` // the error it returns, if not one of its own
	Op  *op    `json:"op,omitempty"`
}

// prep holds what was computed before the run.
type prep struct {
	solo []string

	wrong []string // of the encodings

	// decoding
	std      []string
	stdOK    []bool
	fits     []bool // the value fits the type under the config's settings
	nodes    []*node
	data     []byte
	starts   []int
	ends     []int
	bytesOK  bool
	bytesVal string

	// encoding
	vals  []interface{}
	snaps []string
	encs  [][]byte // encodings of the values alone
	fails []bool   // the encoding alone fails
	want  []byte   // streamer: all the bytes
	marks []int    // streamer: number of bytes produced at each flush
}

type violation struct {
	Class  string `json:"class"`
	Task   int    `json:"task"`
	Op     int    `json:"op"`
	Step   uint64 `json:"step"`
	Detail string `json:"detail"`
}

func (v *violation) String() string {
	return fmt.Sprintf("[%s] task %d op %d step %d: %s", v.Class, v.Task, v.Op, v.Step, v.Detail)
}

// runState is the state of one run.
type runState struct {
	sc    *scenario
	decs  []*jzon.DecoderConfig
	encs  []*jzon.EncoderConfig
	pipes []*simPipe
	tasks []*taskState
	solo  bool
}

type taskState struct {
	run   *runState
	id    int
	opIdx int
	stack []*opCtx
	slots map[string]interface{}
	viol  *violation
	kept  []*retained
	ops   int
	abort bool
	quiet bool // the harness itself runs callbacks
}

type retained struct {
	what string
	val  interface{}
	snap string
	op   int
}

type opCtx struct {
	ts   *taskState
	op   *op
	log  []string
	cbN  int
	rd   *simReader
	wr   *simWriter
	up   *opCtx
	s0   uint64
	nest int

	seen     int  // reader failures reported by the library
	cbFailed bool // a callback returned an error
	cbErr    error
}

func curTask() *taskState {
	if t := simrt.Cur(); t != nil {
		ts, _ := t.Data.(*taskState)
		return ts
	}
	return nil
}

func curCtx() *opCtx {
	ts := curTask()
	if ts == nil || len(ts.stack) == 0 {
		return nil
	}
	return ts.stack[len(ts.stack)-1]
}

// log1 adds an observation to the transcript. No fmt here: its pools would
// order the tasks for the race detector.
func (c *opCtx) log1(parts ...string) {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	b := make([]byte, 0, n)
	for _, p := range parts {
		b = append(b, p...)
	}
	s := string(b)
	if len(s) > 1500 {
		s = s[:1400] + "...(" + strconv.Itoa(len(s)) + " bytes, hash " + strconv.FormatUint(hashString(s), 16) + ")"
	}
	c.log = append(c.log, s)
}

func hashString(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// fail records a violation found by an oracle.
func (c *opCtx) fail(class, f string, a ...interface{}) {
	if c.ts.run.solo || c.ts.viol != nil {
		return
	}
	d := fmt.Sprintf(f, a...)
	if len(d) > 3000 {
		d = d[:3000] + "..."
	}
	c.ts.viol = &violation{Class: class, Task: c.ts.id, Op: c.ts.opIdx, Step: simrt.Step(), Detail: c.op.Kind + "/" + c.op.Via + "/" + c.op.Type + ": " + d}
}

func (c *opCtx) or() *oracles { return &c.ts.run.sc.Oracle }

func noteBufferChanged(where, was string, now []byte) {
	if c := curCtx(); c != nil {
		c.fail("callback-input-changed", "%s: the bytes passed to the callback changed during the callback: %q -> %q", where, was, now)
	}
}

type injErr struct{ s string }

func (e *injErr) Error() string { return e.s }

type injPanic struct{ s string }

var (
	errCallback = &injErr{"injected callback error"}
	errRead     = &injErr{"injected read error"}
	errWrite    = &injErr{"injected write error"}
)

// tempErr is what a network connection returns on a timeout.
type tempErr struct{ s string }

func (e *tempErr) Error() string   { return e.s }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return true }

// The errors readers and writers of real programs return: a failure is a
// failure whatever its type.
var ioErrs = map[string]error{
	"temp":     &tempErr{"injected timeout"},
	"ueof":     io.ErrUnexpectedEOF,
	"wrapeof":  fmt.Errorf("injected: connection reset: %w", io.EOF),
	"closed":   io.ErrClosedPipe,
	"short":    io.ErrShortWrite,
	"noprog":   io.ErrNoProgress,
	"eintr":    syscall.EINTR,
	"eagain":   syscall.EAGAIN,
	"enospc":   &os.PathError{Op: "write", Path: "/injected", Err: syscall.ENOSPC},
	"deadline": os.ErrDeadlineExceeded,
	"weof":     io.EOF, // writers only
}

var (
	rerrKinds = []string{"temp", "ueof", "wrapeof", "closed", "noprog", "eintr", "eagain", "deadline"}
	werrKinds = []string{"temp", "short", "closed", "eintr", "eagain", "enospc", "deadline", "weof", "noprog"}
)

// The errors callbacks of real programs return: those of other decoders, of
// this library, of the readers they use.
var cbErrs = map[string]error{
	"eof":     io.EOF,
	"ueof":    io.ErrUnexpectedEOF,
	"wrapeof": fmt.Errorf("injected: user: %w", io.EOF),
	"remain":  jzon.ErrDataRemained,
	"iface":   jzon.ErrEmptyIFace,
	"nilptr":  jzon.ErrNilPointerReceiver,
	"unknown": jzon.UnknownFieldError("injected"),
	"unsupp":  jzon.TypeNotSupportedError("injected"),
	"nowr":    jzon.ErrNoAttachedWriter,
}

var cbErrKinds = []string{"eof", "ueof", "wrapeof", "remain", "iface", "nilptr", "decode", "unknown", "unsupp", "nowr"}

func (a *cbAct) err() error {
	if a.Err == "" {
		return errCallback
	}
	if a.Err == "decode" { // that of a decoder the callback used
		it := jzon.NewIterator()
		it.ResetBytes([]byte("injected"))
		err := it.WrapError(errCallback)
		it.Release()
		return err
	}
	return cbErrs[a.Err]
}

func (f *rfault) err() error {
	if f == nil || f.Err == "" {
		return errRead
	}
	return ioErrs[f.Err]
}

func (f *wfault) err() error {
	if f == nil || f.Err == "" {
		return errWrite
	}
	return ioErrs[f.Err]
}

// callback is called by every user callback of the harness types.
func callback(name string) error {
	c := curCtx()
	if c == nil || c.ts.quiet {
		return nil
	}
	n := c.cbN
	c.cbN++
	count(stCallbacks)
	solo := c.ts.run.solo
	if !solo {
		simrt.Point(true)
	}
	for _, a := range c.op.CB {
		if a.N != n {
			continue
		}
		switch a.Act {
		case "err":
			count(stCbErr)
			c.cbFailed = true
			c.cbErr = a.err()
			return c.cbErr
		case "panic":
			count(stCbPanic)
			panic(injPanic{"injected callback panic"})
		case "gc":
			if !solo {
				doGC()
			}
		case "grow":
			if !solo {
				growStack(40)
				count(stGrow)
			}
		case "yield":
			if !solo {
				for i := 0; i < 3; i++ {
					simrt.Point(true)
				}
			}
		case "nested":
			if !solo && a.Op != nil && c.nest < 3 {
				count(stNested)
				c.nested(a.Op)
			}
		}
	}
	return nil
}

// nested runs another operation inside the current one.
func (c *opCtx) nested(o *op) {
	if o.exp == nil {
		return
	}
	log := c.ts.runOp(o, c)
	c.ts.compare(c, o, log, "nested operation")
}

func doGC() {
	count(stGC)
	runtime.GC()
	ssync.Clear()
}

//go:noinline
func growStack(n int) int {
	var pad [512]byte
	pad[n] = byte(n)
	if n == 0 {
		return int(pad[0])
	}
	return growStack(n-1) + int(pad[n])
}

func (ts *taskState) runOp(o *op, up *opCtx) (log []string) {
	c := &opCtx{ts: ts, op: o, up: up, s0: simrt.Step()}
	if up != nil {
		c.nest = up.nest + 1
	}
	depth := len(ts.stack)
	ts.stack = append(ts.stack, c)
	defer func() {
		ts.stack = ts.stack[:depth]
		log = c.log
	}()
	measure := c.or().Progress && up == nil && !ts.run.solo && len(ts.run.tasks) == 1 && o.Kind != "mem" && o.size() >= allocMin
	var m0, m1 runtime.MemStats
	if measure {
		runtime.ReadMemStats(&m0)
	}
	c.exec()
	if measure {
		runtime.ReadMemStats(&m1)
		c.checkAlloc(m1.TotalAlloc - m0.TotalAlloc)
	}
	if c.or().Progress && up == nil {
		c.checkProgress()
	}
	return
}

// guard runs f, turning an injected panic into a log line. Any other panic is
// a violation.
func (c *opCtx) guard(f func()) (panicked bool) {
	depth := len(c.ts.stack)
	defer func() {
		if r := recover(); r != nil {
			if len(c.ts.stack) > depth {
				c.ts.stack = c.ts.stack[:depth]
			}
			panicked = true
			if m, ok := r.(string); ok && strings.HasPrefix(m, "harness") {
				panic(r)
			}
			if p, ok := r.(injPanic); ok {
				c.log1("panic: ", p.s)
				return
			}
			buf := make([]byte, 6000)
			buf = buf[:runtime.Stack(buf, false)]
			c.log1("PANIC: ", fmt.Sprint(r))
			c.fail("panic", "unexpected panic: %v\n%s", r, buf)
		}
	}()
	f()
	return false
}

func (ts *taskState) compare(c *opCtx, o *op, log []string, what string) {
	if !ts.run.sc.Oracle.Solo || o.exp == nil || ts.viol != nil || ts.run.solo {
		return
	}
	want := o.exp.solo
	if len(want) != len(log) {
		c.fail("differs-from-alone", "%s %s/%s/%s: %d observations, alone %d\n got: %s\nwant: %s", what, o.Kind, o.Via, o.Type, len(log), len(want), strings.Join(log, " | "), strings.Join(want, " | "))
		return
	}
	for i := range log {
		if log[i] != want[i] {
			c.fail("differs-from-alone", "%s %s/%s/%s: observation %d\n got: %s\nwant: %s", what, o.Kind, o.Via, o.Type, i, log[i], want[i])
			return
		}
	}
}

func (ts *taskState) main() {
	for i, o := range ts.run.sc.Tasks[ts.id].Ops {
		if ts.viol != nil || ts.abort {
			return
		}
		ts.opIdx = i
		ts.ops++
		c := &opCtx{ts: ts, op: o}
		log := ts.runOp(o, nil)
		ts.compare(c, o, log, "operation")
		simrt.Point(true)
	}
}

// retain remembers a result: it must look the same at the end of the run.
func (c *opCtx) retain(what string, v interface{}) {
	if c.ts.run.solo || !c.or().Retain {
		return
	}
	snap := render(v)
	useSpare(reflect.ValueOf(v), map[uintptr]bool{}, 0)
	c.ts.kept = append(c.ts.kept, &retained{what: what, val: v, snap: snap, op: c.ts.opIdx})
}

// collect the nested operations
func (o *op) walk(f func(*op)) {
	f(o)
	for _, a := range o.CB {
		if a.Op != nil {
			a.Op.walk(f)
		}
	}
	if o.R != nil {
		for _, e := range o.R.Events {
			if e.Op != nil {
				e.Op.walk(f)
			}
		}
	}
	if o.W != nil {
		for _, e := range o.W.Events {
			if e.Op != nil {
				e.Op.walk(f)
			}
		}
	}
}

func (sc *scenario) walk(f func(*op)) {
	for _, t := range sc.Tasks {
		for _, o := range t.Ops {
			o.walk(f)
		}
	}
}

func newRun(sc *scenario) *runState {
	rs := &runState{sc: sc}
	for _, c := range sc.Cfgs {
		rs.decs = append(rs.decs, newDecCfg(c.Kind))
		rs.encs = append(rs.encs, newEncCfg(c.Kind))
	}
	return rs
}

// preparing is set while operations run alone.
var preparing bool

// alone runs f as the only task of a simulation.
func alone(f func()) simrt.Result {
	preparing = true
	ssync.Reset(ssync.PoolPolicy{NewP: 256}, 0)
	simrt.SeedMaps(0)
	res := simrt.Run(simrt.Config{Strategy: simrt.Strategy{Kind: "serial"}, Budget: aloneBudget}, []func(){f}, nil)
	preparing = false
	return res
}

const aloneBudget = 400e6

// aloneTask makes the task that runs one operation on fresh configs.
func (sc *scenario) aloneTask(o *op) *taskState {
	rs := &runState{sc: sc, solo: true}
	rs.decs = make([]*jzon.DecoderConfig, len(sc.Cfgs))
	rs.encs = make([]*jzon.EncoderConfig, len(sc.Cfgs))
	rs.decs[o.Cfg] = newDecCfg(sc.Cfgs[o.Cfg].Kind)
	rs.encs[o.Cfg] = newEncCfg(sc.Cfgs[o.Cfg].Kind)
	jzon.DefaultDecoderConfig = jzon.NewDecoderConfig(nil)
	jzon.DefaultEncoderConfig = jzon.NewEncoderConfig(nil)
	return &taskState{run: rs, slots: map[string]interface{}{}}
}

// prepare runs every operation alone, on fresh configs and objects, and keeps
// what was observed.
func (sc *scenario) prepare() simrt.Result {
	return alone(func() {
		sc.walk(func(o *op) {
			if o.exp != nil {
				return
			}
			o.exp = &prep{}
			o.prepare(sc)
			if !sc.Oracle.Solo || o.Kind == "psend" || o.Kind == "precv" || o.Kind == "ping" || o.Kind == "pong" || o.Kind == "mem" || o.Kind == "far" || o.Kind == "nest" {
				return
			}
			ts := sc.aloneTask(o)
			simrt.Cur().Data = ts
			o.exp.solo = ts.runOp(o, nil)
			simrt.Cur().Data = nil
		})
	})
}

// dry runs one operation alone and returns how many callbacks, reads and
// writes it made.
func (sc *scenario) dry(o *op) (cbs, reads, writes int) {
	if o.Kind == "psend" || o.Kind == "ping" {
		x := *o
		x.Kind = "estream"
		o = &x
	}
	alone(func() {
		o.exp = &prep{}
		o.prepare(sc)
		ts := sc.aloneTask(o)
		simrt.Cur().Data = ts
		c := &opCtx{ts: ts, op: o}
		ts.stack = append(ts.stack, c)
		c.exec()
		cbs = c.cbN
		if c.rd != nil {
			reads = c.rd.calls
		}
		if c.wr != nil {
			writes = c.wr.calls
		}
	})
	o.exp = nil
	return
}

func failClass(res simrt.Result) string {
	switch {
	case strings.HasPrefix(res.Failure, "step"):
		return "no-progress"
	case strings.HasPrefix(res.Failure, "panic"):
		return "panic"
	}
	return "deadlock"
}

// run executes the scenario under the simulator.
func (sc *scenario) run() (*violation, simrt.Result) {
	if sc.Mode == "fresh" {
		return sc.runFresh()
	}
	if res := sc.prepare(); res.Failure != "" {
		if strings.HasPrefix(res.Failure, "panic: harness") {
			panic(res.Failure)
		}
		return &violation{Class: failClass(res), Task: -1, Op: -1, Step: res.Steps, Detail: "operation run alone: " + res.Failure + "\n" + trimStack(res.PanicStack)}, res
	}
	return sc.simulate()
}

// simulate runs the tasks of a prepared scenario.
func (sc *scenario) simulate() (*violation, simrt.Result) {
	rs := newRun(sc)
	jzon.DefaultDecoderConfig = jzon.NewDecoderConfig(nil)
	jzon.DefaultEncoderConfig = jzon.NewEncoderConfig(nil)
	for _, p := range sc.Pipes {
		rs.pipes = append(rs.pipes, newPipe(p))
	}
	ssync.Reset(sc.Pool, sc.PoolSeed)
	simrt.SeedMaps(sc.MapSeed)
	var fns []func()
	var data []interface{}
	for i := range sc.Tasks {
		ts := &taskState{run: rs, id: i, slots: map[string]interface{}{}}
		rs.tasks = append(rs.tasks, ts)
		fns = append(fns, ts.main)
		data = append(data, ts)
	}
	races := simrt.RaceErrors()
	res := simrt.Run(simrt.Config{Seed: sc.SchedSeed, Strategy: sc.Strategy, Budget: sc.Budget, Replay: sc.Fixed, Schedule: sc.Schedule,
		At: sc.YieldGC, AtRaw: sc.RawGC, OnAt: gcAtStep}, fns, data)
	var v *violation
	for _, ts := range rs.tasks {
		if ts.viol != nil && (v == nil || ts.viol.Step < v.Step) {
			v = ts.viol
		}
	}
	if res.Failure != "" && v == nil {
		if strings.HasPrefix(res.Failure, "panic: harness") {
			panic(res.Failure)
		}
		v = &violation{Class: failClass(res), Task: res.FailTask, Op: rs.tasks[res.FailTask].opIdx, Step: res.Steps, Detail: res.Failure + "\n" + trimStack(res.PanicStack)}
	}
	if v == nil && simrt.RaceErrors() > races {
		v = &violation{Class: "data-race", Task: -1, Op: -1, Step: res.Steps, Detail: "the race detector reported a data race between library accesses"}
	}
	if v == nil && sc.Oracle.Retain {
		v = rs.checkRetained()
	}
	ssync.Reset(ssync.PoolPolicy{}, 0)
	return v, res
}

// gcAtStep happens in the middle of a statement sequence of the library.
func gcAtStep() {
	doGC()
	count(stGrow)
	growStack(40)
}

func trimStack(s string) string {
	if len(s) > 5000 {
		return s[:5000]
	}
	return s
}

func (rs *runState) checkRetained() *violation {
	// the caller reuses its input buffers
	for _, ts := range rs.tasks {
		for _, k := range ts.kept {
			if b, ok := k.val.(*inputBuf); ok {
				if string(b.b) != b.orig {
					return &violation{Class: "input-modified", Task: ts.id, Op: k.op, Detail: fmt.Sprintf("input modified: %q -> %q", b.orig, b.b)}
				}
			}
		}
	}
	for _, ts := range rs.tasks {
		for _, k := range ts.kept {
			if b, ok := k.val.(*inputBuf); ok {
				for i := range b.b {
					b.b[i] = 0xAA
				}
			}
		}
	}
	// and appends to what it got
	for _, ts := range rs.tasks {
		for _, k := range ts.kept {
			switch k.val.(type) {
			case *inputBuf, *keptErr:
			default:
				useSpare(reflect.ValueOf(k.val), map[uintptr]bool{}, 0)
			}
		}
	}
	if rs.sc.GCEnd {
		runtime.GC()
		count(stGC)
	}
	for _, ts := range rs.tasks {
		for _, k := range ts.kept {
			if _, ok := k.val.(*inputBuf); ok {
				continue
			}
			now := ""
			if e, ok := k.val.(*keptErr); ok {
				now = e.err.Error()
			} else {
				now = render(k.val)
			}
			if now != k.snap {
				return &violation{Class: "result-changed", Task: ts.id, Op: k.op, Detail: fmt.Sprintf("%s changed after it was returned:\n was: %.800s\n now: %.800s", k.what, k.snap, now)}
			}
		}
	}
	return nil
}

type inputBuf struct {
	b    []byte
	orig string
}

// input gives the library its own copy of a document; with the Retain oracle
// it is checked and overwritten at the end of the run.
func (c *opCtx) input(doc []byte) []byte {
	b := append(make([]byte, 0, len(doc)+8), doc...)
	if c.or().Retain && !c.ts.run.solo {
		c.ts.kept = append(c.ts.kept, &retained{what: "input", val: &inputBuf{b: b, orig: string(doc)}, op: c.ts.opIdx})
	}
	return b
}

func (c *opCtx) dec() *jzon.DecoderConfig { return c.ts.run.decs[c.op.Cfg] }
func (c *opCtx) enc() *jzon.EncoderConfig { return c.ts.run.encs[c.op.Cfg] }
func (c *opCtx) cfgKind() string          { return c.ts.run.sc.Cfgs[c.op.Cfg].Kind }

func newTarget(name string) interface{} {
	ti := byName[name]
	return reflect.New(ti.typ).Interface()
}

// errText is the text of an error without the location a DecodeError adds
// (the location depends on the window).
func errText(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if _, ok := err.(*jzon.DecodeError); ok {
		if i := strings.LastIndex(s, " (near "); i >= 0 {
			s = s[:i]
		}
	}
	return "error: " + s
}

// errText notes the error for the transcript, and keeps it.
func (c *opCtx) errText(err error) string {
	if err != nil && c.or().Retain && !c.ts.run.solo {
		c.ts.kept = append(c.ts.kept, &retained{what: "error", val: &keptErr{err}, snap: err.Error(), op: c.ts.opIdx})
	}
	return errText(err)
}

// keptErr is an error the caller keeps.
type keptErr struct{ err error }

func isErr(err error, want error) bool {
	return err == want || (err != nil && strings.Contains(err.Error(), want.Error()))
}

// hasCB tells if the operation injects the action in one of its callbacks.
func (o *op) hasCB(act string) bool {
	for _, a := range o.CB {
		if a.Act == act {
			return true
		}
	}
	return false
}
