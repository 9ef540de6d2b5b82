// Package simrt is the deterministic simulation runtime.
//
// Tasks are real goroutines, but exactly one of them runs at any time: the
// token is handed over only at instrumented points (a yield before every
// statement of the library, every synchronisation operation, every simulated
// I/O call), and who gets it is decided by a seeded PRNG (record mode) or by a
// recorded decision list (replay mode). The step counter is the only clock.
//
// Under the race detector the hand-overs are invisible to it (RaceDisable and
// //go:norace), so that only the synchronisation done by the library itself
// orders the tasks.
package simrt

import (
	"runtime"
	"runtime/debug"
	"unsafe"
)

const (
	// MaxTasks is the maximal number of tasks of one run.
	MaxTasks = 16
	// MaxDecisions is the maximal number of scheduling decisions recorded.
	MaxDecisions = 1 << 15
	// MaxSites bounds the number of instrumented sites.
	MaxSites = 1 << 15
)

const (
	stRunnable = iota
	stBlocked
	stDone
)

// Task is a simulated caller.
type Task struct {
	ID     int
	wake   chan struct{}
	state  int8
	prio   uint32
	waitOn unsafe.Pointer
	fn     func()
	// Data is owned by the harness.
	Data interface{}
}

// Decision is a scheduling decision: at step Step, task To gets the token.
type Decision struct {
	Step uint64 `json:"s"`
	To   int    `json:"t"`
}

// Strategy describes how the PRNG schedules.
type Strategy struct {
	Kind   string `json:"kind"`            // "serial", "random", "pct", "sync"
	Gap    uint64 `json:"gap,omitempty"`   // mean number of steps between two preemptions ("random")
	SyncP  uint32 `json:"syncP,omitempty"` // probability (out of 256) of a preemption at a sync or I/O point
	Depth  int    `json:"depth,omitempty"` // number of priority changes ("pct")
	Length uint64 `json:"len,omitempty"`   // estimated number of steps ("pct")
}

// Config of a run.
type Config struct {
	Seed     uint64
	Strategy Strategy
	Budget   uint64 // maximal number of steps
	Replay   bool
	Schedule []Decision // when Replay
	At       []uint64   // steps (increasing) at which OnAt is called
	AtRaw    []uint64   // likewise, counted in raw memory operations
	OnAt     func()
}

// Result of a run.
type Result struct {
	Steps      uint64
	Switches   int
	Truncated  bool // too many decisions to be recorded
	Schedule   []Decision
	Hash       uint64
	Failure    string // "", "deadlock", "step budget exceeded", "panic: ..."
	FailTask   int
	PanicStack string
	Preempts   int
}

var (
	active     bool
	tasks      [MaxTasks]*Task
	ntasks     int
	cur        *Task
	step       uint64
	nextEvent  uint64
	nextPre    uint64
	budget     uint64
	rng        uint64
	strat      Strategy
	stratKind  int8
	replaying  bool
	replay     []Decision
	replayIdx  int
	decisions  [MaxDecisions]Decision
	ndec       int
	truncated  bool
	schedHash  uint64
	preempts   int
	pctPoints  [32]uint64
	npct       int
	pctIdx     int
	pctLow     uint32
	done       chan struct{}
	failure    string
	failTask   int
	panicStack string
	joinAddr   byte
	atSteps    []uint64
	atIdx      int
	onAt       func()
	rawN       uint64
	rawSteps   []uint64
	rawIdx     int

	// Cov counts the visits of the instrumented sites since process start.
	Cov [MaxSites]uint32
	// lastSites is a ring of the last sites, for diagnostics
	lastSites [64]int32

	// SyncOps and IOOps count the points met.
	SyncOps, IOOps uint64
)

const (
	kSerial = iota
	kRandom
	kPCT
	kSync
)

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func gap() uint64 {
	// 1 .. 2*Gap
	return 1 + rnd()%(2*strat.Gap)
}

//go:norace
func refreshNext() {
	n := budget
	if replaying {
		if replayIdx < len(replay) && replay[replayIdx].Step < n {
			n = replay[replayIdx].Step
		}
	} else {
		if stratKind == kRandom && nextPre < n {
			n = nextPre
		}
		if stratKind == kPCT && pctIdx < npct && pctPoints[pctIdx] < n {
			n = pctPoints[pctIdx]
		}
	}
	if atIdx < len(atSteps) && atSteps[atIdx] < n {
		n = atSteps[atIdx]
	}
	nextEvent = n
}

// Active tells if a simulated run is in progress.
//
//go:norace
//go:noinline
func Active() bool { return active }

// Cur returns the running task, nil outside of a run.
//
//go:norace
//go:noinline
func Cur() *Task {
	if !active {
		return nil
	}
	return cur
}

// Step returns the logical time.
//
//go:norace
//go:noinline
func Step() uint64 { return step }

// Y is the yield point inserted before every statement of the library.
//
//go:norace
//go:noinline
func Y(site int32) {
	if !active {
		return
	}
	Cov[site&(MaxSites-1)]++
	step++
	if step >= nextEvent {
		lastSites[step&63] = site
		event()
	}
}

// A is the yield point before a statement which allocates or works on raw
// memory through a function of the Go runtime.
//
//go:norace
//go:noinline
func A(site int32) {
	if !active {
		return
	}
	rawN++
	if rawIdx < len(rawSteps) && rawSteps[rawIdx] <= rawN {
		for rawIdx < len(rawSteps) && rawSteps[rawIdx] <= rawN {
			rawIdx++
		}
		onAt()
	}
	Y(site)
}

//go:norace
func event() {
	if step >= budget {
		fail("step budget exceeded", "")
	}
	for atIdx < len(atSteps) && atSteps[atIdx] <= step {
		atIdx++
		onAt()
	}
	if replaying {
		for replayIdx < len(replay) && replay[replayIdx].Step < step {
			replayIdx++ // not applicable any more (minimised schedule)
		}
		if replayIdx < len(replay) && replay[replayIdx].Step == step {
			to := replay[replayIdx].To
			replayIdx++
			refreshNext()
			if to >= 0 && to < ntasks && tasks[to].state == stRunnable && tasks[to] != cur {
				preempts++
				switchTo(tasks[to])
			}
			return
		}
		refreshNext()
		return
	}
	switch stratKind {
	case kRandom:
		if step >= nextPre {
			nextPre = step + gap()
			refreshNext()
			preempt()
			return
		}
	case kPCT:
		for pctIdx < npct && pctPoints[pctIdx] <= step {
			pctIdx++
			pctLow--
			cur.prio = pctLow
		}
		refreshNext()
		if t := highest(); t != nil && t != cur {
			record(t)
			preempts++
			switchTo(t)
		}
		return
	}
	refreshNext()
}

//go:norace
func highest() *Task {
	var best *Task
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.state == stRunnable && (best == nil || t.prio > best.prio) {
			best = t
		}
	}
	return best
}

//go:norace
func record(t *Task) {
	schedHash = (schedHash ^ step) * 0x100000001b3
	schedHash = (schedHash ^ uint64(t.ID)) * 0x100000001b3
	if ndec < MaxDecisions {
		decisions[ndec] = Decision{Step: step, To: t.ID}
		ndec++
	} else {
		truncated = true
	}
}

// preempt switches to another runnable task, if any.
//
//go:norace
func preempt() {
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable && tasks[i] != cur {
			n++
		}
	}
	if n == 0 {
		return
	}
	k := int(rnd() % uint64(n))
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable && tasks[i] != cur {
			if k == 0 {
				record(tasks[i])
				preempts++
				switchTo(tasks[i])
				return
			}
			k--
		}
	}
}

//go:norace
func switchTo(t *Task) {
	me := cur
	cur = t
	raceDisable()
	t.wake <- struct{}{}
	<-me.wake
	raceEnable()
}

// Point is a scheduling point of an operation that other tasks can observe
// (synchronisation, I/O): preemption is more likely there.
//
//go:norace
//go:noinline
func Point(io bool) {
	if !active {
		return
	}
	if io {
		IOOps++
	} else {
		SyncOps++
	}
	step++
	if step >= nextEvent {
		event()
		return
	}
	if replaying {
		return
	}
	if stratKind == kPCT {
		if t := highest(); t != nil && t != cur {
			record(t)
			preempts++
			switchTo(t)
		}
		return
	}
	if strat.SyncP != 0 && uint32(rnd()&255) < strat.SyncP {
		preempt()
	}
}

// pickForced chooses the next task when the current one cannot go on.
//
//go:norace
func pickForced() *Task {
	step++
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	if replaying {
		for replayIdx < len(replay) && replay[replayIdx].Step < step {
			replayIdx++
		}
		var t *Task
		if replayIdx < len(replay) && replay[replayIdx].Step == step {
			to := replay[replayIdx].To
			replayIdx++
			if to >= 0 && to < ntasks && tasks[to].state == stRunnable {
				t = tasks[to]
			}
		}
		refreshNext()
		if t == nil {
			for i := 0; i < ntasks && t == nil; i++ {
				if tasks[i].state == stRunnable {
					t = tasks[i]
				}
			}
		}
		return t
	}
	var t *Task
	switch stratKind {
	case kPCT:
		t = highest()
	case kSerial:
		for i := 0; i < ntasks && t == nil; i++ {
			if tasks[i].state == stRunnable {
				t = tasks[i]
			}
		}
	default:
		k := int(rnd() % uint64(n))
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stRunnable {
				if k == 0 {
					t = tasks[i]
					break
				}
				k--
			}
		}
	}
	record(t)
	return t
}

// Block parks the running task until Wake(on) is called. Outside of a run
// nobody could ever wake the caller up.
//
//go:norace
//go:noinline
func Block(on unsafe.Pointer) {
	if !active {
		panic("simrt: blocking for ever (lock held by nobody running)")
	}
	me := cur
	me.state = stBlocked
	me.waitOn = on
	t := pickForced()
	if t == nil {
		fail("deadlock", "")
	}
	switchTo(t)
}

// Wake makes runnable every task blocked on the given object.
//
//go:norace
//go:noinline
func Wake(on unsafe.Pointer) {
	if !active {
		return
	}
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.state == stBlocked && t.waitOn == on {
			t.state = stRunnable
			t.waitOn = nil
		}
	}
}

// fail ends the run: the main goroutine is told, the tasks stay parked for
// ever (the process is expected to exit soon).
//
//go:norace
func fail(what, stack string) {
	failure = what
	failTask = cur.ID
	panicStack = stack
	if stack == "" {
		var b [1 << 14]byte
		panicStack = string(b[:runtime.Stack(b[:], false)])
	}
	active = false
	raceDisable()
	done <- struct{}{}
	select {}
}

//go:norace
func taskMain(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer taskEnd(t)
	t.fn()
}

//go:norace
func taskEnd(t *Task) {
	if r := recover(); r != nil {
		fail("panic: "+panicText(r), string(debug.Stack()))
	}
	RaceReleaseMerge(unsafe.Pointer(&joinAddr))
	t.state = stDone
	all := true
	for i := 0; i < ntasks; i++ {
		if tasks[i].state != stDone {
			all = false
		}
	}
	if all {
		active = false
		raceDisable()
		done <- struct{}{}
		raceEnable()
		return
	}
	n := pickForced()
	if n == nil {
		fail("deadlock", "")
	}
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

func panicText(r interface{}) string {
	switch v := r.(type) {
	case error:
		return v.Error()
	case string:
		return v
	}
	return "?"
}

// Run executes the tasks under the simulator.
//
//go:norace
func Run(cfg Config, fns []func(), data []interface{}) Result {
	ntasks = len(fns)
	if ntasks > MaxTasks {
		panic("too many tasks")
	}
	step = 0
	budget = cfg.Budget
	rng = cfg.Seed
	strat = cfg.Strategy
	replaying = cfg.Replay
	replay = cfg.Schedule
	replayIdx = 0
	atSteps = cfg.At
	atIdx = 0
	onAt = cfg.OnAt
	rawN = 0
	rawSteps = cfg.AtRaw
	rawIdx = 0
	ndec = 0
	truncated = false
	schedHash = 0xcbf29ce484222325
	preempts = 0
	failure = ""
	panicStack = ""
	failTask = -1
	if strat.Gap == 0 {
		strat.Gap = 1
	}
	switch strat.Kind {
	case "random":
		stratKind = kRandom
		nextPre = gap()
	case "pct":
		stratKind = kPCT
		npct = strat.Depth
		if npct > len(pctPoints) {
			npct = len(pctPoints)
		}
		l := strat.Length
		if l < 16 {
			l = 16
		}
		for i := 0; i < npct; i++ {
			pctPoints[i] = 1 + rnd()%l
		}
		for i := 1; i < npct; i++ {
			for j := i; j > 0 && pctPoints[j] < pctPoints[j-1]; j-- {
				pctPoints[j], pctPoints[j-1] = pctPoints[j-1], pctPoints[j]
			}
		}
		pctIdx = 0
		pctLow = 1000
	case "sync":
		stratKind = kSync
	default:
		stratKind = kSerial
		strat.SyncP = 0
	}
	done = make(chan struct{}, 1)
	for i, fn := range fns {
		t := &Task{ID: i, wake: make(chan struct{}, 1), fn: fn, prio: 2000 + uint32(rnd()%100000)}
		if data != nil {
			t.Data = data[i]
		}
		tasks[i] = t
	}
	refreshNext()
	// the first task
	cur = tasks[0]
	first := pickForced()
	cur = first
	active = true
	for i := 0; i < ntasks; i++ {
		go taskMain(tasks[i])
	}
	raceDisable()
	first.wake <- struct{}{}
	<-done
	raceEnable()
	active = false
	RaceAcquire(unsafe.Pointer(&joinAddr))
	res := Result{Steps: step, Switches: ndec, Truncated: truncated, Hash: schedHash,
		Failure: failure, FailTask: failTask, PanicStack: panicStack, Preempts: preempts}
	res.Schedule = make([]Decision, ndec)
	for i := range res.Schedule {
		res.Schedule[i] = decisions[i]
	}
	return res
}
