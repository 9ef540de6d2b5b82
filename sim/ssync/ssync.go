// Package ssync replaces package sync in the instrumented copy of the
// library: same API, but blocking, waking and pooling are decided by the
// simulator.
package ssync

import (
	"sync"
	"unsafe"

	"verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a simulated mutex.
type Mutex struct {
	locked bool
	addr   byte
}

//go:norace
func (m *Mutex) try() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Point(false)
	for !m.try() {
		simrt.Block(unsafe.Pointer(m))
	}
	simrt.RaceAcquire(unsafe.Pointer(&m.addr))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Point(false)
	if m.try() {
		simrt.RaceAcquire(unsafe.Pointer(&m.addr))
		return true
	}
	return false
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.addr))
	m.locked = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Point(false)
}

// RWMutex is a simulated reader/writer mutex.
type RWMutex struct {
	writer  bool
	readers int
	waitW   int
	addr    byte
	addr2   byte
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Point(false)
	m.waitW++
	for m.writer || m.readers > 0 {
		simrt.Block(unsafe.Pointer(m))
	}
	m.waitW--
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.addr))
	simrt.RaceAcquire(unsafe.Pointer(&m.addr2))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Point(false)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.addr))
	simrt.RaceAcquire(unsafe.Pointer(&m.addr2))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.addr))
	m.writer = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Point(false)
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Point(false)
	// as in the real one a waiting writer blocks new readers
	for m.writer || m.waitW > 0 {
		simrt.Block(unsafe.Pointer(m))
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.addr))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Point(false)
	if m.writer || m.waitW > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.addr))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.addr2))
	m.readers--
	simrt.Wake(unsafe.Pointer(m))
	simrt.Point(false)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is like the real one.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// OnceFunc, OnceValue and OnceValues are like the real ones.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n    int
	addr byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	simrt.Point(false)
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&w.addr))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Point(false)
	for w.n > 0 {
		simrt.Block(unsafe.Pointer(w))
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.addr))
}

// Cond is a simulated condition variable.
type Cond struct {
	L   Locker
	seq uint64
	sig uint64
}

// NewCond is like the real one.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	c.seq++
	my := c.seq
	c.L.Unlock()
	for c.sig < my {
		simrt.Block(unsafe.Pointer(c))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.sig < c.seq {
		c.sig++
	}
	simrt.Wake(unsafe.Pointer(c))
}

//go:norace
func (c *Cond) Broadcast() {
	c.sig = c.seq
	simrt.Wake(unsafe.Pointer(c))
}

// Map: the real one, with scheduling points (its own synchronisation is not
// part of the library).
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { simrt.Point(false); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { simrt.Point(false); m.m.Store(k, v); simrt.Point(false) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Point(false)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { simrt.Point(false); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { simrt.Point(false); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { simrt.Point(false); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.Point(false)
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool    { simrt.Point(false); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(key, value any) bool) { simrt.Point(false); m.m.Range(f) }
func (m *Map) Clear()                            { simrt.Point(false); m.m.Clear() }

const poolCap = 64

// Pool is a simulated pool: which item Get returns (or whether it makes a new
// one) and whether Put keeps the item are decisions of the run.
type Pool struct {
	New func() any

	items      [poolCap]any
	addrs      [poolCap]*byte
	n          int
	registered bool
}

const maxPools = 512

var (
	pools  [maxPools]*Pool
	npools int

	policy   PoolPolicy
	poolSeed uint64
	poolOps  uint64
	// PoolGets, PoolReuses, PoolDrops count decisions since process start.
	PoolGets, PoolReuses, PoolDrops uint64
)

// PoolPolicy says how the pools of a run decide (probabilities out of 256).
type PoolPolicy struct {
	NewP  uint32 `json:"newP,omitempty"`  // Get ignores the items kept
	DropP uint32 `json:"dropP,omitempty"` // Put drops the item
	Order int    `json:"order,omitempty"` // 0 lifo, 1 fifo, 2 random
}

// Reset empties all the pools and sets the policy of the next run.
//
//go:norace
func Reset(p PoolPolicy, seed uint64) {
	policy = p
	poolSeed = seed
	poolOps = 0
	Clear()
}

// Clear empties all the pools (what a garbage collection may do).
//
//go:norace
func Clear() {
	for i := 0; i < npools; i++ {
		p := pools[i]
		for j := 0; j < p.n; j++ {
			p.items[j] = nil
			p.addrs[j] = nil
		}
		p.n = 0
	}
}

//go:norace
func poolRnd() uint64 {
	poolOps++
	z := poolSeed + poolOps*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (p *Pool) take() (any, *byte) {
	PoolGets++
	if p.n == 0 {
		return nil, nil
	}
	r := poolRnd()
	if uint32(r&255) < policy.NewP {
		return nil, nil
	}
	i := p.n - 1
	switch policy.Order {
	case 1:
		i = 0
	case 2:
		i = int((r >> 8) % uint64(p.n))
	}
	x, a := p.items[i], p.addrs[i]
	for j := i; j < p.n-1; j++ {
		p.items[j] = p.items[j+1]
		p.addrs[j] = p.addrs[j+1]
	}
	p.n--
	p.items[p.n] = nil
	p.addrs[p.n] = nil
	PoolReuses++
	return x, a
}

//go:norace
func (p *Pool) put(x any, a *byte) {
	if !p.registered {
		p.registered = true
		if npools < maxPools {
			pools[npools] = p
			npools++
		}
	}
	if p.n >= poolCap || uint32(poolRnd()&255) < policy.DropP {
		PoolDrops++
		return
	}
	p.items[p.n] = x
	p.addrs[p.n] = a
	p.n++
}

// Get is sync.Pool.Get.
func (p *Pool) Get() any {
	simrt.Point(false)
	if simrt.Active() {
		if x, a := p.take(); x != nil {
			simrt.RaceAcquire(unsafe.Pointer(a))
			return x
		}
	}
	if f := p.newFn(); f != nil {
		return f()
	}
	return nil
}

//go:norace
func (p *Pool) newFn() func() any { return p.New }

// Put is sync.Pool.Put.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if simrt.Active() {
		a := new(byte)
		simrt.RaceRelease(unsafe.Pointer(a))
		p.put(x, a)
	}
	simrt.Point(false)
}
