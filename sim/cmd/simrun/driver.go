package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The driver: spreads the scenarios of a property over worker processes,
// confirms and minimises what they report, and writes the evidence. The
// driver decides nothing about a scenario: index and seed do.

type plan struct {
	n, batch         int // scenarios, per worker process
	race, raceBatch  int // the same with the race detector
	thorough         int // factor of the thorough tier
	level            string
	components, rule string
}

var plans = map[string]plan{
	"C01": {n: 700000, batch: 4000, thorough: 15, level: "exploration"},
	"C02": {n: 600000, batch: 4000, thorough: 15, level: "exploration"},
	"C03": {n: 350000, batch: 2000, thorough: 15, level: "exploration"},
	"C04": {n: 500000, batch: 3000, thorough: 15, level: "exploration"},
	"C05": {n: 200000, batch: 1500, thorough: 15, level: "exploration"},
	"C06": {n: 120000, batch: 1000, race: 24000, raceBatch: 300, thorough: 15, level: "exploration"},
	"C07": {n: 220000, batch: 1500, race: 8000, raceBatch: 250, thorough: 15, level: "exploration"},
	"C08": {n: 180000, batch: 1500, thorough: 15, level: "exploration"},
	"C09": {n: 160000, batch: 1500, race: 8000, raceBatch: 250, thorough: 15, level: "exploration"},
	"C10": {n: 140000, batch: 1500, race: 8000, raceBatch: 250, thorough: 15, level: "exploration"},
	"C11": {n: 60000, batch: 500, thorough: 15, level: "exploration"},
	"C12": {n: 500000, batch: 4000, thorough: 15, level: "exploration"},
	"C13": {n: 150000, batch: 1500, race: 8000, raceBatch: 250, thorough: 15, level: "exploration"},
	"C14": {n: 10000, batch: 80, thorough: 15, level: "exploration"},
}

type driver struct {
	prop, tier, dir, bin, raceBin string
	seed                          uint64
	tmp                           string
	start                         time.Time
	deadline                      time.Time

	mu     sync.Mutex
	found  []*finding
	errs   []string
	sum    summary
	hashes map[uint64]bool
	scheds map[uint64]bool
	sites  map[int32]bool
	race   int
	runs   map[string]int
	sample []string
	capped bool
	procs  map[*exec.Cmd]bool
}

type finding struct {
	rp    replay
	index int
	batch job
	kind  string // violation, crash, memory
	out   string
}

type job struct {
	race bool
	from int
	n    int
}

const (
	rssLimit    = 3 << 30
	silentLimit = 150 * time.Second
)

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	d := &driver{start: time.Now(), hashes: map[uint64]bool{}, scheds: map[uint64]bool{}, sites: map[int32]bool{}, runs: map[string]int{}, procs: map[*exec.Cmd]bool{}}
	fs.StringVar(&d.prop, "prop", "", "")
	fs.StringVar(&d.dir, "dir", "/verif", "")
	fs.StringVar(&d.bin, "bin", "", "")
	fs.StringVar(&d.raceBin, "racebin", "", "")
	scale := fs.Float64("scale", 1, "")
	maxTime := fs.Duration("time", 0, "")
	fs.Parse(args)
	d.tier = os.Getenv("VERIF_TIER")
	if d.tier != "thorough" {
		d.tier = "quick"
	}
	d.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF_SEED:", err)
			return 2
		}
		d.seed = uint64(n)
	}
	p, ok := plans[d.prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", d.prop)
		return 2
	}
	fmt.Printf("property %s tier %s seed %d\n", d.prop, d.tier, d.seed)
	limit := 150 * time.Second
	if d.tier == "thorough" {
		p.n *= p.thorough
		p.race *= p.thorough
		limit = 900 * time.Second
	}
	if *maxTime > 0 {
		limit = *maxTime
	}
	p.n = int(float64(p.n) * *scale)
	p.race = int(float64(p.race) * *scale)
	d.deadline = d.start.Add(limit)
	var err error
	if d.tmp, err = ioutil.TempDir("", "simrun"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(d.tmp)

	d.known()

	var jobs []job
	for i := 0; i < p.n; i += p.batch {
		jobs = append(jobs, job{false, i, p.batch})
	}
	if p.race > 0 && d.raceBin != "" {
		// interleaved, so that a time cap hits both builds alike
		var rj []job
		for i := 0; i < p.race; i += p.raceBatch {
			rj = append(rj, job{true, i, p.raceBatch})
		}
		var all []job
		k := 0
		for i, j := range jobs {
			for k*len(jobs) <= i*len(rj) && k < len(rj) {
				all = append(all, rj[k])
				k++
			}
			all = append(all, j)
		}
		jobs = append(all, rj[k:]...)
	}
	d.explore(jobs)
	if len(d.errs) > 0 {
		for _, e := range d.errs {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		return 2
	}
	code := 0
	nviol := 0
	if len(d.found) > 0 {
		sort.Slice(d.found, func(i, j int) bool { return d.found[i].index < d.found[j].index })
		reported := false
		for _, f := range d.found {
			path, msg := d.report(f)
			if path == "" {
				fmt.Fprintln(os.Stderr, "not reproduced:", msg)
				continue
			}
			fmt.Println(msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
			nviol++
			reported = true
			break
		}
		if reported {
			code = 1
		} else {
			fmt.Fprintln(os.Stderr, "ERROR: a worker reported a failure that no fresh process reproduces")
			code = 2
		}
	}
	if err := d.evidence(p, nviol); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	fmt.Printf("%d runs, %d distinct non-trivial executions, %d distinct schedules, %.1f s\n", d.sum.Runs, len(d.hashes), len(d.scheds), time.Since(d.start).Seconds())
	return code
}

// known replays the listed findings.
func (d *driver) known() {
	files, _ := filepath.Glob(filepath.Join(d.dir, "known", d.prop+"-*.json"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var rp replay
		if json.Unmarshal(b, &rp) != nil || rp.Violation == nil {
			continue
		}
		r := d.replayOnce(f, rp.Race, 60*time.Second)
		if r.class == rp.Violation.Class {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, rp.Note)
		}
	}
}

func (d *driver) explore(jobs []job) {
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				d.work(j)
			}
		}()
	}
	for _, j := range jobs {
		if d.stop() {
			break
		}
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func (d *driver) stop() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	if time.Now().After(d.deadline) {
		d.capped = true
		return true
	}
	return len(d.found) > 0 || len(d.errs) > 0
}

func workerEnv() []string {
	return append(os.Environ(), "GODEBUG=clobberfree=1", "GORACE=halt_on_error=0 exitcode=0 history_size=2 atexit_sleep_ms=0", "GOTRACEBACK=single", "GOMAXPROCS=1")
}

func (d *driver) binary(race bool) string {
	if race {
		return d.raceBin
	}
	return d.bin
}

type procResult struct {
	code    int
	sig     bool
	memory  bool
	timeout bool
	stderr  string
}

// tailBuf keeps the beginning of what is written to it.
type headBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (h *headBuf) Write(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if room := 16<<10 - h.b.Len(); room > 0 {
		if len(p) > room {
			h.b.Write(p[:room])
		} else {
			h.b.Write(p)
		}
	}
	return len(p), nil
}

func (h *headBuf) String() string {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.b.String()
}

// proc runs a child with limits on memory and silence.
func (d *driver) proc(cmd *exec.Cmd, line func(string), limit time.Duration) procResult {
	var r procResult
	cmd.Env = workerEnv()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	stderr := &headBuf{}
	cmd.Stderr = stderr
	out, err := cmd.StdoutPipe()
	if err != nil {
		r.code = -1
		r.stderr = err.Error()
		return r
	}
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		r.code = -1
		r.stderr = err.Error()
		return r
	}
	var mu sync.Mutex
	last := time.Now()
	done := make(chan struct{})
	go func() {
		t := time.NewTicker(150 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
			}
			mu.Lock()
			silent := time.Since(last)
			mu.Unlock()
			if silent > limit {
				mu.Lock()
				r.timeout = true
				mu.Unlock()
				cmd.Process.Kill()
				return
			}
			if b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", cmd.Process.Pid)); err == nil {
				f := strings.Fields(string(b))
				if len(f) > 1 {
					if n, _ := strconv.ParseInt(f[1], 10, 64); n*int64(os.Getpagesize()) > rssLimit {
						mu.Lock()
						r.memory = true
						mu.Unlock()
						cmd.Process.Kill()
						return
					}
				}
			}
		}
	}()
	br := bufio.NewReaderSize(out, 1<<20)
	for {
		s, err := br.ReadString('\n')
		if s != "" {
			mu.Lock()
			last = time.Now()
			mu.Unlock()
			line(strings.TrimSuffix(s, "\n"))
		}
		if err != nil {
			break
		}
	}
	err = cmd.Wait()
	close(done)
	mu.Lock()
	defer mu.Unlock()
	r.stderr = stderr.String()
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				r.sig = true
				r.code = 128 + int(ws.Signal())
			}
		}
	}
	return r
}

// crashed tells if the process was ended by the Go runtime.
func (r procResult) crashed() bool {
	if r.timeout || r.memory || strings.Contains(r.stderr, "panic: harness") {
		return false
	}
	if r.code == 0 || r.code == 1 {
		return false
	}
	for _, s := range []string{"fatal error: ", "panic: ", "unexpected fault address", "SIGSEGV", "SIGBUS", "SIGILL", "SIGFPE", "SIGABRT", "runtime: "} {
		if strings.Contains(r.stderr, s) {
			return true
		}
	}
	return false
}

func (d *driver) work(j job) {
	cmd := exec.Command(d.binary(j.race), "work", "-prop", d.prop, "-seed", strconv.FormatUint(d.seed, 10), "-from", strconv.Itoa(j.from), "-n", strconv.Itoa(j.n))
	cur := -1
	var f *finding
	var sum *summary
	res := d.proc(cmd, func(s string) {
		switch {
		case strings.HasPrefix(s, "I "):
			cur, _ = strconv.Atoi(s[2:])
		case strings.HasPrefix(s, "V "):
			f = &finding{index: cur, batch: j, kind: "violation"}
			if err := json.Unmarshal([]byte(s[2:]), &f.rp); err != nil {
				f = nil
			}
		case strings.HasPrefix(s, "S "):
			sum = &summary{}
			if json.Unmarshal([]byte(s[2:]), sum) != nil {
				sum = nil
			}
		}
	}, silentLimit)
	d.mu.Lock()
	defer d.mu.Unlock()
	if f != nil {
		f.out = res.stderr
		d.found = append(d.found, f)
	}
	if sum != nil {
		d.merge(sum, j)
	}
	if f != nil {
		return
	}
	switch {
	case res.memory:
		d.found = append(d.found, &finding{index: cur, batch: j, kind: "memory", out: res.stderr})
	case res.crashed():
		d.found = append(d.found, &finding{index: cur, batch: j, kind: "crash", out: res.stderr})
	case res.timeout:
		d.errs = append(d.errs, fmt.Sprintf("worker silent for %v at scenario %d (race=%v)", silentLimit, cur, j.race))
	case res.code != 0 || sum == nil:
		d.errs = append(d.errs, fmt.Sprintf("worker ended with %d at scenario %d (race=%v): %.3000s", res.code, cur, j.race, res.stderr))
	}
}

func (d *driver) merge(s *summary, j job) {
	t := &d.sum
	t.Runs += s.Runs
	t.Steps += s.Steps
	t.Switches += s.Switches
	t.Preempts += s.Preempts
	t.Ops += s.Ops
	t.PoolGets += s.PoolGets
	t.PoolReuses += s.PoolReuses
	t.PoolDrops += s.PoolDrops
	t.SyncOps += s.SyncOps
	t.IOOps += s.IOOps
	if s.MaxSteps > t.MaxSteps {
		t.MaxSteps = s.MaxSteps
	}
	if t.Stats == nil {
		t.Stats = map[string]uint64{}
	}
	for k, n := range s.Stats {
		t.Stats[k] += n
	}
	for _, h := range s.Hashes {
		d.hashes[h] = true
	}
	for _, h := range s.Scheds {
		d.scheds[h] = true
	}
	for _, h := range s.Sites {
		d.sites[h] = true
	}
	if j.race {
		d.race += s.Runs
	}
	if s.Sample != "" && len(d.sample) < 6 {
		d.sample = append(d.sample, s.Sample)
	}
}

// ------------------------------------------------------------------- replaying

type outcome struct {
	class string
	v     *violation
	text  string
}

// replayOnce replays a file in a fresh process.
func (d *driver) replayOnce(file string, race bool, limit time.Duration) outcome {
	var o outcome
	cmd := exec.Command(d.binary(race), "replay", "-q", file)
	res := d.proc(cmd, func(s string) {
		if strings.HasPrefix(s, "R {") {
			v := &violation{}
			if json.Unmarshal([]byte(s[2:]), v) == nil {
				o.v = v
				o.class = v.Class
			}
		}
	}, limit)
	o.text = res.stderr
	if o.v == nil {
		switch {
		case res.memory:
			o.class = "memory"
		case res.crashed():
			o.class = "crash"
		}
	}
	return o
}

func (d *driver) try(rp *replay, limit time.Duration) outcome {
	b, err := json.Marshal(rp)
	if err != nil {
		return outcome{}
	}
	f := filepath.Join(d.tmp, "r"+strconv.FormatUint(hashString(string(b)), 16)+".json")
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return outcome{}
	}
	defer os.Remove(f)
	return d.replayOnce(f, rp.Race, limit)
}

// report confirms a finding in fresh processes, minimises it and writes the
// replay file.
func (d *driver) report(f *finding) (path, msg string) {
	rp := f.rp
	class := f.kind
	var cands []replay
	regen := func() *scenario {
		// the driver runs no library code: a child makes the scenario
		out, err := exec.Command(d.binary(f.batch.race), "gen", "-prop", d.prop, "-seed", strconv.FormatUint(d.seed, 10), "-index", strconv.Itoa(f.index)).Output()
		if err != nil {
			return nil
		}
		var g replay
		if json.Unmarshal(out, &g) != nil {
			return nil
		}
		return g.Scenario
	}
	if f.kind == "violation" {
		class = rp.Violation.Class
		cands = append(cands, rp)
	} else {
		rp = replay{Prop: d.prop, Race: f.batch.race}
	}
	if sc := regen(); sc != nil {
		r2 := rp
		r2.Scenario = sc
		cands = append(cands, r2)
		for _, n := range []int{3, 30, 1 << 30} {
			r3 := r2
			from := f.index - n
			if from < f.batch.from {
				from = f.batch.from
			}
			// the garbage is collected at the same places as in the worker
			from -= (from - f.batch.from) % 8
			r3.Prelude = &prelude{Prop: d.prop, Seed: d.seed, From: from, N: f.index - from}
			if r3.Prelude.N > 0 {
				cands = append(cands, r3)
			}
		}
	}
	var ok *replay
	var got outcome
	for round := 0; round < 2 && ok == nil; round++ {
		for i := range cands {
			o := d.try(&cands[i], 120*time.Second)
			if o.class != "" {
				ok, got = &cands[i], o
				class = o.class
				break
			}
		}
	}
	if ok == nil {
		return "", fmt.Sprintf("%s at scenario %d: %.2000s", class, f.index, f.out)
	}
	m := &minimiser{d: d, class: class, limit: 45 * time.Second, start: time.Now()}
	min := *ok
	if ok.Prelude == nil && class != "memory" {
		min = m.run(*ok)
	}
	final := d.try(&min, 120*time.Second)
	if final.class != class {
		min = *ok
		final = got
	}
	if final.v != nil {
		min.Violation = final.v
	} else {
		min.Violation = &violation{Class: class, Detail: "the process died"}
		min.Crash = true
	}
	min.Report = final.text
	if len(min.Report) > 6000 {
		min.Report = min.Report[:6000]
	}
	min.Note = fmt.Sprintf("found with VERIF_SEED=%d at scenario %d; minimised with %d replays; replay with: %s/replay.sh THIS_FILE", d.seed, f.index, m.tries, d.dir)
	min.Scenario.readable()
	b, _ := json.MarshalIndent(&min, "", " ")
	os.MkdirAll(filepath.Join(d.dir, "replays"), 0o755)
	path = filepath.Join(d.dir, "replays", fmt.Sprintf("%s-%s-%d-%d.json", d.prop, class, d.seed, f.index))
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return "", err.Error()
	}
	msg = min.Violation.String()
	if len(min.Report) > 0 && final.v == nil {
		msg += "\n" + min.Report
	}
	if len(msg) > 4000 {
		msg = msg[:4000]
	}
	return path, msg
}

// ------------------------------------------------------------------ minimising

type minimiser struct {
	d     *driver
	class string
	limit time.Duration
	start time.Time
	tries int
}

func (m *minimiser) over() bool { return time.Since(m.start) > m.limit }

func clone(rp replay) replay {
	b, _ := json.Marshal(rp)
	var c replay
	if json.Unmarshal(b, &c) != nil {
		panic("harness: clone")
	}
	return c
}

func (m *minimiser) same(rp *replay) bool {
	if m.over() {
		return false
	}
	m.tries++
	return m.d.try(rp, 20*time.Second).class == m.class
}

// sameAny accepts the candidate with its schedule, with no preemption, or with
// another schedule found by a short search.
func (m *minimiser) sameAny(rp *replay) bool {
	if m.same(rp) {
		return true
	}
	if len(rp.Scenario.Schedule) == 0 {
		return false
	}
	old, fixed, strat := rp.Scenario.Schedule, rp.Scenario.Fixed, rp.Scenario.Strategy
	rp.Scenario.Schedule, rp.Scenario.Fixed = nil, true
	if m.same(rp) {
		return true
	}
	rp.Scenario.Schedule, rp.Scenario.Fixed, rp.Scenario.Strategy = old, fixed, strat
	return false
}

func (m *minimiser) run(rp replay) replay {
	best := clone(rp)
	accept := func(edit func(*replay) bool) bool {
		c := clone(best)
		if !edit(&c) || !m.sameAny(&c) {
			return false
		}
		best = c
		return true
	}
	// no schedule at all?
	if len(best.Scenario.Tasks) > 1 {
		if !accept(func(r *replay) bool { r.Scenario.Fixed = true; r.Scenario.Schedule = nil; return true }) {
			m.schedule(&best)
		}
	}
	for round := 0; round < 4 && !m.over(); round++ {
		changed := false
		sc := best.Scenario
		for t := range sc.Tasks {
			if len(best.Scenario.Tasks[t].Ops) == 0 {
				continue
			}
			if accept(func(r *replay) bool { r.Scenario.Tasks[t].Ops = nil; return true }) {
				changed = true
				continue
			}
			for i := len(best.Scenario.Tasks[t].Ops) - 1; i >= 0; i-- {
				if accept(func(r *replay) bool {
					ts := r.Scenario.Tasks[t]
					if len(ts.Ops) == 1 {
						return false
					}
					ts.Ops = append(ts.Ops[:i], ts.Ops[i+1:]...)
					return true
				}) {
					changed = true
				}
			}
		}
		for i := len(best.Scenario.YieldGC) - 1; i >= 0; i-- {
			if accept(func(r *replay) bool {
				y := r.Scenario.YieldGC
				r.Scenario.YieldGC = append(y[:i:i], y[i+1:]...)
				return true
			}) {
				changed = true
			}
		}
		for i := len(best.Scenario.RawGC) - 1; i >= 0; i-- {
			if accept(func(r *replay) bool {
				y := r.Scenario.RawGC
				r.Scenario.RawGC = append(y[:i:i], y[i+1:]...)
				return true
			}) {
				changed = true
			}
		}
		if accept(func(r *replay) bool {
			p := &r.Scenario.Pool
			if p.NewP == 0 && p.DropP == 0 && p.Order == 0 {
				return false
			}
			p.NewP, p.DropP, p.Order = 0, 0, 0
			return true
		}) {
			changed = true
		}
		if accept(func(r *replay) bool { g := r.Scenario.GCEnd; r.Scenario.GCEnd = false; return g }) {
			changed = true
		}
		// inside the operations
		for t := range best.Scenario.Tasks {
			for i := range best.Scenario.Tasks[t].Ops {
				if m.op(accept, func(r *replay) *op { return r.Scenario.Tasks[t].Ops[i] }, &best) {
					changed = true
				}
			}
		}
		if len(best.Scenario.Schedule) > 0 {
			n := len(best.Scenario.Schedule)
			m.schedule(&best)
			if len(best.Scenario.Schedule) < n {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return best
}

// op simplifies one operation.
func (m *minimiser) op(accept func(func(*replay) bool) bool, get func(*replay) *op, best *replay) bool {
	changed := false
	do := func(f func(o *op) bool) bool {
		if accept(func(r *replay) bool { return f(get(r)) }) {
			changed = true
			return true
		}
		return false
	}
	o := func() *op { return get(best) }
	for i := len(o().CB) - 1; i >= 0; i-- {
		do(func(o *op) bool { o.CB = append(o.CB[:i:i], o.CB[i+1:]...); return true })
	}
	if o().R != nil {
		for i := len(o().R.Events) - 1; i >= 0; i-- {
			do(func(o *op) bool { o.R.Events = append(o.R.Events[:i:i], o.R.Events[i+1:]...); return true })
		}
		do(func(o *op) bool { f := o.R.Fault; o.R.Fault = nil; return f != nil })
		do(func(o *op) bool { f := o.R.EOFData; o.R.EOFData = false; return f })
		do(func(o *op) bool { f := o.R.Scribble; o.R.Scribble = false; return f })
		do(func(o *op) bool { f := o.R.Chunks; o.R.Chunks = nil; return len(f) > 0 })
		do(func(o *op) bool { f := o.R.Rest; o.R.Rest = 0; return f != 0 })
		for k := len(o().R.Chunks); k > 0; k /= 2 {
			do(func(o *op) bool {
				if len(o.R.Chunks) < k {
					return false
				}
				o.R.Chunks = o.R.Chunks[:len(o.R.Chunks)-k]
				return true
			})
		}
		if f := o().R.Fault; f != nil {
			do(func(o *op) bool {
				if o.R.Fault == nil || !o.R.Fault.Data {
					return false
				}
				o.R.Fault.Data = false
				return true
			})
		}
	}
	if o().W != nil {
		for i := len(o().W.Events) - 1; i >= 0; i-- {
			do(func(o *op) bool { o.W.Events = append(o.W.Events[:i:i], o.W.Events[i+1:]...); return true })
		}
		for i := len(o().W.Faults) - 1; i >= 0; i-- {
			do(func(o *op) bool { o.W.Faults = append(o.W.Faults[:i:i], o.W.Faults[i+1:]...); return true })
		}
	}
	if len(o().Vals) > 1 {
		for i := len(o().Vals) - 1; i >= 0 && len(o().Vals) > 1; i-- {
			do(func(o *op) bool {
				o.Vals = append(o.Vals[:i:i], o.Vals[i+1:]...)
				if i < len(o.Seps) {
					o.Seps = append(o.Seps[:i:i], o.Seps[i+1:]...)
				}
				return true
			})
		}
	}
	for i := len(o().Prog) - 1; i >= 0; i-- {
		if i < len(o().Prog) && o().Prog[i].K == "flush" {
			do(func(o *op) bool { o.Prog = append(o.Prog[:i:i], o.Prog[i+1:]...); return true })
		}
	}
	for _, f := range []func(o *op) *bool{
		func(o *op) *bool { return &o.UseNumber }, func(o *op) *bool { return &o.Disallow }, func(o *op) *bool { return &o.SetHTML }, func(o *op) *bool { return &o.Ctx }} {
		do(func(o *op) bool { p := f(o); was := *p; *p = false; return was })
	}
	// the documents
	if o().Kind != "streamer" && len(o().Doc) > 2 {
		m.doc(do, func(o *op) *[]byte { return &o.Doc }, o)
	}
	for i := range o().Vals {
		if len(o().Vals[i].Doc) > 2 {
			m.doc(do, func(o *op) *[]byte { return &o.Vals[i].Doc }, o)
		}
	}
	return changed
}

// doc removes members and elements, and shortens strings and white space,
// keeping the document well formed.
func (m *minimiser) doc(do func(func(*op) bool) bool, get func(*op) *[]byte, cur func() *op) {
	for pass := 0; pass < 2; pass++ {
		src := *get(cur())
		n, err := parseOne(src)
		if err != nil {
			return
		}
		var cuts [][]byte
		cuts = append(cuts, []byte(compactNode(src, n, nil)))
		var visit func(x *node)
		visit = func(x *node) {
			for i, k := range x.kids {
				if len(cuts) > 40 {
					return
				}
				cuts = append(cuts, []byte(compactNode(src, n, map[*node]int{x: i})))
				visit(k)
			}
		}
		visit(n)
		any := false
		for _, c := range cuts {
			if len(c) >= len(src) || m.over() {
				continue
			}
			if do(func(o *op) bool { *get(o) = c; return true }) {
				any = true
				break
			}
		}
		if !any {
			return
		}
		pass = 0
		if m.over() {
			return
		}
	}
}

// compactNode writes the document without white space and without the child
// drop[x] of x.
func compactNode(src []byte, n *node, drop map[*node]int) string {
	switch n.kind {
	case 'a', 'o':
		var sb strings.Builder
		open, end := "[", "]"
		if n.kind == 'o' {
			open, end = "{", "}"
		}
		sb.WriteString(open)
		first := true
		for i, k := range n.kids {
			if d, ok := drop[n]; ok && d == i {
				continue
			}
			if !first {
				sb.WriteString(",")
			}
			first = false
			if n.kind == 'o' {
				kb, _ := json.Marshal(n.keys[i])
				sb.Write(kb)
				sb.WriteString(":")
			}
			sb.WriteString(compactNode(src, k, drop))
		}
		sb.WriteString(end)
		return sb.String()
	}
	return string(src[n.start:n.end])
}

// schedule removes decisions from the schedule (ddmin).
func (m *minimiser) schedule(best *replay) {
	s := best.Scenario.Schedule
	if !best.Scenario.Fixed || len(s) == 0 {
		return
	}
	for k := (len(s) + 1) / 2; k >= 1 && !m.over(); {
		removed := false
		for i := 0; i < len(s) && !m.over(); {
			end := i + k
			if end > len(s) {
				end = len(s)
			}
			c := clone(*best)
			c.Scenario.Schedule = append(append(c.Scenario.Schedule[:0:0], s[:i]...), s[end:]...)
			if m.same(&c) {
				s = c.Scenario.Schedule
				best.Scenario.Schedule = s
				removed = true
			} else {
				i = end
			}
		}
		if k == 1 {
			if !removed || len(s) > 40 {
				break
			}
			continue
		}
		k = (k + 1) / 2
		if k > len(s) {
			k = len(s)
		}
		if k == 0 {
			break
		}
	}
}

// -------------------------------------------------------------------- evidence

func (d *driver) evidence(p plan, nviol int) error {
	wall := time.Since(d.start).Seconds()
	total := 0
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(d.bin), "inst", "sites.json")); err == nil {
		var all []json.RawMessage
		if json.Unmarshal(b, &all) == nil {
			total = len(all)
		}
	}
	faults := map[string]uint64{}
	other := map[string]uint64{}
	for k, st := range statNames {
		n := d.sum.Stats[st]
		if faultStat[k] {
			faults[st] = n
		} else if n > 0 {
			other[st] = n
		}
	}
	for k, n := range faults {
		if n == 0 {
			delete(faults, k)
		}
	}
	cov := map[string]interface{}{
		"evaluations":         d.sum.Runs,
		"distinct_nontrivial": len(d.hashes),
		"rule": "a case is one simulated run: tasks, operations, documents, reader/writer behaviour, faults, pool decisions and schedule are all drawn from (VERIF_SEED, property, index). " +
			"It is non-trivial when at least one fault fired or one preemption happened; two runs are the same when schedule hash, number of steps and the counts of all events are equal",
		"samples":                 d.sample,
		"seeds_per_hour":          int(float64(d.sum.Runs) / wall * 3600),
		"simulated_steps":         d.sum.Steps,
		"simulated_time":          fmt.Sprintf("%d steps of logical time (one step per library statement or I/O or synchronisation operation; the code has no clock)", d.sum.Steps),
		"longest_run_steps":       d.sum.MaxSteps,
		"operations":              d.sum.Ops,
		"context_switches":        d.sum.Switches,
		"preemptions":             d.sum.Preempts,
		"distinct_schedules":      len(d.scheds),
		"schedule_measure":        "hash of the sequence of (step, task) scheduling decisions of runs with at least one preemption",
		"faults_fired":            faults,
		"events":                  other,
		"statements_reached":      len(d.sites),
		"statements_instrumented": total,
		"pool_gets":               d.sum.PoolGets,
		"pool_reuses":             d.sum.PoolReuses,
		"pool_drops":              d.sum.PoolDrops,
		"sync_points":             d.sum.SyncOps,
		"io_points":               d.sum.IOOps,
		"runs_with_race_detector": d.race,
		"time_capped":             d.capped,
		"real_components":         "all of package jzon (built from /repo's working tree with a yield point before every statement), Go runtime memory manager and garbage collector, reflect, strconv, encoding/base64",
		"stub_components":         "sync.Pool, sync.Mutex/RWMutex/Once/Map and sync/atomic as used by jzon (scheduler-controlled replacements), io.Reader/io.Writer/pipes (simulated), user marshalers/unmarshalers/value codecs (harness), map iteration order in jzon (seeded)",
	}
	ev := map[string]interface{}{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": p.level, "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"the yield points inserted before every statement do not change what the library computes",
			"preemption between two statements of jzon is fine enough: a statement of jzon runs atomically with respect to other tasks, except for the race detector's view",
			"sampled, not exhaustive: silence means no violation among the runs counted here",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(d.dir, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(d.dir, "evidence", d.prop+".json"), append(b, '\n'), 0o644)
}
