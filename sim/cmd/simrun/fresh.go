package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"verif.local/sim/simrt"
)

// A scenario of mode "fresh" runs in a process of its own, and so does each of
// its operations alone: the reference knows nothing of the other operations,
// not even through the package level state of the library.

// freshProc is set in the processes that run a part of a fresh scenario: the
// library must not be used to prepare anything.
var freshProc bool

type freshJob struct {
	Sc    *scenario `json:"sc"`
	Op    int       `json:"op"` // the operation to run alone, -1: the scenario
	Solos []lines   `json:"solos,omitempty"`
}

type freshOut struct {
	Log  lines         `json:"log,omitempty"`
	Fail string        `json:"fail,omitempty"`
	V    *violation    `json:"v,omitempty"`
	Res  *simrt.Result `json:"res,omitempty"`
	St   []uint64      `json:"st,omitempty"`
}

// lines are transported byte by byte: they need not be valid UTF-8.
type lines []string

func (l lines) MarshalJSON() ([]byte, error) {
	var b [][]byte
	for _, s := range l {
		b = append(b, []byte(s))
	}
	return json.Marshal(b)
}

func (l *lines) UnmarshalJSON(d []byte) error {
	var b [][]byte
	if err := json.Unmarshal(d, &b); err != nil {
		return err
	}
	*l = nil
	for _, s := range b {
		*l = append(*l, string(s))
	}
	return nil
}

func freshMain() {
	freshProc = true
	var j freshJob
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var out freshOut
	var ops []*op
	j.Sc.walk(func(o *op) { ops = append(ops, o) })
	if j.Op >= 0 {
		o := ops[j.Op]
		res := alone(func() {
			o.exp = &prep{}
			o.prepare(j.Sc)
			ts := j.Sc.aloneTask(o)
			simrt.Cur().Data = ts
			out.Log = ts.runOp(o, nil)
			simrt.Cur().Data = nil
		})
		if res.Failure != "" {
			out.Fail = failClass(res) + ": " + res.Failure + "\n" + trimStack(res.PanicStack)
		}
	} else {
		i := 0
		res := alone(func() {
			for _, o := range ops {
				o.exp = &prep{}
				o.prepare(j.Sc)
				o.exp.solo = j.Solos[i]
				i++
			}
		})
		if res.Failure != "" {
			panic("harness: " + res.Failure)
		}
		v, r := j.Sc.simulate()
		out.V, out.Res = v, &r
	}
	out.St = stats[:]
	b, err := json.Marshal(&out)
	if err != nil {
		panic(err)
	}
	fmt.Printf("F %s\n", b)
}

// child runs a job in a new process.
func child(j *freshJob) *freshOut {
	exe, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	in, err := json.Marshal(j)
	if err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(exe, "fresh")
	cmd.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	s := so.String()
	if i := strings.Index(s, "F {"); i >= 0 {
		var out freshOut
		if e := json.Unmarshal([]byte(s[i+2:]), &out); e != nil {
			panic("harness: " + e.Error())
		}
		return &out
	}
	e := se.String()
	if strings.Contains(e, "harness") {
		panic("harness: " + e)
	}
	if len(e) > 4000 {
		e = e[:4000]
	}
	return &freshOut{Fail: fmt.Sprintf("panic: the process died (%v)\n%s", err, e)}
}

func (sc *scenario) runFresh() (*violation, simrt.Result) {
	n := 0
	sc.walk(func(*op) { n++ })
	var solos []lines
	for k := 0; k < n; k++ {
		out := child(&freshJob{Sc: sc, Op: k})
		if out.Fail != "" {
			class := out.Fail[:strings.IndexByte(out.Fail, ':')]
			return &violation{Class: class, Task: -1, Op: -1, Detail: "operation run alone: " + out.Fail}, simrt.Result{}
		}
		solos = append(solos, out.Log)
	}
	out := child(&freshJob{Sc: sc, Op: -1, Solos: solos})
	if out.Fail != "" {
		return &violation{Class: "panic", Task: -1, Op: -1, Detail: out.Fail}, simrt.Result{}
	}
	count(stFresh)
	for i, c := range out.St {
		stats[i] += c
	}
	return out.V, *out.Res
}

// genFresh makes a scenario of mode "fresh": a few types met through different
// configs, with failures among the operations.
func genFresh(b *builder, tasks int) {
	r := b.r
	b.sc.Mode = "fresh"
	b.sc.Oracle = oracles{Solo: true}
	b.sizeMax = 8
	b.std = false
	var cfgs []int
	for i := r.in(2, 3); i > 0; i-- {
		b.sc.Cfgs = append(b.sc.Cfgs, cfgSpec{Kind: cfgKinds[r.n(len(cfgKinds))]})
		cfgs = append(cfgs, len(b.sc.Cfgs)-1)
	}
	switch r.n(4) {
	case 0:
		b.types = []string{"Tagged", "Tagged1", "TaggedN", "TaggedL"}
	case 1:
		b.types = []string{"same1", "same2", "same3", "same4"}
	case 2:
		b.derived()
	case 3:
		b.focus(r.in(2, 4))
	}
	if len(b.types) > 3 {
		i := r.n(len(b.types) - 1)
		b.types = b.types[i : i+2]
	}
	for t := 0; t < tasks; t++ {
		var ops []*op
		for i := r.in(2, 5); i > 0; i-- {
			var o *op
			if r.p(1, 2) {
				o = b.unm("bytes", "reader", "iter", "string", "pkg")
			} else {
				o = b.marshal()
			}
			if !isPkg(o.Via) {
				o.Cfg = cfgs[r.n(len(cfgs))]
			}
			o.Dirty = true
			if o.Kind == "unm" && r.p(1, 6) {
				b.dirty(o)
			}
			if o.Kind == "marshal" && r.p(1, 8) {
				o.Bad = badKinds[r.n(len(badKinds))]
			}
			if r.p(1, 8) {
				b.cb(o, 1, "err", "panic")
			}
			ops = append(ops, o)
		}
		b.task(ops...)
	}
}
