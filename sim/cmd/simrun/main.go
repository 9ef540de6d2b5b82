// Command simrun runs simulated executions of the library.
//
//	simrun work -prop P -seed S -from A -n N     explore scenarios A..A+N-1
//	simrun replay FILE                           replay a recorded violation
//	simrun fresh                                 run a part of a scenario read from stdin
//	simrun gen -prop P -seed S -index I          print a scenario
//	simrun check ...                             the driver (see driver.go)
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"verif.local/sim/simrt"
	"verif.local/sim/ssync"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simrun work|replay|gen|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "work":
		setup()
		work(os.Args[2:])
	case "replay":
		setup()
		os.Exit(replayFile(os.Args[2:]))
	case "fresh":
		setup()
		freshMain()
	case "gen":
		setup()
		fs := flag.NewFlagSet("gen", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		seed := fs.Uint64("seed", 1, "")
		idx := fs.Int("index", 0, "")
		fs.Parse(os.Args[2:])
		b, _ := json.MarshalIndent(replay{Prop: *prop, Scenario: generate(*prop, *seed, *idx).readable()}, "", " ")
		fmt.Println(string(b))
	case "check":
		os.Exit(check(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

// setup removes the nondeterminism of the Go runtime that is not behind a seam:
// one OS thread runs Go code, and garbage collections happen on request only.
func setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
}

// prelude describes scenarios that have to run before in the same process.
type prelude struct {
	Prop string `json:"prop"`
	Seed uint64 `json:"seed"`
	From int    `json:"from"`
	N    int    `json:"n"`
}

// replay is the content of a replay file.
type replay struct {
	Prop      string     `json:"property"`
	Race      bool       `json:"race,omitempty"` // needs the build with the race detector
	Prelude   *prelude   `json:"prelude,omitempty"`
	Violation *violation `json:"violation,omitempty"`
	Report    string     `json:"report,omitempty"`
	Crash     bool       `json:"crash,omitempty"` // the process dies
	Note      string     `json:"note,omitempty"`
	Scenario  *scenario  `json:"scenario"`
}

func (sc *scenario) readable() *scenario {
	sc.walk(func(o *op) {
		o.Text = string(o.Doc)
		for _, v := range o.Vals {
			v.Text = string(v.Doc)
		}
	})
	return sc
}

// summary is what a worker reports about its scenarios.
type summary struct {
	Runs       int               `json:"runs"`
	Steps      uint64            `json:"steps"`
	Switches   uint64            `json:"switches"`
	Preempts   uint64            `json:"preempts"`
	Ops        uint64            `json:"ops"`
	Stats      map[string]uint64 `json:"stats"`
	Hashes     []uint64          `json:"hashes"` // of the non-trivial executions
	Scheds     []uint64          `json:"scheds"` // of the schedules with at least one preemption
	Sites      []int32           `json:"sites"`
	MaxSteps   uint64            `json:"maxSteps"`
	PoolGets   uint64            `json:"poolGets"`
	PoolReuses uint64            `json:"poolReuses"`
	PoolDrops  uint64            `json:"poolDrops"`
	SyncOps    uint64            `json:"syncOps"`
	IOOps      uint64            `json:"ioOps"`
	Sample     string            `json:"sample,omitempty"`
	Digest     uint64            `json:"digest"` // of all the executions, in order
}

func work(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	n := fs.Int("n", 1, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	out := bufio.NewWriter(os.Stdout)
	var sum summary
	sum.Digest = 0xcbf29ce484222325
	for i := *from; i < *from+*n; i++ {
		fmt.Fprintf(out, "I %d\n", i)
		out.Flush()
		between(i - *from)
		sc := generate(*prop, *seed, i)
		before := stats
		v, res := sc.run()
		sum.Runs++
		sum.Steps += res.Steps
		sum.Switches += uint64(res.Switches)
		sum.Preempts += uint64(res.Preempts)
		sum.Digest = (sum.Digest ^ res.Hash) * 0x100000001b3
		sum.Digest = (sum.Digest ^ res.Steps) * 0x100000001b3
		for _, t := range sc.Tasks {
			sum.Ops += uint64(len(t.Ops))
		}
		if res.Steps > sum.MaxSteps {
			sum.MaxSteps = res.Steps
		}
		h := res.Hash
		nontrivial := res.Preempts > 0
		for k := range stats {
			if d := stats[k] - before[k]; d != 0 {
				if faultStat[k] {
					nontrivial = true
				}
				h = (h ^ uint64(k)<<32 ^ d) * 0x100000001b3
				sum.Digest = (sum.Digest ^ uint64(k)<<32 ^ d) * 0x100000001b3
			}
		}
		h = (h ^ res.Steps) * 0x100000001b3
		if nontrivial {
			sum.Hashes = append(sum.Hashes, h)
		}
		if res.Preempts > 0 {
			sum.Scheds = append(sum.Scheds, res.Hash)
		}
		if v != nil {
			sc.Fixed = true
			sc.Schedule = res.Schedule
			rp := replay{Prop: *prop, Race: simrt.RaceBuild, Violation: v, Scenario: sc}
			if res.Truncated {
				sc.Fixed, sc.Schedule = false, nil
			}
			b, err := json.Marshal(rp)
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(out, "V %s\n", b)
			break
		}
		if *verbose {
			fmt.Fprintf(os.Stderr, "%d steps %d switches %d hash %x\n", i, res.Steps, res.Switches, res.Hash)
		}
		if i == *from {
			sum.Sample = sample(sc, res)
		}
	}
	sum.Stats = map[string]uint64{}
	for k, c := range stats {
		if c != 0 {
			sum.Stats[statNames[k]] = c
		}
	}
	for s, c := range simrt.Cov {
		if c != 0 {
			sum.Sites = append(sum.Sites, int32(s))
		}
	}
	sum.PoolGets, sum.PoolReuses, sum.PoolDrops = ssync.PoolGets, ssync.PoolReuses, ssync.PoolDrops
	sum.SyncOps, sum.IOOps = simrt.SyncOps, simrt.IOOps
	b, _ := json.Marshal(&sum)
	fmt.Fprintf(out, "S %s\n", b)
	out.Flush()
}

// between collects the garbage of the previous scenarios.
func between(k int) {
	if k%8 == 0 {
		runtime.GC()
	}
}

// sample writes an execution out.
func sample(sc *scenario, res simrt.Result) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "seed %d index %d: strategy %s, %d steps, %d switches;", sc.Seed, sc.Index, sc.Strategy.Kind, res.Steps, res.Switches)
	for t, ts := range sc.Tasks {
		fmt.Fprintf(&sb, " task %d:", t)
		for _, o := range ts.Ops {
			fmt.Fprintf(&sb, " %s/%s", o.Kind, o.Via)
			if o.Type != "" {
				fmt.Fprintf(&sb, " %s", o.Type)
			}
			if len(o.Doc) > 0 {
				fmt.Fprintf(&sb, " %.80q", o.Doc)
			}
			for _, v := range o.Vals {
				fmt.Fprintf(&sb, " [%s %s%s %.40q]", v.Act, v.Type, v.Bad, v.Doc)
			}
			if o.R != nil {
				fmt.Fprintf(&sb, " chunks %.40v rest %d", fmt.Sprint(o.R.Chunks), o.R.Rest)
				if f := o.R.Fault; f != nil {
					fmt.Fprintf(&sb, " fault %s at %d data=%v times=%d", f.Kind, f.At, f.Data, f.Times)
				}
			}
			if o.W != nil {
				for _, f := range o.W.Faults {
					fmt.Fprintf(&sb, " write fault %s at %d", f.Kind, f.At)
				}
			}
			for _, a := range o.CB {
				fmt.Fprintf(&sb, " callback %d: %s", a.N, a.Act)
			}
			sb.WriteString(";")
		}
	}
	s := sb.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func replayFile(args []string) int {
	quiet := false
	if len(args) > 0 && args[0] == "-q" {
		quiet = true
		args = args[1:]
	}
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: simrun replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rp.Race && !simrt.RaceBuild {
		fmt.Fprintln(os.Stderr, "this replay needs the build with the race detector (simrun_race)")
		return 2
	}
	if p := rp.Prelude; p != nil {
		for i := p.From; i < p.From+p.N; i++ {
			between(i - p.From)
			sc := generate(p.Prop, p.Seed, i)
			sc.run()
		}
		between(p.N)
	}
	v, res := rp.Scenario.run()
	if v == nil {
		if !quiet {
			fmt.Printf("no violation: %d steps, %d switches, hash %x\n", res.Steps, res.Switches, res.Hash)
		}
		fmt.Println("R null")
		return 0
	}
	if !quiet {
		fmt.Printf("%s\n%d steps, %d switches, hash %x\n", v, res.Steps, res.Switches, res.Hash)
	}
	vb, _ := json.Marshal(v)
	fmt.Printf("R %s\n", vb)
	return 1
}
