package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"verifsim/scen"
	"verifsim/sim"
)

// seedOf is the seed of the idx-th run of a check.
func seedOf(base uint64, prop string, idx uint64) uint64 {
	s := sim.Mix(base*0x9e3779b97f4a7c15 + 0x2545f491)
	for _, c := range prop {
		s = sim.Mix(s ^ uint64(c)*0x100000001b3)
	}
	return sim.Mix(s+idx*0x9e3779b97f4a7c15) >> 1
}

// scenarioOf picks the scenario of a seed.
func scenarioOf(p *scen.Prop, seed uint64) sim.Scenario {
	tot := 0
	for _, e := range p.Scenarios {
		tot += e.Weight
	}
	n := int((sim.Mix(seed^0x5ce) >> 11) % uint64(tot))
	for _, e := range p.Scenarios {
		if n < e.Weight {
			return e.S
		}
		n -= e.Weight
	}
	return p.Scenarios[0].S
}

// Totals aggregates runs.
type Totals struct {
	Runs       uint64            `json:"runs"`
	Yields     uint64            `json:"yields"`
	Switches   uint64            `json:"switches"`
	Picks      uint64            `json:"picks"`
	Jumps      uint64            `json:"jumps"`
	Goroutines uint64            `json:"goroutines"`
	SimNanos   float64           `json:"sim_nanos"`
	Faults     map[string]uint64 `json:"faults"`
	Ops        map[string]uint64 `json:"ops"`
	Scenarios  map[string]uint64 `json:"scenarios"`
	Policies   map[string]uint64 `json:"policies"`
	Trivial    uint64            `json:"trivial"`
	Other      map[string]uint64 `json:"other"` // violations of other properties (reported by their own checks)
	Leaks      uint64            `json:"leaks"`
	MaxRunq    int               `json:"max_runnable"`
}

func newTotals() *Totals {
	return &Totals{Faults: map[string]uint64{}, Ops: map[string]uint64{}, Scenarios: map[string]uint64{}, Policies: map[string]uint64{}, Other: map[string]uint64{}}
}

func (t *Totals) add(o *Totals) {
	t.Runs += o.Runs
	t.Yields += o.Yields
	t.Switches += o.Switches
	t.Picks += o.Picks
	t.Jumps += o.Jumps
	t.Goroutines += o.Goroutines
	t.SimNanos += o.SimNanos
	t.Trivial += o.Trivial
	t.Leaks += o.Leaks
	if o.MaxRunq > t.MaxRunq {
		t.MaxRunq = o.MaxRunq
	}
	for _, p := range []struct{ a, b map[string]uint64 }{{t.Faults, o.Faults}, {t.Ops, o.Ops}, {t.Scenarios, o.Scenarios}, {t.Policies, o.Policies}, {t.Other, o.Other}} {
		for k, v := range p.b {
			p.a[k] += v
		}
	}
}

// WorkerOut is the result of a worker.
type WorkerOut struct {
	Totals    *Totals        `json:"totals"`
	Hashes    string         `json:"hashes"`
	Violation *sim.Violation `json:"violation,omitempty"`
	Seed      uint64         `json:"seed,omitempty"`
	Scenario  string         `json:"scenario,omitempty"`
}

const maxHashes = 2_000_000

var policyNames = []string{"fifo", "random", "pct"}

func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	start := fs.Uint64("start", 0, "")
	stride := fs.Uint64("stride", 1, "")
	secs := fs.Float64("secs", 10, "")
	maxRuns := fs.Uint64("max", 1<<62, "")
	status := fs.String("status", "", "")
	hashes := fs.String("hashes", "", "")
	skip := fs.String("skip", "", "comma separated seeds to skip")
	fs.Parse(args)
	p := scen.Find(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	sim.Setup()
	skips := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skips[s] = true
	}
	var sf *os.File
	if *status != "" {
		f, err := os.OpenFile(*status, os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		sf = f
	}
	out := WorkerOut{Totals: newTotals()}
	t := out.Totals
	seen := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var buf [16]byte
	var ms runtime.MemStats
	for idx := *start; t.Runs < *maxRuns && time.Now().Before(deadline); idx += *stride {
		seed := seedOf(*base, *prop, idx)
		if skips[fmt.Sprint(seed)] {
			continue
		}
		if sf != nil {
			binary.LittleEndian.PutUint64(buf[:], seed)
			binary.LittleEndian.PutUint64(buf[8:], idx)
			sf.WriteAt(buf[:], 0)
		}
		sc := scenarioOf(p, seed)
		r := sim.Run(sc, sim.RunOpts{Prop: *prop, Seed: seed})
		t.Runs++
		t.Yields += r.Stats.Yields
		t.Switches += r.Stats.Switches
		t.Picks += r.Stats.Picks
		t.Jumps += r.Stats.Jumps
		t.Goroutines += r.Stats.Goroutines
		t.SimNanos += float64(r.Stats.Elapsed)
		if r.Stats.MaxRunnable > t.MaxRunq {
			t.MaxRunq = r.Stats.MaxRunnable
		}
		t.Scenarios[sc.Name()]++
		t.Policies[policyNames[r.Sched.Policy]]++
		for k, v := range r.Faults {
			t.Faults[k] += uint64(v)
		}
		for k, v := range r.Ops {
			t.Ops[k] += uint64(v)
		}
		if r.Leak {
			t.Leaks++
		}
		if r.Stats.Switches+r.Stats.Picks == 0 {
			t.Trivial++
		} else if len(seen) < maxHashes {
			seen[r.Stats.Hash] = struct{}{}
		}
		for s := range r.States {
			if len(states) < maxHashes {
				states[s] = struct{}{}
			}
		}
		for i := range r.Violations {
			v := &r.Violations[i]
			if v.Prop == *prop {
				out.Violation, out.Seed, out.Scenario = v, seed, sc.Name()
				break
			}
			t.Other[v.Prop+"/"+v.Oracle]++
		}
		if out.Violation != nil {
			break
		}
		if t.Runs%64 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 192<<20 {
				runtime.GC()
			}
		}
	}
	if *hashes != "" {
		b := make([]byte, 0, 8*(len(seen)+len(states)+1))
		b = binary.LittleEndian.AppendUint64(b, uint64(len(seen)))
		for h := range seen {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		for h := range states {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(*hashes, b, 0o644)
		out.Hashes = *hashes
	}
	j, _ := json.Marshal(out)
	fmt.Println("WORKER " + string(j))
	return 0
}

func cmdDet(args []string) int {
	fs := flag.NewFlagSet("det", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	start := fs.Uint64("start", 0, "")
	stride := fs.Uint64("stride", 1, "")
	n := fs.Uint64("n", 100, "")
	js := fs.Bool("json", false, "")
	fs.Parse(args)
	p := scen.Find(*prop)
	if p == nil {
		return 2
	}
	sim.Setup()
	for i := uint64(0); i < *n; i++ {
		idx := *start + i**stride
		seed := seedOf(*base, *prop, idx)
		r := sim.Run(scenarioOf(p, seed), sim.RunOpts{Prop: *prop, Seed: seed})
		if *js {
			fmt.Println(sim.JSON(map[string]any{"I": idx, "S": seed, "V": r.Violations}))
		} else {
			for _, l := range renderTrace(r.Trace) {
				fmt.Println(l)
			}
			fmt.Printf("%d %d %x %d %d %d %d %v %v %v\n", idx, seed, r.Stats.Hash, r.Stats.Yields, r.Stats.Switches, r.Stats.Picks, r.Stats.Elapsed, r.Violations, r.Leak, r.Stats.Goroutines)
		}
		if i%100 == 99 {
			runtime.GC()
		}
	}
	return 0
}
