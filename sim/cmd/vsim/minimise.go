package main

import (
	"fmt"
	"os"
	"runtime"
	"time"

	"verifsim/sim"
)

// buildReplay turns a confirmed violation into a minimised replay.
func buildReplay(prop string, f found, nomin bool) *Replay {
	rp := &Replay{Property: prop, Scenario: f.scenario, Seed: f.seed, Race: f.race, Violation: f.v}
	v, one, text := runChild(rp, f.v)
	if one == nil {
		// The process dies (panic, race): regenerate the script here.
		rp.Script, rp.Sched = genFor(prop, f.scenario, f.seed)
		rp.Output = tail(text, 20000)
		if v != nil {
			rp.Violation = v
		}
		if !nomin {
			shrinkOps(rp, 40*time.Second)
			rp.Note = "the failing process dies, so the schedule stays in seed form (policy and seed); operations are minimised"
			if _, _, text := runChild(rp, rp.Violation); text != "" {
				rp.Output = tail(text, 20000)
			}
		}
		return rp
	}
	rp.Script, rp.Sched = one.Script, one.Sched
	if v != nil {
		rp.Violation = v
	}
	if !nomin {
		shrinkOps(rp, 30*time.Second)
		shrinkSchedule(rp, 30*time.Second)
	}
	if v, one, _ := runChild(rp, rp.Violation); v != nil && one != nil {
		rp.Violation, rp.Schedule, rp.History, rp.Stacks = v, one.Trace, one.History, one.Stack
		if len(rp.Schedule) > 3000 {
			rp.Schedule = rp.Schedule[:3000]
		}
	}
	return rp
}

func genFor(prop, scn string, seed uint64) (*sim.Script, sim.Sched) {
	sc := findScenario(scn)
	return sc.Gen(sim.NewRand(seed), prop), sim.GenSched(sim.NewRand(seed ^ 0xabcdef))
}

// shrinkOps removes tasks and operations while the same oracle fails.
func shrinkOps(rp *Replay, budget time.Duration) {
	end := time.Now().Add(budget)
	try := func(s *sim.Script) bool {
		if time.Now().After(end) {
			return false
		}
		c := *rp
		c.Script = s
		// The same seed first, then a few other schedules of the same policy.
		for k := uint64(0); k < 4; k++ {
			c.Seed = rp.Seed
			if k > 0 {
				c.Seed = sim.Mix(rp.Seed+k) >> 1
			}
			if v, _, _ := runChild(&c, rp.Violation); v != nil {
				rp.Script, rp.Seed, rp.Violation = s, c.Seed, v
				return true
			}
		}
		return false
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for i := len(rp.Script.Tasks) - 1; i >= 0; i-- {
			if len(rp.Script.Tasks[i]) == 0 {
				continue
			}
			s := rp.Script.Clone()
			s.Tasks[i] = nil
			if try(s) {
				changed = true
			}
		}
		for i := len(rp.Script.Tasks) - 1; i >= 0; i-- {
			for n := len(rp.Script.Tasks[i]) / 2; n >= 1; n /= 2 {
				for j := len(rp.Script.Tasks[i]) - n; j >= 0; j -= n {
					if j+n > len(rp.Script.Tasks[i]) {
						continue
					}
					s := rp.Script.Clone()
					s.Tasks[i] = append(s.Tasks[i][:j:j], s.Tasks[i][j+n:]...)
					if try(s) {
						changed = true
					}
				}
			}
		}
	}
}

// shrinkSchedule turns the schedule into explicit decisions and removes those
// that are not needed.
func shrinkSchedule(rp *Replay, budget time.Duration) {
	end := time.Now().Add(budget)
	v, one, _ := runChild(rp, rp.Violation)
	if v == nil || one == nil || len(one.Decisions) > 20000 {
		return
	}
	try := func(ds []runtime.SimDecision) bool {
		if time.Now().After(end) {
			return false
		}
		c := *rp
		c.Sched = sim.Sched{Replay: true, Overrides: ds}
		if v, _, _ := runChild(&c, rp.Violation); v != nil {
			rp.Sched, rp.Violation = c.Sched, v
			return true
		}
		return false
	}
	ds := one.Decisions
	if !try(ds) {
		rp.Note = "schedule kept in seed form"
		return
	}
	if try(nil) {
		return
	}
	for n := (len(ds) + 1) / 2; n >= 1; {
		removed := false
		for i := 0; i < len(ds); {
			j := min(i+n, len(ds))
			c := append(append([]runtime.SimDecision(nil), ds[:i]...), ds[j:]...)
			if try(c) {
				ds = c
				removed = true
			} else {
				i = j
			}
			if time.Now().After(end) {
				fmt.Fprintln(os.Stderr, "minimisation budget used up")
				return
			}
		}
		if n == 1 && !removed {
			break
		}
		if n > 1 {
			n /= 2
		}
	}
}
