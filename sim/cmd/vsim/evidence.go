package main

import (
	"bufio"
	"encoding/json"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verifsim/scen"
	"verifsim/sim"
)

func findScenario(n string) sim.Scenario { return scen.Scenario(n) }

// Known is an entry of the known-findings file.
type Known struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Scenario string `json:"scenario,omitempty"`
	Oracle   string `json:"oracle,omitempty"`
	Match    string `json:"match,omitempty"` // regexp on the violation message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re       *regexp.Regexp
}

func loadKnown(file, prop string) ([]*Known, error) {
	f, err := os.Open(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []*Known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "fixed:") || strings.HasPrefix(l, "#") {
			continue
		}
		k := &Known{}
		if err := json.Unmarshal([]byte(l), k); err != nil {
			return nil, err
		}
		if k.Status != "known" || k.Property != prop {
			continue
		}
		if k.re, err = regexp.Compile(k.Match); err != nil {
			return nil, err
		}
		out = append(out, k)
	}
	return out, sc.Err()
}

func matchKnown(ks []*Known, scenario string, v *sim.Violation) *Known {
	for _, k := range ks {
		if k.Scenario == scenario && k.Oracle == v.Oracle && k.re.MatchString(v.Msg) {
			return k
		}
	}
	return nil
}

func writeEvidence(p *scen.Prop, tier string, seed int64, t *Totals, hashes, states map[uint64]struct{}, wall, explored time.Duration, viols, unrepro, jobs int, known map[string]uint64) {
	var samples []any
	for i := uint64(0); i < 3; i++ {
		s := seedOf(uint64(seed), p.ID, i)
		sc := scenarioOf(p, s)
		script, sched := genFor(p.ID, sc.Name(), s)
		samples = append(samples, map[string]any{"seed": s, "scenario": sc.Name(), "script": script, "sched": sched})
	}
	hours := explored.Hours()
	if hours == 0 {
		hours = 1e-9
	}
	faults := map[string]uint64{"goroutine-preempted": t.Switches, "clock-jump-under-load": t.Jumps}
	for k, v := range t.Faults {
		faults[k] = v
	}
	scns := []string{}
	for _, e := range p.Scenarios {
		scns = append(scns, e.S.Name())
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":                         t.Runs,
			"distinct_nontrivial":                 len(hashes),
			"rule":                                "one evaluation is one simulated run: a script, a fault plan and a schedule, all derived from its seed; it is non-trivial if at least one scheduling choice between two or more runnable goroutines was made, and distinct if the hash of its sequence of (scheduling point, chosen goroutine) differs from every other run's",
			"samples":                             samples,
			"runs_per_hour":                       float64(t.Runs) / hours,
			"seeds_per_hour":                      float64(t.Runs) / hours,
			"simulated_seconds":                   t.SimNanos / 1e9,
			"scheduling_points_passed":            t.Yields,
			"forced_context_switches":             t.Switches,
			"choices_at_blocking_points":          t.Picks,
			"goroutines_started":                  t.Goroutines,
			"max_runnable":                        t.MaxRunq,
			"runs_without_any_choice":             t.Trivial,
			"distinct_abstract_states":            len(states),
			"faults_injected":                     faults,
			"operations":                          t.Ops,
			"runs_by_scenario":                    t.Scenarios,
			"runs_by_policy":                      t.Policies,
			"runs_with_leftover_goroutine":        t.Leaks,
			"violations_of_other_properties_seen": t.Other,
			"unreproduced_candidates":             unrepro,
			"known_findings_reached":              known,
			"workers":                             jobs,
			"race_detector":                       true,
			"scenarios":                           scns,
			"real_code":                           p.Real,
			"stubbed":                             p.Stub,
		},
		"assumptions": []string{
			"schedules, faults and inputs are sampled from the seed, not enumerated: a clean batch is evidence, not proof",
			"interleavings are explored at statement granularity in the repository and in aperturerobotics/util; accesses inside one statement are covered by the happens-before race detector only",
			"Go 1.25.14's compiler, its standard library above the scheduler, and the synctest fake clock behave as in production",
		},
		"wall_s":     wall.Seconds(),
		"violations": viols,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0o644)
}
