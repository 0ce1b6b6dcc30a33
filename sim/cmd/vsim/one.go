package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"

	"verifsim/scen"
	"verifsim/sim"
)

// Replay is the file format of a violation.
type Replay struct {
	Property  string         `json:"property"`
	Scenario  string         `json:"scenario"`
	Seed      uint64         `json:"seed"`
	Race      bool           `json:"race_build,omitempty"`
	Violation *sim.Violation `json:"violation"`
	Script    *sim.Script    `json:"script"`
	Sched     sim.Sched      `json:"sched"`
	Schedule  []string       `json:"schedule,omitempty"`
	History   []string       `json:"history,omitempty"`
	Stacks    string         `json:"stacks,omitempty"`
	Output    string         `json:"output,omitempty"`
	Note      string         `json:"note,omitempty"`
}

// OneOut is the result of a single run.
type OneOut struct {
	Violations []sim.Violation       `json:"violations"`
	Script     *sim.Script           `json:"script"`
	Sched      sim.Sched             `json:"sched"`
	Decisions  []runtime.SimDecision `json:"decisions"`
	Trace      []string              `json:"trace"`
	History    []string              `json:"history"`
	Stack      string                `json:"stack"`
	Stats      runtime.SimStats      `json:"stats"`
	Leak       bool                  `json:"leak"`
}

// cmdOne runs one seed (or one replay file) and writes the result as JSON.
func cmdOne(args []string) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	scn := fs.String("scn", "", "")
	seed := fs.Uint64("seed", 0, "")
	file := fs.String("file", "", "replay file")
	out := fs.String("out", "", "")
	show := fs.Bool("show", false, "print the history")
	fs.Parse(args)
	o := sim.RunOpts{Prop: *prop, Seed: *seed, Verbose: true}
	if *file != "" {
		rp, err := readReplay(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		o.Prop, o.Seed, o.Script, o.Sched = rp.Property, rp.Seed, rp.Script, &rp.Sched
		*prop, *scn = rp.Property, rp.Scenario
	}
	p := scen.Find(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		return 2
	}
	var sc sim.Scenario
	if *scn == "" {
		sc = scenarioOf(p, *seed)
	} else {
		sc = scen.Scenario(*scn)
	}
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario")
		return 2
	}
	sim.Setup()
	r := sim.Run(sc, o)
	one := OneOut{Violations: r.Violations, Script: r.Script, Sched: r.Sched, Decisions: r.Decisions,
		Trace: renderTrace(r.Trace), History: r.History, Stack: r.Stack, Stats: r.Stats, Leak: r.Leak}
	if *out != "" {
		b, _ := json.Marshal(one)
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if *show {
		for _, t := range one.Script.Tasks {
			fmt.Println("task", t)
		}
		fmt.Println("params", one.Script.P)
		for _, l := range one.History {
			fmt.Println(l)
		}
		fmt.Println(one.Stack)
		fmt.Printf("%+v leak=%v sched=%+v\n", one.Stats, one.Leak, one.Sched.Policy)
	}
	return 0
}

func readReplay(f string) (*Replay, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		return nil, err
	}
	if rp.Script == nil {
		return nil, fmt.Errorf("%s: no script", f)
	}
	return rp, nil
}

var siteTable []string

func siteName(s uint32) string {
	if siteTable == nil {
		siteTable = []string{}
		if f, err := os.Open(sitesFile); err == nil {
			sc := bufio.NewScanner(f)
			for sc.Scan() {
				siteTable = append(siteTable, sc.Text())
			}
			f.Close()
		}
	}
	if s == 0 {
		return "harness"
	}
	if int(s) <= len(siteTable) {
		return siteTable[s-1]
	}
	return fmt.Sprint("site", s)
}

func gname(id uint64) string {
	switch id {
	case 0:
		return "-"
	case 1:
		return "clock"
	}
	return fmt.Sprintf("g%04x", id>>48)
}

func renderTrace(tr []runtime.SimDecision) []string {
	out := make([]string, 0, len(tr))
	for _, d := range tr {
		switch {
		case d.To == runtime.SimJump:
			out = append(out, fmt.Sprintf("%s#%d at %s: time jumps to the next timer", gname(d.G), d.Cnt, siteName(d.Site)))
		case d.Kind == 1:
			out = append(out, fmt.Sprintf("%s#%d stopped after %s: run %s", gname(d.G), d.Cnt, siteName(d.Site), gname(d.To)))
		default:
			out = append(out, fmt.Sprintf("%s#%d preempted before %s: run %s", gname(d.G), d.Cnt, siteName(d.Site), gname(d.To)))
		}
	}
	return out
}

func cmdReplay(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: vsim replay FILE")
		return 2
	}
	rp, err := readReplay(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v, _, text := runChild(rp, nil)
	if v == nil {
		fmt.Println("replay: the violation did not occur")
		return 0
	}
	fmt.Println(strings.TrimSpace(text))
	fmt.Printf("replay: %s: %s\n", v.Oracle, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
	return 1
}
