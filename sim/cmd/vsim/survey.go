package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verifsim/scen"
	"verifsim/sim"
)

// cmdSurvey runs seeds and tabulates every violation of every property
// (development aid: nothing is minimised, nothing stops the exploration).
func cmdSurvey(args []string) int {
	fs := flag.NewFlagSet("survey", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	n := fs.Uint64("n", 4000, "")
	fs.Parse(args)
	if scen.Find(*prop) == nil {
		return 2
	}
	type row struct {
		n    int
		seed uint64
		scn  string
		msg  string
	}
	rows := map[string]*row{}
	var mu sync.Mutex
	note := func(v *sim.Violation, seed uint64) {
		mu.Lock()
		defer mu.Unlock()
		k := v.Prop + "/" + v.Oracle
		if v.Oracle == "panic" || v.Oracle == "data-race" {
			k += " " + v.Msg
			if len(k) > 200 {
				k = k[:200]
			}
		}
		r := rows[k]
		if r == nil {
			r = &row{seed: seed, msg: v.Msg, scn: scenarioOf(scen.Find(*prop), seed).Name()}
			rows[k] = r
		}
		r.n++
		if os.Getenv("SURVEY_FIRST") != "" {
			fmt.Printf("%s seed=%d: %s\n", k, seed, v.Msg)
			os.Exit(0)
		}
	}
	var wg sync.WaitGroup
	jobs, race, chunk := runtime.NumCPU(), true, *n
	if j, err := strconv.Atoi(os.Getenv("SURVEY_JOBS")); err == nil {
		jobs, race, chunk = j, false, 50
	}
	for w := 0; w < jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start := uint64(w)
			for start < *n {
				cmd := exec.Command(simBinary(race && w%4 == 1), "det", "-json", "-prop", *prop, "-base", fmt.Sprint(*base), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(jobs), "-n", fmt.Sprint(min(chunk, (*n-start+uint64(jobs)-1)/uint64(jobs))))
				cmd.Env = childEnv
				var ob bytes.Buffer
				var eb capped
				cmd.Stdout, cmd.Stderr = &ob, &eb
				cmd.Run()
				var last uint64
				for _, l := range strings.Split(ob.String(), "\n") {
					var d struct {
						I, S uint64
						V    []sim.Violation
					}
					if json.Unmarshal([]byte(l), &d) != nil {
						continue
					}
					last = d.I
					for i := range d.V {
						note(&d.V[i], d.S)
					}
				}
				if cmd.ProcessState.ExitCode() == 0 {
					if chunk == *n {
						return
					}
					start += chunk * uint64(jobs)
					continue
				}
				if ob.Len() > 0 {
					last += uint64(jobs)
				} else {
					last = start
				}
				v := classify(*prop, cmd.ProcessState.ExitCode(), eb.String())
				if v == nil {
					v = &sim.Violation{Prop: *prop, Oracle: "TROUBLE", Msg: tail(eb.String(), 500)}
				}
				note(v, seedOf(*base, *prop, last))
				start = last + uint64(jobs)
			}
		}()
	}
	wg.Wait()
	var ks []string
	for k := range rows {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := rows[k]
		fmt.Printf("%-40s %6d  seed=%d scn=%s: %s\n", k, r.n, r.seed, r.scn, r.msg)
	}
	return 0
}
