package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/scen"
	"verifsim/sim"
)

var (
	sitesFile = envOr("VSIM_SITES", "/verif/.build/gen/sites.txt")
	verifDir  = envOr("VSIM_VERIF", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var childEnv = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=2", "GOTRACEBACK=all", "GODEBUG=asyncpreemptoff=1")

// classify maps the death of a child to a violation, or to nil when it is
// trouble of the check itself.
func classify(prop string, code int, stderr string) *sim.Violation {
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		if raceSummary(stderr) == "" {
			return nil // not in the code under test
		}
		return &sim.Violation{Prop: prop, Oracle: "data-race", Msg: "data race between unsynchronised accesses: " + raceSummary(stderr)}
	case strings.Contains(stderr, "SIM-LIVELOCK"):
		return &sim.Violation{Prop: prop, Oracle: "livelock", Msg: "no quiescence within the step bound after faults stopped"}
	case strings.Contains(stderr, "all goroutines are asleep"):
		return &sim.Violation{Prop: prop, Oracle: "deadlock", Msg: "all goroutines are asleep"}
	case code == 2 && (strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "[signal ")):
		if strings.Contains(stderr, "sim: ") || strings.Contains(stderr, "out of memory") {
			return nil
		}
		return &sim.Violation{Prop: prop, Oracle: "panic", Msg: firstLine(stderr, "panic:", "fatal error:")}
	}
	return nil
}

func firstLine(s string, pats ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range pats {
			if strings.Contains(l, p) {
				return strings.TrimSpace(l)
			}
		}
	}
	return "process died"
}

func raceSummary(s string) string {
	var fns []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous") {
			for j := i + 1; j < len(lines) && j < i+12; j++ {
				f := strings.TrimSpace(lines[j])
				if strings.Contains(f, "/verif/sim/") {
					break // the harness accesses
				}
				if strings.Contains(f, "/repo/") || strings.Contains(f, "/util/") {
					fns = append(fns, strings.TrimSpace(lines[j-1])+" "+filepath.Base(strings.Fields(f)[0]))
					break
				}
			}
		}
		if len(fns) == 2 {
			break
		}
	}
	return strings.Join(fns, " vs ")
}

// runChild runs a replay in a fresh process. It returns the violation of the
// replay's property with the wanted oracle (any oracle if want is nil).
func runChild(rp *Replay, want *sim.Violation) (*sim.Violation, *OneOut, string) {
	dir, err := os.MkdirTemp("", "vsim")
	if err != nil {
		return nil, nil, err.Error()
	}
	defer os.RemoveAll(dir)
	args := []string{"one", "-out", filepath.Join(dir, "out.json")}
	if rp.Script == nil {
		args = append(args, "-prop", rp.Property, "-scn", rp.Scenario, "-seed", fmt.Sprint(rp.Seed))
	} else {
		b, _ := json.Marshal(rp)
		f := filepath.Join(dir, "in.json")
		os.WriteFile(f, b, 0o644)
		args = append(args, "-file", f)
	}
	cmd := exec.Command(simBinary(rp.Race), args...)
	cmd.Env = childEnv
	var eb capped
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return nil, nil, err.Error()
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return nil, nil, "child timed out"
	}
	code := cmd.ProcessState.ExitCode()
	if code != 0 {
		v := classify(rp.Property, code, eb.String())
		if v != nil && want != nil && v.Oracle != want.Oracle {
			v = nil
		}
		return v, nil, eb.String()
	}
	b, err := os.ReadFile(filepath.Join(dir, "out.json"))
	if err != nil {
		return nil, nil, eb.String()
	}
	one := &OneOut{}
	if json.Unmarshal(b, one) != nil {
		return nil, nil, eb.String()
	}
	for i := range one.Violations {
		v := &one.Violations[i]
		if v.Prop == rp.Property && (want == nil || v.Oracle == want.Oracle) {
			return v, one, eb.String()
		}
	}
	return nil, one, eb.String()
}

type found struct {
	v        *sim.Violation
	seed     uint64
	scenario string
	race     bool
}

// simBinary is the simulator binary, with or without the race detector.
func simBinary(race bool) string {
	p := strings.TrimSuffix(os.Args[0], "-race")
	if race {
		p += "-race"
	}
	return p
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	secs := fs.Float64("secs", 0, "exploration seconds (default by tier)")
	jobs := fs.Int("j", runtime.NumCPU(), "")
	nomin := fs.Bool("nomin", false, "")
	fs.Parse(args)
	p := scen.Find(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad VERIF_SEED")
			return 2
		}
		seed = n
	}
	if *secs == 0 {
		*secs = 30
		if *tier == "thorough" {
			*secs = 600
		}
	}
	fmt.Printf("check property=%s tier=%s VERIF_SEED=%d workers=%d seconds=%.0f\n", *prop, *tier, seed, *jobs, *secs)
	dir, err := os.MkdirTemp("", "vsimcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	begin := time.Now()
	known, err := loadKnown(filepath.Join(verifDir, "known_findings.jsonl"), *prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
	}

	var mu sync.Mutex
	total := newTotals()
	hashes, states := map[uint64]struct{}{}, map[uint64]struct{}{}
	var founds []found
	var infra []string
	unrepro := 0
	knownHits := map[string]uint64{}
	stop := false
	var procs []*exec.Cmd
	var wg sync.WaitGroup
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var skip []string
			race := w%4 == 1
			// Start beyond this worker's earlier runs after a restart.
			start := uint64(w)
			for {
				left := *secs - time.Since(begin).Seconds()
				mu.Lock()
				st := stop
				mu.Unlock()
				if left <= 0.2 || st {
					return
				}
				status := filepath.Join(dir, fmt.Sprintf("st%d", w))
				hf := filepath.Join(dir, fmt.Sprintf("h%d", w))
				cmd := exec.Command(simBinary(race), "worker", "-prop", *prop, "-base", fmt.Sprint(seed), "-start", fmt.Sprint(start),
					"-stride", fmt.Sprint(*jobs), "-secs", fmt.Sprint(left), "-status", status, "-hashes", hf, "-skip", strings.Join(skip, ","))
				cmd.Env = append(childEnv[:len(childEnv):len(childEnv)], "TMPDIR="+dir)
				var ob bytes.Buffer
				var eb capped
				cmd.Stdout, cmd.Stderr = &ob, &eb
				mu.Lock()
				if stop {
					mu.Unlock()
					return
				}
				if err := cmd.Start(); err != nil {
					infra = append(infra, err.Error())
					mu.Unlock()
					return
				}
				procs = append(procs, cmd)
				mu.Unlock()
				tm := time.AfterFunc(time.Duration((left+90)*float64(time.Second)), func() { cmd.Process.Kill() })
				cmd.Wait()
				watchdog := !tm.Stop()
				mu.Lock()
				if stop {
					mu.Unlock()
					return
				}
				mu.Unlock()
				sb, _ := os.ReadFile(status)
				var curSeed, curIdx uint64
				if len(sb) >= 16 {
					curSeed, curIdx = binary.LittleEndian.Uint64(sb), binary.LittleEndian.Uint64(sb[8:])
				}
				start = curIdx + uint64(*jobs)
				var f *found
				if cmd.ProcessState.ExitCode() == 0 {
					var wo WorkerOut
					for _, l := range strings.Split(ob.String(), "\n") {
						if strings.HasPrefix(l, "WORKER ") {
							json.Unmarshal([]byte(l[7:]), &wo)
						}
					}
					if wo.Totals == nil {
						mu.Lock()
						infra = append(infra, "worker without result")
						mu.Unlock()
						return
					}
					mu.Lock()
					total.add(wo.Totals)
					readHashes(hf, hashes, states)
					mu.Unlock()
					if wo.Violation == nil {
						return
					}
					f = &found{wo.Violation, wo.Seed, wo.Scenario, race}
				} else {
					v := classify(*prop, cmd.ProcessState.ExitCode(), eb.String())
					if v == nil || watchdog {
						mu.Lock()
						infra = append(infra, fmt.Sprintf("worker died: code %d watchdog=%v seed %d: %s", cmd.ProcessState.ExitCode(), watchdog, curSeed, tail(eb.String(), 2000)))
						stop = true
						mu.Unlock()
						return
					}
					f = &found{v, curSeed, scenarioOf(p, curSeed).Name(), race}
				}
				if k := matchKnown(known, f.scenario, f.v); k != nil {
					mu.Lock()
					knownHits[k.What]++
					mu.Unlock()
					continue
				}
				// Confirm in a fresh process before believing it.
				rp := &Replay{Property: *prop, Scenario: f.scenario, Seed: f.seed, Race: race}
				v, _, _ := runChild(rp, f.v)
				mu.Lock()
				if v == nil {
					unrepro++
					skip = append(skip, fmt.Sprint(f.seed))
					fmt.Printf("note: seed %d did not reproduce in a fresh process (%s: %s)\n", f.seed, f.v.Oracle, f.v.Msg)
				} else {
					founds = append(founds, *f)
					stop = true
					for _, c := range procs {
						if c.Process != nil {
							c.Process.Kill()
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	explored := time.Since(begin)

	code := 0
	var rpath string
	if len(founds) != 0 {
		f := founds[0]
		fmt.Printf("found: seed=%d scenario=%s oracle=%s: %s\n", f.seed, f.scenario, f.v.Oracle, f.v.Msg)
		rp := buildReplay(*prop, f, *nomin)
		odir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(odir, 0o755)
		rpath = filepath.Join(odir, fmt.Sprintf("%s-%d.json", *prop, f.seed))
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(rpath, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s: %s\n", rp.Violation.Oracle, rp.Violation.Msg)
		code = 1
	}
	for k, n := range knownHits {
		fmt.Printf("known finding reached %d times: %s\n", n, k)
	}
	writeEvidence(p, *tier, seed, total, hashes, states, time.Since(begin), explored, len(founds), unrepro, *jobs, knownHits)
	fmt.Printf("runs=%d distinct schedules=%d states=%d switches=%d simulated=%s faults=%v other=%v leaks=%d unreproduced=%d in %.1fs\n",
		total.Runs, len(hashes), len(states), total.Switches, time.Duration(total.SimNanos), total.Faults, total.Other, total.Leaks, unrepro, explored.Seconds())
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rpath)
		return 1
	}
	if len(infra) != 0 {
		fmt.Fprintln(os.Stderr, "check trouble:", strings.Join(infra, "\n"))
		return 2
	}
	if total.Runs == 0 {
		fmt.Fprintln(os.Stderr, "check trouble: no runs")
		return 2
	}
	return 0
}

// capped keeps the beginning and the end of a long output, and the lines in
// between which say why the process ended.
type capped struct {
	head, marks, last, line []byte
	cut                     bool
}

var deathMarks = []string{"SIM-LIVELOCK", "DATA RACE", "panic:", "fatal error:", "sim: ", "all goroutines are asleep", "[signal "}

func (c *capped) Write(p []byte) (int, error) {
	n := len(p)
	for _, b := range p {
		if len(c.line) < 4096 {
			c.line = append(c.line, b)
		}
		if b == '\n' {
			c.endLine()
		}
	}
	return n, nil
}

func (c *capped) endLine() {
	l := c.line
	c.line = c.line[:0]
	if !c.cut && len(c.head)+len(l) < 64<<10 {
		c.head = append(c.head, l...)
		return
	}
	c.cut = true
	if len(c.marks) < 64<<10 {
		for _, m := range deathMarks {
			if bytes.Contains(l, []byte(m)) {
				c.marks = append(c.marks, l...)
				break
			}
		}
	}
	c.last = append(c.last, l...)
	if len(c.last) > 1<<20 {
		c.last = append(c.last[:0], c.last[len(c.last)-(512<<10):]...)
	}
}

func (c *capped) String() string {
	c.endLine()
	return string(c.head) + string(c.marks) + string(c.last)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func readHashes(f string, a, b map[uint64]struct{}) {
	d, err := os.ReadFile(f)
	if err != nil || len(d) < 8 {
		return
	}
	n := binary.LittleEndian.Uint64(d)
	d = d[8:]
	for i := uint64(0); len(d) >= 8; i++ {
		h := binary.LittleEndian.Uint64(d)
		d = d[8:]
		if i < n {
			a[h] = struct{}{}
		} else {
			b[h] = struct{}{}
		}
	}
}
