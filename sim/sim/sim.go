// Package sim is the simulation harness: one seeded, exactly repeatable
// execution of the code under test together with the clients, faults and
// oracles of a scenario.
package sim

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sirupsen/logrus"
)

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

// NewRand returns a generator for the seed.
func NewRand(seed uint64) *Rand { return &Rand{s: Mix(seed + 0x51ed270b)} }

// Mix scrambles x.
func Mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// U64 returns the next value.
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

// N returns a value in [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int((r.U64() >> 11) % uint64(n))
}

// P reports true with probability pct percent.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

// Pick returns one of vs.
func (r *Rand) Pick(vs ...int) int { return vs[r.N(len(vs))] }

// Op is one scripted operation.
type Op struct {
	K string `json:"k"`
	A []int  `json:"a,omitempty"`
}

// Arg returns argument i or 0.
func (o Op) Arg(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

func (o Op) String() string {
	s := o.K
	for _, a := range o.A {
		s += fmt.Sprintf(" %d", a)
	}
	return s
}

// Script is the input of a run: parameters plus one operation list per task.
type Script struct {
	P     map[string]int `json:"p,omitempty"`
	Tasks [][]Op         `json:"tasks"`
}

// Clone copies the script.
func (s *Script) Clone() *Script {
	o := &Script{P: map[string]int{}}
	for k, v := range s.P {
		o.P[k] = v
	}
	for _, t := range s.Tasks {
		o.Tasks = append(o.Tasks, append([]Op(nil), t...))
	}
	return o
}

// Violation is a property violation observed in a run.
type Violation struct {
	Prop   string `json:"property"`
	Oracle string `json:"oracle"`
	Msg    string `json:"msg"`
}

// Scenario is a workload with its oracles.
type Scenario interface {
	// Name identifies the scenario.
	Name() string
	// Gen generates the script; prop biases it towards one property.
	Gen(r *Rand, prop string) *Script
	// Exec runs the script inside the simulation.
	Exec(h *H, s *Script)
}

// H is the per-run harness state.
type H struct {
	mu sync.Mutex

	Prop    string
	Seed    uint64
	Verbose bool
	Le      *logrus.Entry

	tasks  []*task
	viols  []Violation
	faults map[string]int
	ops    map[string]int
	states map[uint64]struct{}
	hist   []string
	stack  string
	noted  map[string]bool

	// LeakProp, when set by the scenario at its end, names the property that a
	// goroutine left behind violates.
	LeakProp string
}

// NoPanics makes a panic that the code under test recovers and logs a violation
// of prop: for scenarios in which nothing of the simulation panics.
func (h *H) NoPanics(prop string) {
	h.Le.Logger.AddHook(panicHook{h, prop})
}

type panicHook struct {
	h    *H
	prop string
}

func (panicHook) Levels() []logrus.Level { return []logrus.Level{logrus.ErrorLevel, logrus.WarnLevel} }

func (p panicHook) Fire(e *logrus.Entry) error {
	if strings.Contains(e.Message, "panic") {
		p.h.Fail(p.prop, "callback-panic", "a callback panicked: %v", e.Data[logrus.ErrorKey])
	}
	return nil
}

type task struct {
	name string
	done bool
	at   string
}

// Lock guards harness and oracle state. The harness is not woven with
// scheduling points, so a locked region is atomic in the simulation.
func (h *H) Lock() { h.mu.Lock() }

// Unlock releases Lock.
func (h *H) Unlock() { h.mu.Unlock() }

// Fail records a violation. Call without Lock held.
func (h *H) Fail(prop, oracle, format string, args ...any) {
	h.mu.Lock()
	h.FailLocked(prop, oracle, format, args...)
	h.mu.Unlock()
}

// FailLocked records a violation with Lock held.
func (h *H) FailLocked(prop, oracle, format string, args ...any) {
	k := prop + "/" + oracle
	if h.noted[k] {
		return
	}
	h.noted[k] = true
	h.viols = append(h.viols, Violation{prop, oracle, fmt.Sprintf(format, args...)})
	h.logLocked("VIOLATION %s %s: %s", prop, oracle, fmt.Sprintf(format, args...))
}

// Failed reports whether the run already violated the property under check.
func (h *H) Failed() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.viols) != 0
}

// Log appends to the human readable history (kept in replays only).
func (h *H) Log(format string, args ...any) {
	if !h.Verbose {
		return
	}
	h.mu.Lock()
	h.logLocked(format, args...)
	h.mu.Unlock()
}

// LogLocked is Log with Lock held.
func (h *H) LogLocked(format string, args ...any) {
	if h.Verbose {
		h.logLocked(format, args...)
	}
}

func (h *H) logLocked(format string, args ...any) {
	if !h.Verbose {
		return
	}
	h.hist = append(h.hist, fmt.Sprintf("[t=%v step=%d g=%04x] ", time.Duration(runtime.SimNow()-simEpoch), runtime.SimYields(), runtime.SimSelf()>>48)+fmt.Sprintf(format, args...))
	if stream {
		println(h.hist[len(h.hist)-1])
	}
}

// stream prints the history while the run proceeds (for runs that do not end).
var stream = os.Getenv("VSIM_STREAM") != ""

const simEpoch = 946684800000000000

// Now is the simulated time since the start of the run.
func Now() time.Duration { return time.Duration(runtime.SimNow() - simEpoch) }

// Fault counts an injected fault.
func (h *H) Fault(kind string) {
	h.mu.Lock()
	h.faults[kind]++
	h.mu.Unlock()
}

// FaultLocked is Fault with Lock held.
func (h *H) FaultLocked(kind string) { h.faults[kind]++ }

// State records a distinct abstract state reached.
func (h *H) State(v uint64) {
	h.mu.Lock()
	h.states[v] = struct{}{}
	h.mu.Unlock()
}

// StateLocked is State with Lock held.
func (h *H) StateLocked(v uint64) { h.states[v] = struct{}{} }

// Count counts an operation performed.
func (h *H) Count(kind string) {
	h.mu.Lock()
	h.ops[kind]++
	h.mu.Unlock()
}

// CountLocked is Count with Lock held.
func (h *H) CountLocked(kind string) { h.ops[kind]++ }

// Yield is a scheduling point of the harness.
func Yield() { runtime.SimYield(0) }

// Yields passes n scheduling points.
func Yields(n int) {
	for i := 0; i < n; i++ {
		runtime.SimYield(0)
	}
}

// Sleep lets simulated time pass.
func Sleep(d time.Duration) { time.Sleep(d) }

// Go starts a tracked task that must finish once faults stop.
func (h *H) Go(name string, fn func(at func(string))) {
	t := &task{name: name}
	h.mu.Lock()
	h.tasks = append(h.tasks, t)
	h.mu.Unlock()
	go func() {
		defer func() {
			h.mu.Lock()
			t.done = true
			h.mu.Unlock()
		}()
		fn(func(s string) {
			h.mu.Lock()
			t.at = s
			h.LogLocked("%s: %s", t.name, s)
			h.mu.Unlock()
		})
	}()
}

// Unfinished lists the tasks still running.
func (h *H) Unfinished() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	var out []string
	for _, t := range h.tasks {
		if !t.done {
			out = append(out, t.name+" at "+t.at)
		}
	}
	return out
}

// Join waits until the tracked tasks finish, for at most limit of simulated
// time. The tasks run under the adversarial schedule for half of it; then
// faults stop and scheduling turns fair.
func (h *H) Join(limit time.Duration) bool {
	if h.join(limit / 2) {
		return true
	}
	runtime.SimFair()
	return h.join(limit / 2)
}

func (h *H) join(limit time.Duration) bool {
	end := Now() + limit
	step := 10 * time.Millisecond
	for {
		runtime.SimWait()
		if len(h.Unfinished()) == 0 {
			return true
		}
		if Now() >= end {
			return false
		}
		time.Sleep(step)
		if step < 10*time.Second {
			step *= 2
		}
	}
}

// MustJoin is Join that reports a liveness violation for prop.
func (h *H) MustJoin(prop string, limit time.Duration) bool {
	if h.Join(limit) {
		return true
	}
	u := h.Unfinished()
	h.CaptureStacks()
	h.Fail(prop, "progress", "not finished %v of simulated time after faults stopped: %s", limit, strings.Join(u, "; "))
	return false
}

// CaptureStacks stores the stacks of all goroutines for the report.
func (h *H) CaptureStacks() {
	if !h.Verbose {
		return
	}
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	h.mu.Lock()
	h.stack = string(buf[:n])
	h.mu.Unlock()
}

// Quiesce lets d of simulated time pass and waits until everything blocked.
func (h *H) Quiesce(d time.Duration) {
	runtime.SimCalm()
	runtime.SimWait()
	time.Sleep(d)
	runtime.SimWait()
}

// Sched is the scheduling configuration of a run.
type Sched struct {
	Policy    int                   `json:"policy"`
	SwitchP   uint32                `json:"switch_p,omitempty"`
	JumpP     uint32                `json:"jump_p,omitempty"`
	PCTDepth  int                   `json:"pct_depth,omitempty"`
	PCTLen    uint64                `json:"pct_len,omitempty"`
	Replay    bool                  `json:"replay,omitempty"`
	Overrides []runtime.SimDecision `json:"overrides,omitempty"`
}

// GenSched derives the scheduling policy from the seed.
func GenSched(r *Rand) Sched {
	var s Sched
	switch n := r.N(100); {
	case n < 5:
		s.Policy = runtime.SimFIFO
	case n < 30:
		s.Policy, s.SwitchP = runtime.SimRandom, 1<<18
	case n < 50:
		s.Policy, s.SwitchP = runtime.SimRandom, 1<<16
	case n < 65:
		s.Policy, s.SwitchP = runtime.SimRandom, 1<<13
	case n < 70:
		s.Policy, s.SwitchP = runtime.SimRandom, 0
	default:
		s.Policy = runtime.SimPCT
		s.PCTDepth = 1 + r.N(8)
		s.PCTLen = uint64(r.Pick(200, 600, 2000, 6000))
	}
	if r.P(35) {
		s.JumpP = uint32(1) << r.Pick(8, 10, 12, 14)
	}
	return s
}

// Result is the outcome of one run.
type Result struct {
	Seed       uint64
	Script     *Script
	Sched      Sched
	Stats      runtime.SimStats
	Violations []Violation
	Faults     map[string]int
	Ops        map[string]int
	States     map[uint64]struct{}
	History    []string
	Stack      string
	Leak       bool
	Decisions  []runtime.SimDecision
	Trace      []runtime.SimDecision
}

// RunOpts selects what to run.
type RunOpts struct {
	Prop    string
	Seed    uint64
	Script  *Script // nil: generate from Seed
	Sched   *Sched  // nil: generate from Seed
	Verbose bool
}

// Run executes one simulation.
func Run(sc Scenario, o RunOpts) *Result {
	r := NewRand(o.Seed)
	script := sc.Gen(r, o.Prop)
	if o.Script != nil {
		script = o.Script
	}
	sr := NewRand(o.Seed ^ 0xabcdef)
	sched := GenSched(sr)
	if o.Sched != nil {
		sched = *o.Sched
	}
	log := logrus.New()
	log.SetOutput(io.Discard)
	log.SetLevel(logrus.DebugLevel)
	h := &H{Prop: o.Prop, Seed: o.Seed, Verbose: o.Verbose, Le: logrus.NewEntry(log),
		faults: map[string]int{}, ops: map[string]int{}, states: map[uint64]struct{}{}, noted: map[string]bool{}}
	cfg := &runtime.SimConfig{
		Seed: o.Seed, Policy: sched.Policy, SwitchP: sched.SwitchP, JumpP: sched.JumpP,
		PCTDepth: sched.PCTDepth, PCTLen: sched.PCTLen,
		FairAfter: 300_000, MaxYields: 3_000_000,
		Replay: sched.Replay, Overrides: sched.Overrides, Trace: o.Verbose || os.Getenv("VSIM_TRACE") != "",
	}
	ended := false
	st := runtime.SimRun(cfg, func() { sc.Exec(h, script); ended = true })
	res := &Result{Seed: o.Seed, Script: script, Sched: sched, Stats: st, Violations: h.viols,
		Faults: h.faults, Ops: h.ops, States: h.states, History: h.hist, Stack: h.stack, Leak: st.Deadlock}
	if st.Deadlock && !ended {
		res.Violations = append(res.Violations, Violation{o.Prop, "wedged", "every goroutine is blocked before the scenario ended"})
	}
	if st.Deadlock && h.LeakProp != "" {
		res.Violations = append(res.Violations, Violation{h.LeakProp, "goroutine-leak", "a goroutine is still blocked after everything was released and the root context was cancelled"})
	}
	if o.Verbose || os.Getenv("VSIM_TRACE") != "" {
		res.Decisions = runtime.SimDecisions()
		res.Trace = runtime.SimTrace()
	}
	return res
}

// Setup prepares the process for simulations.
func Setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(-1)
}

// SortedKeys returns the sorted keys of m.
func SortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// JSON renders v.
func JSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
