package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// edit is one exact-string edit of a standard library file. The old text must
// occur exactly once.
type edit struct{ file, old, new string }

// runtimeEdits turn Go 1.25's runtime into the simulator's runtime. Goroutines
// in a synctest bubble are scheduled by simsched.go; everything else is
// unchanged.
var runtimeEdits = []edit{
	{"runtime/runtime2.go", "	bubble  *synctestBubble\n", `	bubble  *synctestBubble

	simid, simcnt, simspawn, simrnd, simsel, simprio uint64
	simsite                                  uint32
`},
	// Waiting for a lock is as durable as waiting for a channel: everything
	// that could release it is inside the bubble.
	{"runtime/runtime2.go", "	waitReasonSynctestSelect:        true,\n}", `	waitReasonSynctestSelect:        true,
	waitReasonChanReceive:           true,
	waitReasonChanSend:              true,
	waitReasonSelect:                true,
	waitReasonSemacquire:            true,
	waitReasonSyncMutexLock:         true,
	waitReasonSyncRWMutexRLock:      true,
	waitReasonSyncRWMutexLock:       true,
	waitReasonSyncWaitGroupWait:     true,
}`},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", `func runqput(pp *p, gp *g, next bool) {
	if simIn(gp) {
		simPut(gp)
		return
	}
`},
	{"runtime/proc.go", "func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n", `func globrunqput(gp *g) {
	assertLockHeld(&sched.lock)
	if simIn(gp) {
		simPut(gp)
		return
	}
`},
	{"runtime/proc.go", `			return gp, false, false
		}
	}

	// Poll network.
`, `			return gp, false, false
		}
	}

	// simulated goroutines
	if sim.on {
		if gp := simPick(); gp != nil {
			return gp, false, false
		}
	}

	// Poll network.
`},
	{"runtime/proc.go", "func park_m(gp *g) {\n	mp := getg().m\n", `func park_m(gp *g) {
	mp := getg().m
	if simIn(gp) {
		simNoteStop(gp)
	}
`},
	{"runtime/proc.go", "func goexit0(gp *g) {\n", `func goexit0(gp *g) {
	if simIn(gp) {
		simNoteStop(gp)
	}
`},
	{"runtime/proc.go", "func goschedImpl(gp *g, preempted bool) {\n", `func goschedImpl(gp *g, preempted bool) {
	if simIn(gp) {
		if preempted {
			// Not a scheduling decision: keep running the same goroutine.
			sim.forced.set(gp)
		} else {
			simNoteStop(gp)
		}
	}
`},
	{"runtime/proc.go", "	// Track initial transition?\n	newg.trackingSeq", `	simNewG(newg, callergp)
	// Track initial transition?
	newg.trackingSeq`},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n	n := 0\n", `func retake(now int64) uint32 {
	n := 0
	if sim.on {
		return 0
	}
`},
	{"runtime/rand.go", "	globalRand.state.Init(*seed)\n", `	clear(seed[:])
	seed[0] = 42
	globalRand.state.Init(*seed)
`},
	{"runtime/rand.go", "	mp := getg().m\n	c := &mp.chacha8\n", `	if gp := getg(); gp.simid != 0 && simIn(gp) {
		return simRand(gp)
	}
	mp := getg().m
	c := &mp.chacha8
`},
	{"runtime/rand.go", "func maps_rand() uint64 {\n", `func maps_rand() uint64 {
	if gp := getg(); gp.simid != 0 && simIn(gp) {
		return simMapRand(gp)
	}
`},
	{"runtime/synctest.go", "	defer func() {\n		gp.bubble = nil\n	}()\n\n	// This is newproc", "	defer func() {\n		sim.endNow = gp.bubble.now\n		gp.bubble = nil\n	}()\n\n	// This is newproc"},
	{"runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := simSelRand(uint32(norder + 1))"},
	{"runtime/time.go", "t.rand = cheaprand()", "t.rand = simSelRand(1 << 31)"},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n", `func internal_sync_nanotime() int64 {
	if gp := getg(); gp.bubble != nil {
		return gp.bubble.now
	}
`},
	// The race detector's build must draw the same random numbers.
	{"sync/pool.go", "runtime_randn(4) == 0", "false && runtime_randn(4) == 0"},
	// The order in which children are cancelled must not depend on the
	// addresses of the contexts: iterate in the order of creation.
	{"context/context.go", "	children map[canceler]struct{} // set", "	order    []canceler\n	children map[canceler]struct{} // set"},
	{"context/context.go", "			p.children[child] = struct{}{}\n", `			p.children[child] = struct{}{}
			if len(p.order) > 16 && len(p.order) > 2*len(p.children) {
				order := p.order[:0]
				for _, o := range p.order {
					if _, ok := p.children[o]; ok && o != child {
						order = append(order, o)
					}
				}
				clear(p.order[len(order):])
				p.order = order
			}
			p.order = append(p.order, child)
`},
	{"context/context.go", "	for child := range c.children {\n", `	order := c.order
	c.order = nil
	for _, child := range order {
		if _, ok := c.children[child]; !ok {
			continue
		}
`},
}

// patchRuntime writes patched copies of the standard library files to dir and
// adds them to the overlay.
func patchRuntime(goroot, dir, sched string, overlay map[string]string) error {
	texts := map[string]string{}
	for _, e := range runtimeEdits {
		t, ok := texts[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", e.file))
			if err != nil {
				return err
			}
			t = string(b)
		}
		if n := strings.Count(t, e.old); n != 1 {
			return fmt.Errorf("patch of %s: text occurs %d times: %q", e.file, n, e.old)
		}
		texts[e.file] = strings.Replace(t, e.old, e.new, 1)
	}
	for f, t := range texts {
		dst := filepath.Join(dir, "std", f)
		if err := writeIfChanged(dst, []byte(t)); err != nil {
			return err
		}
		overlay[filepath.Join(goroot, "src", f)] = dst
	}
	b, err := os.ReadFile(sched)
	if err != nil {
		return err
	}
	dst := filepath.Join(dir, "std", "runtime", "simsched.go")
	if err := writeIfChanged(dst, b); err != nil {
		return err
	}
	overlay[filepath.Join(goroot, "src", "runtime", "simsched.go")] = dst
	return nil
}

func writeIfChanged(path string, data []byte) error {
	if old, err := os.ReadFile(path); err == nil && string(old) == string(data) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, data, 0o644)
}
