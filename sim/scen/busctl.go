package scen

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/blang/semver/v4"

	"verifsim/sim"
)

// BusCtl adds, runs and removes controllers on the in-memory bus.
type BusCtl struct{}

func (BusCtl) Name() string { return "busctl" }

func (BusCtl) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{}}
	slots := 1 + r.N(4)
	s.Tasks = append(s.Tasks, nil)
	reent := r.Pick(0, 0, 20, 60)
	for t, nt := 0, 2+r.N(3); t < nt; t++ {
		var ops []sim.Op
		for i, n := 0, 2+r.N(7); i < n; i++ {
			sl := r.N(slots)
			hb := r.N(2)
			if r.P(reent) {
				hb = 2 + r.N(6)
			}
			switch x := r.N(100); {
			case x < 25 || i == 0:
				to := 0
				if r.P(25) {
					to = r.Pick(1, 100, 600)
				}
				ops = append(ops, sim.Op{K: "addc", A: []int{sl, r.N(8), hb, r.Pick(0, 1, 50, 400), to}})
			case x < 38:
				to := 0
				if r.P(50) {
					to = r.Pick(1, 100, 600)
				}
				ops = append(ops, sim.Op{K: "execc", A: []int{sl, r.N(8), hb, r.Pick(0, 1, 50, 400), to}})
			case x < 50:
				ops = append(ops, sim.Op{K: "relc", A: []int{sl}})
			case x < 60:
				ops = append(ops, sim.Op{K: "rmc", A: []int{sl}})
			case x < 78:
				ops = append(ops, sim.Op{K: "addd", A: []int{1 + r.N(3), r.N(3)}})
			case x < 84:
				ops = append(ops, sim.Op{K: "reld", A: []int{r.N(3)}})
			case x < 90:
				ops = append(ops, sim.Op{K: "list"})
			default:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 50, 400)}})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

var errExec = errors.New("execute failed")

type bworld struct {
	h   *sim.H
	b   bus.Bus
	ctx context.Context

	// under h.Lock
	n     int
	ctrls []*sctrl
	slots map[int]*sctrl
	refs  map[int]*bref
	allr  []*bref
	// creator is the sequence number at the start of the outermost AddDirective
	// call of a goroutine
	creator map[uint64]int
	seq     int
}

type bref struct {
	w    *bworld
	ref  directive.Reference
	di   directive.Instance
	cur  map[uint32]*bval
	hook int
	rel  bool
}

type bval struct{ c *sctrl }

func (r *bref) HandleValueAdded(di directive.Instance, v directive.AttachedValue) {
	r.w.h.Lock()
	r.cur[v.GetValueID()] = v.GetValue().(*bval)
	r.w.h.Unlock()
}

func (r *bref) HandleValueRemoved(di directive.Instance, v directive.AttachedValue) {
	r.w.h.Lock()
	delete(r.cur, v.GetValueID())
	r.w.h.Unlock()
	if r.hook == 1 {
		r.w.b.GetControllers()
	}
}

func (r *bref) HandleInstanceDisposed(di directive.Instance) {}

// sctrl is a scripted controller.
type sctrl struct {
	w    *bworld
	n    int
	exec int
	hb   int
	dur  int
	viaX bool // ExecuteController

	rel      func()
	added    bool // AddController returned
	goneCall bool // removal invoked
	gone     bool // removal returned
	goneSeq  int
	ctxEnd   bool
	runs     int
	running  int
	ctx      context.Context
	err      error // what Execute returned
	panicked bool
	ended    bool
	cbs      int
	cbErr    error
	asked    map[directive.Instance]int
	rctx     []context.Context
	xret     bool
	xerr     error
	xctx     context.Context
	selfRm   bool
	removers int
	closes   int
}

func (c *sctrl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(fmt.Sprint("c", c.n), semver.MustParse("0.0.1"), "scripted")
}

func (c *sctrl) Close() error {
	c.w.h.Lock()
	c.closes++
	c.w.h.Unlock()
	return nil
}

func (c *sctrl) Execute(ctx context.Context) error {
	w := c.w
	w.h.Lock()
	c.runs++
	c.running++
	c.ctx = ctx
	w.h.LogLocked("controller %d executes (%d)", c.n, c.exec)
	if c.runs > 1 {
		w.h.FailLocked("C12", "executed-twice", "a controller added once was executed %d times", c.runs)
	}
	w.h.Unlock()
	err, pn := c.run(ctx)
	w.h.Lock()
	c.running--
	c.ended = true
	c.err = err
	c.panicked = pn != nil
	w.h.LogLocked("controller %d ends: %v panic=%v", c.n, err, pn)
	w.h.Unlock()
	if pn != nil {
		w.h.Fault("controller-panic")
		panic(pn)
	}
	if err != nil {
		w.h.Fault("controller-error")
	}
	return err
}

func (c *sctrl) run(ctx context.Context) (error, any) {
	d := time.Duration(c.dur) * time.Millisecond
	switch c.exec {
	case 1:
		return nil, nil
	case 2:
		sleepCtx(ctx, d)
		return errExec, nil
	case 3:
		sleepCtx(ctx, d)
		return nil, errExec
	case 4:
		sleepCtx(ctx, d)
		return nil, "injected controller panic"
	case 5:
		sleepCtx(ctx, d)
		return nil, nil
	case 6:
		<-ctx.Done()
		c.w.h.Fault("controller-slow-to-stop")
		sim.Sleep(d)
		return nil, nil
	}
	<-ctx.Done()
	return ctx.Err(), nil
}

func (c *sctrl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	w := c.w
	w.h.Lock()
	c.asked[di]++
	// With two removals at once, only the one that finds it waits.
	failed := c.ended && (c.err != nil || c.panicked)
	if c.gone && c.removers == 1 && !failed && w.creator[simSelf()] > c.goneSeq {
		w.h.FailLocked("C12", "offered-after-removal", "controller %d was offered a directive created after its removal returned", c.n)
	}
	w.h.Unlock()
	key, _ := di.GetDirective().(interface{ coreKey() (int, int) }).coreKey()
	sim.Yield()
	switch c.hb {
	case 2:
		w.h.Fault("reentrant-call")
		w.b.GetControllers()
	case 3:
		w.h.Fault("reentrant-call")
		w.h.Lock()
		c.goneCall, c.selfRm = true, true
		c.removers++
		w.h.Unlock()
		w.b.RemoveController(c)
	case 4:
		if key < 10 {
			w.h.Fault("reentrant-call")
			w.addDir(key+10, -1, 0)
		}
	case 5:
		w.h.Lock()
		nested := len(w.ctrls) < 12
		w.h.Unlock()
		if nested && key < 10 {
			w.h.Fault("reentrant-call")
			n := w.newCtrl(0, 0, 0)
			w.add(n, w.ctx)
		}
	case 6:
		return nil, errHnd
	case 7:
		w.h.Fault("handler-panic")
		panic("injected handler panic")
	}
	if c.hb != 0 {
		return directive.R(directive.NewFuncResolver(func(ctx context.Context, h directive.ResolverHandler) error {
			w.h.Lock()
			c.rctx = append(c.rctx, ctx)
			w.h.Unlock()
			h.AddValue(&bval{c})
			<-ctx.Done()
			return nil
		}), nil)
	}
	return nil, nil
}

func (w *bworld) newCtrl(exec, hb, dur int) *sctrl {
	w.h.Lock()
	defer w.h.Unlock()
	c := &sctrl{w: w, n: len(w.ctrls), exec: exec, hb: hb, dur: dur, asked: map[directive.Instance]int{}}
	w.ctrls = append(w.ctrls, c)
	return c
}

func (w *bworld) add(c *sctrl, ctx context.Context) {
	rel, err := w.b.AddController(ctx, c, func(err error) {
		w.h.Lock()
		c.cbs++
		c.cbErr = err
		w.h.LogLocked("controller %d: exit callback %v", c.n, err)
		w.h.Unlock()
		w.b.GetControllers()
	})
	w.h.Lock()
	if err != nil || rel == nil {
		w.h.FailLocked("C12", "add-failed", "AddController returned %v", err)
	}
	c.rel, c.added = rel, true
	w.h.Unlock()
}

func (w *bworld) addDir(key, slot, hook int) {
	r := &bref{w: w, cur: map[uint32]*bval{}, hook: hook}
	self := simSelf()
	w.h.Lock()
	outer := w.creator[self] != 0
	if !outer {
		w.seq++
		w.creator[self] = w.seq
	}
	w.h.Unlock()
	di, ref, err := w.b.AddDirective(newBusDir(key), r)
	if err != nil {
		return
	}
	w.h.Lock()
	if !outer {
		delete(w.creator, self)
	}
	r.di, r.ref = di, ref
	w.allr = append(w.allr, r)
	var old *bref
	if slot >= 0 {
		old = w.refs[slot]
		w.refs[slot] = r
	}
	w.h.Unlock()
	if old != nil && !old.rel {
		old.rel = true
		old.ref.Release()
	}
}

func newBusDir(key int) directive.Directive { return &equivDir{coreDir{key, 0}} }

func (w *bworld) do(op sim.Op, at func(string)) {
	h := w.h
	at(op.String())
	h.Count(op.K)
	ctxFor := func(ms int) context.Context {
		if ms == 0 {
			return w.ctx
		}
		ctx, _ := context.WithTimeout(w.ctx, time.Duration(ms)*time.Millisecond)
		return ctx
	}
	switch op.K {
	case "addc":
		c := w.newCtrl(op.Arg(1), op.Arg(2), op.Arg(3))
		c.xctx = ctxFor(op.Arg(4))
		w.add(c, c.xctx)
		h.Lock()
		w.slots[op.Arg(0)] = c
		h.Unlock()
	case "execc":
		c := w.newCtrl(op.Arg(1), op.Arg(2), op.Arg(3))
		c.viaX = true
		c.xctx = ctxFor(op.Arg(4))
		h.Lock()
		w.slots[op.Arg(0)] = c
		h.Unlock()
		go func() {
			err := w.b.ExecuteController(c.xctx, c)
			h.Lock()
			c.xret, c.xerr = true, err
			c.added = true
			switch {
			case c.panicked && err == nil:
				h.FailLocked("C12", "panic-lost", "ExecuteController returned nil although the controller panicked")
			case !c.panicked && err != c.err:
				h.FailLocked("C12", "wrong-error", "ExecuteController returned %v, the controller returned %v", err, c.err)
			}
			h.Unlock()
		}()
	case "relc", "rmc":
		h.Lock()
		c := w.slots[op.Arg(0)]
		if c != nil && (op.K == "relc" && c.rel == nil || c.viaX && c.runs == 0) {
			c = nil // not yet on the bus
		}
		if c != nil {
			c.goneCall = true
			c.removers++
		}
		h.Unlock()
		if c == nil {
			return
		}
		if op.K == "relc" {
			h.Fault("controller-released")
			c.rel()
		} else {
			h.Fault("controller-removed")
			w.b.RemoveController(c)
		}
		cs := w.b.GetControllers()
		h.Lock()
		if !c.gone {
			c.gone = true
			w.seq++
			c.goneSeq = w.seq
		}
		if op.K == "relc" && c.ctx != nil && c.ctx.Err() == nil {
			h.FailLocked("C12", "runs-after-release", "the context of a controller is live after its release returned")
		}
		for _, o := range cs {
			if o == controller.Controller(c) {
				h.FailLocked("C12", "listed-after-removal", "a controller is listed after its removal returned")
			}
		}
		h.Unlock()
	case "addd":
		w.addDir(op.Arg(0), op.Arg(1), op.Arg(1)%2)
	case "reld":
		h.Lock()
		r := w.refs[op.Arg(0)]
		delete(w.refs, op.Arg(0))
		h.Unlock()
		if r != nil {
			r.rel = true
			r.ref.Release()
		}
	case "list":
		seen := map[controller.Controller]bool{}
		for _, c := range w.b.GetControllers() {
			if c == nil || seen[c] {
				h.Fail("C12", "listed-twice", "GetControllers lists a controller twice or nil")
			}
			seen[c] = true
		}
	case "sleep":
		sim.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
	}
}

// Exec runs the scenario.
func (BusCtl) Exec(h *sim.H, s *sim.Script) {
	ctx, cancel := context.WithCancel(context.Background())
	root, rootCancel := context.WithCancel(context.Background())
	w := &bworld{h: h, ctx: ctx, b: inmem.NewBus(dcontroller.NewController(root, h.Le)),
		slots: map[int]*sctrl{}, refs: map[int]*bref{}, creator: map[uint64]int{}}
	for i, ops := range s.Tasks[1:] {
		h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
			for _, op := range ops {
				sim.Yield()
				w.do(op, at)
			}
		})
	}
	if !h.MustJoin("C12", 10*time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	h.Go("check", func(at func(string)) { at("GetControllers"); w.checkQuiet() })
	if !h.MustJoin("C12", time.Minute) {
		return
	}
	cancel()
	h.Go("release-all", func(at func(string)) {
		at("release")
		for _, c := range w.ctrls {
			w.b.RemoveController(c)
		}
		for _, r := range w.allr {
			if !r.rel {
				r.ref.Release()
			}
		}
	})
	if !h.MustJoin("C12", time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	if n := len(w.b.GetControllers()); n != 0 {
		h.Fail("C12", "listed-after-removal", "%d controllers are listed after all were removed", n)
	}
	rootCancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C12"
}

func (w *bworld) checkQuiet() {
	h := w.h
	list := map[controller.Controller]bool{}
	for _, c := range w.b.GetControllers() {
		list[c] = true
	}
	dis := w.b.GetDirectives()
	h.Lock()
	defer h.Unlock()
	st := uint64(len(w.ctrls))
	for _, c := range w.ctrls {
		st = sim.Mix(st*5 + uint64(c.exec*8+c.hb))
		failed := c.ended && (c.err != nil || c.panicked)
		if c.runs != 1 && !(c.viaX && !c.added) {
			h.FailLocked("C12", "not-executed", "controller %d was executed %d times", c.n, c.runs)
		}
		want := !c.goneCall && !failed
		if list[c] != want {
			h.FailLocked("C12", "listing", "controller %d: listed=%v, expected %v (removed=%v failed=%v)", c.n, list[c], want, c.goneCall, failed)
		}
		if !c.viaX {
			switch {
			case failed && c.cbs != 1:
				h.FailLocked("C12", "exit-callback", "controller %d failed and its callback ran %d times", c.n, c.cbs)
			case failed && !c.panicked && c.cbErr != c.err:
				h.FailLocked("C12", "exit-callback", "the exit callback got %v, the controller returned %v", c.cbErr, c.err)
			case failed && c.panicked && (c.cbErr == nil || !strings.Contains(c.cbErr.Error(), "panic")):
				h.FailLocked("C12", "exit-callback", "the exit callback of a panicked controller got %v", c.cbErr)
			case !failed && c.cbErr != nil:
				h.FailLocked("C12", "exit-callback", "the exit callback got %v, the controller did not fail", c.cbErr)
			}
			if (failed || c.selfRm || c.gone) && c.ctx != nil && c.ctx.Err() == nil && failed {
				h.FailLocked("C12", "context-live", "the context of failed controller %d is live", c.n)
			}
		} else if c.ended && !c.xret {
			h.FailLocked("C12", "execute-hang", "ExecuteController did not return a minute after the controller ended")
		}
		if c.xctx != nil && c.xctx.Err() != nil && c.running != 0 {
			h.FailLocked("C12", "runs-after-cancel", "controller %d runs although its context ended", c.n)
		}
		if !want {
			for _, x := range c.rctx {
				if x.Err() == nil {
					h.FailLocked("C12", "resolver-after-removal", "a resolver of removed controller %d still runs", c.n)
				}
			}
		}
		for _, di := range dis {
			if want && c.asked[di] != 1 {
				h.FailLocked("C12", "not-offered", "controller %d was asked %d times for a live directive", c.n, c.asked[di])
			}
		}
	}
	for _, r := range w.allr {
		if r.rel {
			continue
		}
		got := map[*sctrl]int{}
		for _, v := range r.cur {
			got[v.c]++
		}
		for _, c := range w.ctrls {
			n := 0
			if list[c] && c.hb != 0 && c.hb < 6 {
				n = 1
			}
			if got[c] != n {
				h.FailLocked("C12", "values", "a reference holds %d values of controller %d (listed=%v, handler behaviour %d)", got[c], c.n, list[c], c.hb)
			}
		}
	}
	h.StateLocked(st)
}
