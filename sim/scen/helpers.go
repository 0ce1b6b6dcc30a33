package scen

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/aperturerobotics/util/ccontainer"
	"github.com/aperturerobotics/util/routine"

	"verifsim/sim"
)

// The helpers scenario runs the one-shot and watch helpers of package bus
// against an in-memory bus whose resolvers add and remove values over time.

// Helpers is the scenario.
type Helpers struct{}

func (Helpers) Name() string { return "helpers" }

var oneKinds = []string{"oneoff", "filter", "typed", "ftyped", "xfrm", "xtyped", "wait", "collect"}
var watchKinds = []string{"wcb", "wctr", "wch", "wlatest", "wsel", "wsel2", "wroutine", "weffect", "wxeffect", "woneeffect", "wonexeffect", "wrefcount"}

func (Helpers) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{"busy": r.N(100), "slowcb": r.Pick(0, 0, 5, 20)}}
	nk := 1 + r.N(2)
	var setup []sim.Op
	slot := 0
	for i, n := 0, r.N(3); i < n; i++ {
		setup = append(setup, sim.Op{K: "hadd", A: []int{slot, 1 + r.N(2), r.N(1 << 20)}})
		slot++
	}
	s.Tasks = append(s.Tasks, setup)
	wp := 45
	if prop == "C10" {
		wp = 10
	}
	if prop == "C11" {
		wp = 85
	}
	for t, nt := 0, 2+r.N(3); t < nt; t++ {
		var ops []sim.Op
		for i, n := 0, 1+r.N(6); i < n; i++ {
			key := 1 + r.N(nk)
			switch x := r.N(100); {
			case x < 50 || i == 0:
				if r.P(wp) {
					ops = append(ops, sim.Op{K: watchKinds[r.N(len(watchKinds))], A: []int{key, r.N(4), r.N(3)}})
				} else {
					to := 0
					if r.P(40) {
						to = r.Pick(1, 50, 300, 1000)
					}
					hold := 0
					if r.P(60) {
						hold = r.Pick(1, 100, 700, 1500)
					}
					ops = append(ops, sim.Op{K: oneKinds[r.N(len(oneKinds))], A: []int{key, r.N(3), r.N(4), to, hold}})
				}
			case x < 62:
				ops = append(ops, sim.Op{K: "hadd", A: []int{slot, 1 + r.N(2), r.N(1 << 20)}})
				slot++
			case x < 72:
				ops = append(ops, sim.Op{K: "hrel", A: []int{r.N(max(slot, 1))}})
			case x < 77:
				ops = append(ops, sim.Op{K: "close", A: []int{key}})
			case x < 84:
				ops = append(ops, sim.Op{K: "unwatch", A: []int{r.N(8)}})
			default:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 10, 100, 500, 1100)}})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

type tval struct{ n int }
type oval struct{ n int }

var errFilter = errors.New("filter failed")

type hworld struct {
	h      *sim.H
	p      map[string]int
	b      bus.Bus
	ctx    context.Context
	cancel context.CancelFunc
	rnd    *sim.Rand

	// under h.Lock
	seq    int
	insts  map[directive.Instance]*hinst
	ilist  []*hinst
	vals   map[int]*tv
	hslots map[int]*hhnd
	calls  []*hcall
	watchs []*hwatch
	closes map[int]int
	errs   map[int]int
}

type hinst struct {
	di  directive.Instance
	key int
	res []*hres
	// closing is set once Close was invoked.
	closing bool
}

type tv struct {
	n      int
	typed  bool
	id     uint32
	in     *hinst
	hd     *hhnd
	addB   int
	addE   int
	remB   int
	remE   int
	reject bool
}

type hhnd struct {
	w       *hworld
	n       int
	nres    int
	seed    int
	rel     func()
	relCall int
}

type hres struct {
	w       *hworld
	in      *hinst
	hd      *hhnd
	seed    int
	starts  int
	idle    bool
	exited  bool
	exitErr error
}

type hcall struct {
	n        int
	op       sim.Op
	key      int
	ctx      context.Context
	cancel   context.CancelFunc
	start    int
	end      int
	done     bool
	err      error
	got      *tv
	list     []*tv
	ref      directive.Reference
	released bool
	disposes int
	mute     bool // no dispose callback
	ferr     bool
}

type hwatch struct {
	n     int
	op    sim.Op
	key   int
	di    directive.Instance
	check func(s []*tv) string // under h.Lock
	rel   func()
	gone  bool
	plain map[*tv]bool // values whose effect returned no release function
	last  *tv
}

func (w *hworld) tick() int { w.seq++; return w.seq }

func (hd *hhnd) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	w := hd.w
	k, ok := di.GetDirective().(interface{ coreKey() (int, int) })
	if !ok {
		return nil, nil
	}
	key, _ := k.coreKey()
	w.h.Lock()
	in := w.instLocked(di, key)
	var out []directive.Resolver
	for i := 0; i < hd.nres; i++ {
		rs := &hres{w: w, in: in, hd: hd, seed: hd.seed*7 + i*13 + key}
		in.res = append(in.res, rs)
		out = append(out, rs)
	}
	w.h.Unlock()
	sim.Yield()
	return out, nil
}

func (w *hworld) instLocked(di directive.Instance, key int) *hinst {
	in := w.insts[di]
	if in == nil {
		in = &hinst{di: di, key: key}
		w.insts[di] = in
		w.ilist = append(w.ilist, in)
	}
	return in
}

func (rs *hres) Resolve(ctx context.Context, handler directive.ResolverHandler) error {
	w := rs.w
	w.h.Lock()
	rs.starts++
	rs.idle, rs.exited, rs.exitErr = false, false, nil
	w.h.Unlock()
	err := rs.run(ctx, handler)
	w.h.Lock()
	if ctx.Err() == nil {
		rs.exited, rs.exitErr = true, err
	}
	if err != nil {
		w.errs[rs.in.key]++
	}
	w.h.LogLocked("resolver of handler %d key %d ends: %v (ctx %v)", rs.hd.n, rs.in.key, err, ctx.Err())
	w.h.Unlock()
	return err
}

func (rs *hres) run(ctx context.Context, handler directive.ResolverHandler) error {
	w := rs.w
	r := sim.NewRand(uint64(rs.seed) * 77)
	end := r.N(100) // <50 block, <65 error, else nil
	n := 1 + r.N(7)
	var mine []*tv
	w.h.Lock()
	calm := len(w.ilist) > 30 // do not flap forever in zero time
	w.h.Unlock()
	for i := 0; i < n && ctx.Err() == nil; i++ {
		sim.Yield()
		switch x := r.N(100); {
		case x < 45:
			w.h.Lock()
			t := &tv{n: len(w.vals) + 1, typed: !r.P(15), in: rs.in, hd: rs.hd, addB: w.tick()}
			t.reject = t.n%3 == 0
			w.vals[t.n] = t
			w.h.Unlock()
			var v directive.Value = &oval{t.n}
			if t.typed {
				v = &tval{t.n}
			}
			id, ok := handler.AddValue(v)
			w.h.Lock()
			if ok {
				t.id, t.addE = id, w.tick()
				mine = append(mine, t)
				w.h.LogLocked("value %d attached to key %d as id %d (typed %v)", t.n, rs.in.key, id, t.typed)
			} else {
				t.remB, t.remE = w.tick(), w.seq
			}
			w.h.Unlock()
		case x < 65:
			if len(mine) != 0 && !calm {
				k := r.N(len(mine))
				t := mine[k]
				mine = append(mine[:k:k], mine[k+1:]...)
				w.h.Lock()
				t.remB = w.tick()
				w.h.Unlock()
				handler.RemoveValue(t.id)
				w.h.Lock()
				t.remE = w.tick()
				w.h.LogLocked("value %d removed from key %d", t.n, rs.in.key)
				w.h.Unlock()
				w.h.Fault("value-withdrawn")
			}
		case x < 85:
			sleepCtx(ctx, time.Duration(r.Pick(1, 10, 100, 500, 900))*time.Millisecond)
		case x < 92:
			idle := r.P(60)
			if idle && end >= 50 && end < 65 {
				continue
			}
			w.h.Lock()
			rs.idle = idle
			w.h.Unlock()
			handler.MarkIdle(idle)
		}
	}
	switch {
	case end < 50:
		<-ctx.Done()
		return ctx.Err()
	case end < 65:
		w.h.Fault("resolver-error")
		return errRes
	}
	return nil
}

func sleepCtx(ctx context.Context, d time.Duration) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ctx.Done():
	case <-t.C:
	}
}

// attachedLocked reports whether t is certainly attached now.
func (w *hworld) attachedLocked(t *tv) bool {
	return t.addE != 0 && t.remB == 0 && t.hd.relCall == 0 && t.in.di.GetContext().Err() == nil
}

// goneBeforeLocked reports whether t was certainly withdrawn before seq.
func (t *tv) goneBefore(seq int) bool { return t.remE != 0 && t.remE < seq }

func (w *hworld) liveLocked(key int) *hinst {
	for _, in := range w.ilist {
		if in.key == key && in.di.GetContext().Err() == nil {
			return in
		}
	}
	return nil
}

func (w *hworld) slow() {
	w.h.Lock()
	st := w.rnd.P(w.p["slowcb"])
	n := w.rnd.N(30)
	w.h.Unlock()
	if st {
		w.h.Fault("slow-callback")
		sim.Yields(n)
		if n%4 == 0 {
			sim.Sleep(time.Duration(n) * time.Millisecond)
		}
	}
}

func (w *hworld) valOf(v any) *tv {
	w.h.Lock()
	defer w.h.Unlock()
	switch x := v.(type) {
	case *tval:
		if x != nil {
			return w.vals[x.n]
		}
	case *oval:
		return w.vals[x.n]
	}
	return nil
}

// call performs a one-shot helper call.
func (w *hworld) call(c *hcall) {
	h := w.h
	dir := newCoreDir(c.key, 0)
	var idle bus.ExecIdleCallback
	switch c.op.Arg(1) {
	case 1:
		idle = bus.ReturnWhenIdle()
	case 2:
		idle = bus.WaitWhenIdle(true)
	}
	dispose := func() {
		h.Lock()
		c.disposes++
		h.Unlock()
		w.slow()
	}
	if c.n%5 == 0 {
		dispose = nil
		c.mute = true
	}
	fm := c.op.Arg(2)
	filter := func(t *tv) (bool, error) {
		w.slow()
		h.Lock()
		defer h.Unlock()
		if c.ferr {
			h.FailLocked("C10", "filter-after-error", "%s: the filter was called again after it failed", c.op.K)
		}
		ok, err := w.passLocked(c, t)
		if err != nil {
			c.ferr = true
			h.LogLocked("call %d: filter fails on value %d", c.n, t.n)
			ok = t.n%8 == 0 // the error counts even if the value is said to pass
		}
		return ok, err
	}
	_ = fm
	var di directive.Instance
	var ref directive.Reference
	var err error
	var got *tv
	var id uint32
	var list []*tv
	sim.Yield()
	h.Lock()
	c.start = w.tick()
	h.Unlock()
	switch c.op.K {
	case "oneoff":
		var av directive.AttachedValue
		av, di, ref, err = bus.ExecOneOff(c.ctx, w.b, dir, idle, dispose)
		if av != nil {
			got, id = w.valOf(av.GetValue()), av.GetValueID()
		}
	case "filter":
		var av directive.AttachedValue
		av, di, ref, err = bus.ExecOneOffWithFilter(c.ctx, w.b, dir, idle, dispose, func(v directive.AttachedValue) (bool, error) {
			return filter(w.valOf(v.GetValue()))
		})
		if av != nil {
			got, id = w.valOf(av.GetValue()), av.GetValueID()
		}
	case "typed", "ftyped":
		var av directive.TypedAttachedValue[*tval]
		if c.op.K == "typed" {
			av, di, ref, err = bus.ExecOneOffTyped[*tval](c.ctx, w.b, dir, idle, dispose)
		} else {
			av, di, ref, err = bus.ExecOneOffWithFilterTyped[*tval](c.ctx, w.b, dir, idle, dispose, func(v directive.TypedAttachedValue[*tval]) (bool, error) {
				return filter(w.valOf(v.GetValue()))
			})
		}
		if av != nil {
			got, id = w.valOf(av.GetValue()), av.GetValueID()
		}
	case "xfrm":
		var av directive.AttachedValue
		var x directive.Value
		x, av, di, ref, err = bus.ExecOneOffWithXfrm(c.ctx, w.b, dir, idle, dispose, func(v directive.AttachedValue) (directive.Value, bool, error) {
			t := w.valOf(v.GetValue())
			ok, err := filter(t)
			return t, ok, err
		})
		if av != nil {
			got, id = w.valOf(av.GetValue()), av.GetValueID()
			if x != directive.Value(got) {
				h.Fail("C10", "transformed-other", "the transformed value does not belong to the returned value %d", got.n)
			}
		}
	case "xtyped":
		var av directive.TypedAttachedValue[*tval]
		var x *tv
		x, av, di, ref, err = bus.ExecOneOffWithXfrmTyped[*tval, *tv](c.ctx, w.b, dir, idle, dispose, func(v directive.TypedAttachedValue[*tval]) (*tv, bool, error) {
			t := w.valOf(v.GetValue())
			ok, err := filter(t)
			return t, ok, err
		})
		if av != nil {
			got, id = w.valOf(av.GetValue()), av.GetValueID()
		}
		if x != got {
			h.Fail("C10", "transformed-other", "the transformed value does not belong to the returned value")
		}
	case "wait":
		var v *tval
		v, di, ref, err = bus.ExecWaitValue[*tval](c.ctx, w.b, dir, idle, dispose, func(v *tval) (bool, error) {
			return filter(w.valOf(v))
		})
		if v != nil {
			got = w.valOf(v)
		}
	case "collect":
		var vs []*tval
		vs, di, ref, err = bus.ExecCollectValues[*tval](c.ctx, w.b, dir, fm%2 == 1, dispose)
		for _, v := range vs {
			list = append(list, w.valOf(v))
		}
	}
	h.Lock()
	c.end = w.tick()
	c.done, c.err, c.got, c.list, c.ref = true, err, got, list, ref
	h.LogLocked("call %d %v returns %v err=%v list=%d", c.n, c.op, got, err, len(list))
	w.judgeLocked(c, di, id)
	h.Unlock()
	if ref == nil {
		return
	}
	if c.op.Arg(4) == 0 {
		<-w.ctx.Done()
	} else {
		sleepCtx(w.ctx, time.Duration(c.op.Arg(4))*time.Millisecond)
	}
	h.Lock()
	c.released = true
	h.Unlock()
	ref.Release()
}

// passLocked is the filter of a call.
func (w *hworld) passLocked(c *hcall, t *tv) (bool, error) {
	switch c.op.K {
	case "typed", "wait", "ftyped", "xtyped", "collect":
		if !t.typed {
			return false, nil
		}
	}
	switch c.op.K {
	case "oneoff", "typed", "collect":
		return true, nil
	}
	switch c.op.Arg(2) {
	case 1:
		return t.n%2 == 0, nil
	case 2:
		return false, nil
	case 3:
		if t.n%4 == 0 {
			return false, errFilter
		}
		return t.n%2 == 1, nil
	}
	return true, nil
}

// judgeLocked judges the result of a call.
func (w *hworld) judgeLocked(c *hcall, di directive.Instance, id uint32) {
	h := w.h
	k := c.op.K
	if c.err != nil {
		if c.ref != nil {
			h.FailLocked("C10", "error-with-reference", "%s returned error %v and a reference", k, c.err)
		}
		switch {
		case errors.Is(c.err, context.Canceled):
			// A closed directive cancels its resolvers, which report that.
			if c.ctx.Err() == nil && w.closes[c.key] == 0 {
				h.FailLocked("C10", "spurious-cancel", "%s returned %v although its context is live", k, c.err)
			}
		case errors.Is(c.err, errFilter):
			if !c.ferr {
				h.FailLocked("C10", "wrong-error", "%s returned the filter error but its filter did not fail", k)
			}
		case errors.Is(c.err, directive.ErrDirectiveDisposed):
			if w.closes[c.key] == 0 {
				h.FailLocked("C10", "spurious-dispose", "%s reports a disposed directive, nobody closed it", k)
			}
		case errors.Is(c.err, errRes):
			if w.errs[c.key] == 0 || (c.op.Arg(1) == 2 && k != "collect") {
				h.FailLocked("C10", "wrong-error", "%s returned a resolver error it should not return", k)
			}
		default:
			h.FailLocked("C10", "wrong-error", "%s returned %v", k, c.err)
		}
		return
	}
	// The call may have seen the idle directive before the filter failed.
	if c.ferr && (c.op.Arg(1) != 1 || c.got != nil) {
		h.FailLocked("C10", "filter-error-lost", "%s: the filter failed but the call returned no error", k)
	}
	// Values certainly attached from before the call until now.
	var through []*tv
	for n := 1; n <= len(w.vals); n++ {
		t := w.vals[n]
		ok, ferr := w.passLocked(c, t)
		if t.in.key == c.key && t.addE != 0 && t.addE < c.start && w.attachedLocked(t) && !t.in.closing && ok && ferr == nil {
			through = append(through, t)
		}
	}
	if k == "collect" {
		if c.ref == nil || di == nil {
			h.FailLocked("C10", "no-reference", "%s returned no reference and no error", k)
		}
		seen := map[*tv]bool{}
		for _, t := range c.list {
			if t == nil || seen[t] || !t.typed || t.in.key != c.key {
				h.FailLocked("C10", "collect-bad-value", "ExecCollectValues returned a wrong or repeated value")
				continue
			}
			seen[t] = true
			if t.goneBefore(c.start) {
				h.FailLocked("C10", "collect-removed", "ExecCollectValues returned value %d, withdrawn before the call", t.n)
			}
		}
		for _, t := range through {
			if !seen[t] {
				h.FailLocked("C10", "collect-missing", "ExecCollectValues did not return value %d, attached during the whole call", t.n)
			}
		}
		if c.op.Arg(2)%2 == 1 && len(c.list) == 0 {
			h.FailLocked("C10", "collect-empty", "ExecCollectValues returned no value although it was to wait for one")
		}
		return
	}
	if c.got == nil {
		if c.ref != nil {
			h.FailLocked("C10", "reference-without-value", "%s returned a reference without a value", k)
		}
		if c.op.Arg(1) != 1 {
			h.FailLocked("C10", "no-value", "%s returned neither a value nor an error", k)
		}
		for _, t := range through {
			h.FailLocked("C10", "value-missed", "%s returned no value although value %d was attached during the whole call", k, t.n)
		}
		return
	}
	t := c.got
	ok, ferr := w.passLocked(c, t)
	if !ok || ferr != nil || t.in.key != c.key || t.in.di != di {
		h.FailLocked("C10", "wrong-value", "%s returned value %d, which is rejected or belongs to another directive", k, t.n)
	}
	if k != "wait" && t.addE != 0 && id != t.id {
		h.FailLocked("C10", "wrong-id", "%s returned id %d for value %d with id %d", k, id, t.n, t.id)
	}
	if t.goneBefore(c.start) {
		h.FailLocked("C10", "stale-value", "%s returned value %d, withdrawn before the call", k, t.n)
	}
	if c.ref == nil {
		h.FailLocked("C10", "no-reference", "%s returned a value without a reference", k)
	}
}

// selection is what a single-value watcher shows.
type selection struct {
	cur *tv
	bad string
}

func (w *hworld) watch(x *hwatch) {
	h := w.h
	dir := newCoreDir(x.key, 0)
	var di directive.Instance
	var ref directive.Reference
	var err error
	sel := &selection{}
	member := func(t *tv, s []*tv) bool {
		for _, o := range s {
			if o == t {
				return true
			}
		}
		return false
	}
	// One value of the attached ones is shown, or none if there is none.
	anyOne := func(cur *tv, s []*tv) string {
		if cur == nil && len(s) != 0 {
			return fmt.Sprintf("shows nothing although %d values are attached", len(s))
		}
		if cur != nil && !member(cur, s) {
			return fmt.Sprintf("shows value %d, which is not attached", cur.n)
		}
		return ""
	}
	accepted := func(s []*tv) (o []*tv) {
		for _, t := range s {
			if !t.reject {
				o = append(o, t)
			}
		}
		return
	}
	set := func(v directive.TypedAttachedValue[*tval]) *tv {
		var t *tv
		if v != nil {
			t = w.valOf(v.GetValue())
		}
		h.Lock()
		sel.cur = t
		h.LogLocked("watch %d %s: %v", x.n, x.op.K, t)
		h.Unlock()
		w.slow()
		return t
	}
	x.check = func(s []*tv) string { return anyOne(sel.cur, s) }
	var extra func()
	switch x.op.K {
	case "wcb":
		x.check = func(s []*tv) string { return anyOne(sel.cur, accepted(s)) }
		di, ref, err = bus.ExecOneOffWatchCb(func(v directive.TypedAttachedValue[*tval]) bool {
			if v != nil {
				if t := w.valOf(v.GetValue()); t.reject {
					return false
				}
			}
			set(v)
			return true
		}, w.b, dir)
	case "wctr":
		ctr := ccontainer.NewCContainer[*tval](nil)
		x.check = func(s []*tv) string {
			v := ctr.GetValue()
			if v == nil {
				return anyOne(nil, s)
			}
			return anyOne(w.vals[v.n], s)
		}
		di, ref, err = bus.ExecOneOffWatchCtr(ctr, w.b, dir)
	case "wch":
		var ch <-chan directive.TypedAttachedValue[*tval]
		ch, di, ref, err = bus.ExecOneOffWatchCh[*tval](w.b, dir)
		if err == nil {
			go func() {
				for {
					select {
					case <-w.ctx.Done():
						return
					case v := <-ch:
						set(v)
					}
				}
			}()
		}
	case "wlatest":
		ctx, cancel := context.WithCancel(w.ctx)
		got := make(chan struct{})
		inCb := false
		go func() {
			err := bus.ExecOneOffWatchLatestCb(ctx, w.b, dir, func(d directive.Instance, r directive.Reference) error {
				di, ref = d, r
				close(got)
				return nil
			}, func(v directive.TypedAttachedValue[*tval]) error {
				h.Lock()
				if inCb {
					h.FailLocked("C11", "concurrent-callback", "ExecOneOffWatchLatestCb called its callback concurrently")
				}
				inCb = true
				h.Unlock()
				set(v)
				h.Lock()
				inCb = false
				h.Unlock()
				return nil
			})
			if ctx.Err() == nil || err == nil {
				h.Fail("C11", "watch-ended", "ExecOneOffWatchLatestCb returned %v although its context is live", err)
			}
		}()
		<-got
		extra = cancel
	case "wsel", "wsel2":
		want := func(s []*tv) *tv { return s[0] }
		var selCb func(vals []directive.TypedAttachedValue[*tval]) int
		if x.op.K == "wsel2" {
			// The highest odd number, or none.
			want = func(s []*tv) *tv {
				var b *tv
				for _, t := range s {
					if t.n%2 == 1 && (b == nil || t.n > b.n) {
						b = t
					}
				}
				return b
			}
			selCb = func(vals []directive.TypedAttachedValue[*tval]) int {
				b := -1
				for i, v := range vals {
					if i > 0 && vals[i-1].GetValueID() >= v.GetValueID() {
						sel.bad = "the values are not sorted by id"
					}
					if n := v.GetValue().n; n%2 == 1 && (b < 0 || n > vals[b].GetValue().n) {
						b = i
					}
				}
				return b
			}
		}
		x.check = func(s []*tv) string {
			if sel.bad != "" {
				return sel.bad
			}
			var t *tv
			if len(s) != 0 {
				t = want(s)
			}
			if sel.cur != t {
				return fmt.Sprintf("shows %v, the selection of the attached values is %v", sel.cur, t)
			}
			return ""
		}
		di, ref, err = bus.ExecOneOffWatchSelectCb(w.b, dir, selCb, func(v directive.TypedAttachedValue[*tval]) { set(v) })
	case "wroutine":
		rc := routine.NewStateRoutineContainer[*tval](func(a, b *tval) bool { return a == b })
		running := map[*tval]int{}
		rc.SetStateRoutine(func(ctx context.Context, st *tval) error {
			h.Lock()
			running[st]++
			h.Unlock()
			<-ctx.Done()
			h.Lock()
			running[st]--
			if running[st] == 0 {
				delete(running, st)
			}
			h.Unlock()
			return ctx.Err()
		})
		rc.SetContext(w.ctx, true)
		x.check = func(s []*tv) string {
			if len(running) > 1 {
				return fmt.Sprintf("%d routines run", len(running))
			}
			var t *tv
			for v := range running {
				if v != nil {
					t = w.vals[v.n]
				}
			}
			return anyOne(t, s)
		}
		di, ref, err = bus.ExecOneOffWatchRoutine(rc, w.b, dir)
	case "weffect", "woneeffect":
		one := x.op.K == "woneeffect"
		act := map[*tv]int{}
		eff := w.effect(x, act, one)
		cb := func(v directive.TypedAttachedValue[*tval]) func() { return eff(w.valOf(v.GetValue())) }
		x.check = effectCheck(x, act, one, func(s []*tv) []*tv { return s })
		if one {
			di, ref, err = bus.ExecOneOffWatchEffect(cb, w.b, dir)
		} else {
			di, ref, err = bus.ExecWatchEffect(cb, w.b, dir)
		}
	case "wxeffect", "wonexeffect":
		one := x.op.K == "wonexeffect"
		act := map[*tv]int{}
		eff := w.effect(x, act, one)
		xf := func(ctx context.Context, v directive.TypedAttachedValue[*tval]) (*tv, bool, error) {
			t := w.valOf(v.GetValue())
			switch (t.n + x.op.Arg(1)) % 4 {
			case 0:
				sleepCtx(ctx, 40*time.Millisecond)
			case 1:
				sim.Yields(5)
			}
			if t.reject {
				if t.n%2 == 0 {
					h.Fault("transform-error")
					return nil, false, errFilter
				}
				return nil, false, nil
			}
			return t, true, nil
		}
		cb := func(v directive.TransformedAttachedValue[*tval, *tv]) func() {
			if v == nil {
				return nil
			}
			t := w.valOf(v.GetValue())
			if v.GetTransformedValue() != t {
				h.Fail("C11", "transformed-other", "%s: the effect received another value's transformation", x.op.K)
			}
			return eff(t)
		}
		x.check = effectCheck(x, act, one, accepted)
		if one {
			var selFn func(vals []directive.TransformedAttachedValue[*tval, *tv]) int
			if x.op.Arg(2) != 0 {
				selFn = func(vals []directive.TransformedAttachedValue[*tval, *tv]) int { return len(vals) - 1 }
				if x.op.Arg(2) == 2 {
					selFn = func(vals []directive.TransformedAttachedValue[*tval, *tv]) int { return 0 }
				}
			}
			x.check = effectCheck(x, act, one, func(s []*tv) []*tv {
				s = accepted(s)
				if len(s) == 0 {
					return nil
				}
				if x.op.Arg(2) == 1 {
					return s[len(s)-1:]
				}
				return s[:1]
			})
			di, ref, err = bus.ExecOneOffWatchTransformEffect(w.ctx, xf, selFn, cb, w.b, dir)
		} else {
			di, ref, err = bus.ExecWatchTransformEffect(w.ctx, xf, cb, w.b, dir)
		}
	case "wrefcount":
		target := ccontainer.NewCContainer[*tval](nil)
		rc := bus.NewOneOffRefCount[*tval](w.ctx, w.b, dir, bus.WaitWhenIdle(true), nil, x.op.Arg(1) == 0, target, nil)
		r := rc.AddRef(nil)
		x.check = func(s []*tv) string {
			v := target.GetValue()
			if v == nil {
				if w.closes[x.key] != 0 {
					return "" // resolving failed with the disposal error
				}
				return anyOne(nil, s)
			}
			return anyOne(w.vals[v.n], s)
		}
		h.Lock()
		x.rel = func() { r.Release(); rc.ClearContext() }
		w.watchs = append(w.watchs, x)
		h.Unlock()
		return
	}
	if err != nil || ref == nil {
		h.Fail("C11", "watch-failed", "%s returned %v", x.op.K, err)
		return
	}
	h.Lock()
	w.instLocked(di, x.key)
	x.di = di
	x.rel = func() {
		if extra != nil {
			extra()
		}
		ref.Release()
	}
	w.watchs = append(w.watchs, x)
	h.Unlock()
}

// effect builds an effect callback that tracks the active effects.
func (w *hworld) effect(x *hwatch, act map[*tv]int, one bool) func(t *tv) func() {
	h := w.h
	x.plain = map[*tv]bool{}
	return func(t *tv) func() {
		h.Lock()
		if t.n%5 == 0 {
			// an effect with nothing to release
			h.LogLocked("watch %d %s: effect of value %d, no release", x.n, x.op.K, t.n)
			x.plain[t] = true
			x.last = t
			if one && len(act) > 0 {
				h.FailLocked("C11", "two-effects", "%s: two effects are active at once", x.op.K)
			}
			h.Unlock()
			w.slow()
			return nil
		}
		x.last = t
		act[t]++
		if act[t] > 1 {
			h.FailLocked("C11", "effect-twice", "%s: the effect of value %d was applied twice", x.op.K, t.n)
		}
		if one && len(act) > 1 {
			h.FailLocked("C11", "two-effects", "%s: two effects are active at once", x.op.K)
		}
		h.LogLocked("watch %d %s: effect of value %d", x.n, x.op.K, t.n)
		h.Unlock()
		w.slow()
		rels := 0
		return func() {
			h.Lock()
			rels++
			if rels > 1 {
				h.FailLocked("C11", "released-twice", "%s: the effect of value %d was released twice", x.op.K, t.n)
			}
			delete(act, t)
			h.LogLocked("watch %d %s: effect of value %d released", x.n, x.op.K, t.n)
			h.Unlock()
			w.slow()
		}
	}
}

func effectCheck(x *hwatch, act map[*tv]int, one bool, want func([]*tv) []*tv) func([]*tv) string {
	return func(s []*tv) string {
		s = want(s)
		wanted := map[*tv]bool{}
		for _, t := range s {
			wanted[t] = true
		}
		for t := range act {
			if !wanted[t] {
				return fmt.Sprintf("the effect of value %d is active, it should not be", t.n)
			}
		}
		if one {
			if len(act) == 0 && x.last != nil && x.plain[x.last] && wanted[x.last] {
				return ""
			}
			if len(s) != 0 && len(act) != 1 {
				return fmt.Sprintf("has %d active effects with %d values to choose from", len(act), len(s))
			}
			return ""
		}
		for _, t := range s {
			if t.n%5 == 0 {
				delete(wanted, t)
				if !x.plain[t] {
					return fmt.Sprintf("the effect of value %d was not applied", t.n)
				}
			}
		}
		if len(act) != len(wanted) {
			return fmt.Sprintf("%d effects are active, %d values are attached", len(act), len(wanted))
		}
		return ""
	}
}

func (w *hworld) do(op sim.Op, at func(string)) {
	h := w.h
	at(op.String())
	h.Count(op.K)
	switch op.K {
	case "hadd":
		h.Lock()
		hd := &hhnd{w: w, n: op.Arg(0), nres: op.Arg(1), seed: op.Arg(2)}
		h.Unlock()
		rel, err := w.b.AddHandler(hd)
		if err != nil {
			return
		}
		h.Lock()
		hd.rel = rel
		w.hslots[op.Arg(0)] = hd
		h.Unlock()
	case "hrel":
		h.Lock()
		hd := w.hslots[op.Arg(0)]
		delete(w.hslots, op.Arg(0))
		if hd != nil {
			hd.relCall = w.tick()
			for _, t := range w.vals {
				if t.hd == hd && t.remB == 0 {
					t.remB = w.seq
				}
			}
		}
		h.Unlock()
		if hd != nil {
			h.Fault("handler-removed")
			hd.rel()
		}
	case "close":
		h.Lock()
		in := w.liveLocked(op.Arg(0))
		if in != nil {
			in.closing = true
			w.closes[in.key]++
		}
		h.Unlock()
		if in != nil {
			h.Fault("directive-closed")
			in.di.Close()
		}
	case "sleep":
		sim.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
	case "unwatch":
		h.Lock()
		var x *hwatch
		if n := len(w.watchs); n != 0 {
			x = w.watchs[op.Arg(0)%n]
			if x.gone {
				x = nil
			} else {
				x.gone = true
			}
		}
		h.Unlock()
		if x != nil {
			x.rel()
		}
	default:
		if op.K[0] == 'w' && op.K != "wait" {
			h.Lock()
			x := &hwatch{n: w.tick(), op: op, key: op.Arg(0)}
			h.Unlock()
			w.watch(x)
			return
		}
		h.Lock()
		c := &hcall{n: w.tick(), op: op, key: op.Arg(0)}
		if to := op.Arg(3); to != 0 {
			c.ctx, c.cancel = context.WithTimeout(w.ctx, time.Duration(to)*time.Millisecond)
		} else {
			c.ctx, c.cancel = context.WithCancel(w.ctx)
		}
		w.calls = append(w.calls, c)
		h.Unlock()
		if op.Arg(3) != 0 {
			h.Fault("call-timeout")
		}
		go w.call(c)
	}
}

// Exec runs the scenario.
func (Helpers) Exec(h *sim.H, s *sim.Script) {
	pp := "C10"
	if h.Prop == "C11" {
		pp = "C11"
	}
	h.NoPanics(pp)
	ctx, cancel := context.WithCancel(context.Background())
	root, rootCancel := context.WithCancel(context.Background())
	w := &hworld{h: h, p: s.P, ctx: ctx, cancel: cancel, rnd: sim.NewRand(h.Seed ^ 99),
		b:     inmem.NewBus(dcontroller.NewController(root, h.Le)),
		insts: map[directive.Instance]*hinst{}, vals: map[int]*tv{}, hslots: map[int]*hhnd{}, closes: map[int]int{}, errs: map[int]int{}}
	for _, op := range s.Tasks[0] {
		w.do(op, func(string) {})
	}
	for i, ops := range s.Tasks[1:] {
		h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
			for _, op := range ops {
				sim.Yield()
				w.do(op, at)
			}
		})
	}
	prop := h.Prop
	if prop != "C11" {
		prop = "C10"
	}
	if !h.MustJoin(prop, 10*time.Minute) {
		return
	}
	h.Lock()
	w.p = map[string]int{}
	h.Unlock()
	h.Quiesce(time.Minute)
	w.checkQuiet()
	cancel()
	h.Go("release-all", func(at func(string)) {
		h.Lock()
		ws := append([]*hwatch(nil), w.watchs...)
		h.Unlock()
		for _, x := range ws {
			if !x.gone {
				at(fmt.Sprint("release ", x.op))
				x.gone = true
				x.rel()
			}
		}
	})
	if !h.MustJoin(prop, time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	dis := w.b.GetDirectives()
	h.Lock()
	for _, c := range w.calls {
		if !c.done {
			h.FailLocked("C10", "ignores-cancel", "%s did not return a minute after its context was cancelled", c.op.K)
		}
	}
	if len(dis) != 0 {
		h.FailLocked(prop, "reference-leak", "%d directives are alive a minute after every returned reference was released", len(dis))
	}
	h.Unlock()
	rootCancel()
	h.Quiesce(time.Minute)
	h.LeakProp = prop
}

// checkQuiet judges calls and watchers once everything settled.
func (w *hworld) checkQuiet() {
	h := w.h
	dis := w.b.GetDirectives()
	h.Lock()
	defer h.Unlock()
	st := uint64(len(w.vals))
	live := map[int]*hinst{}
	for _, di := range dis {
		key, _ := di.GetDirective().(interface{ coreKey() (int, int) }).coreKey()
		live[key] = w.instLocked(di, key)
	}
	attached := map[int][]*tv{}
	for n := 1; n <= len(w.vals); n++ {
		t := w.vals[n]
		if w.attachedLocked(t) {
			attached[t.in.key] = append(attached[t.in.key], t)
		}
	}
	for _, s := range attached {
		sort.Slice(s, func(i, j int) bool { return s[i].id < s[j].id })
	}
	for _, c := range w.calls {
		st = sim.Mix(st*7 + uint64(len(c.list)))
		if !c.done {
			if c.ctx.Err() != nil {
				h.FailLocked("C10", "ignores-cancel", "%s did not return a minute after its context ended", c.op.K)
				continue
			}
			if c.ferr {
				h.FailLocked("C10", "hang", "%s keeps waiting although its filter failed", c.op.K)
				continue
			}
			in := live[c.key]
			if in == nil {
				h.FailLocked("C10", "hang", "%s keeps waiting although its directive is gone", c.op.K)
				continue
			}
			busy, nerr := 0, 0
			for _, rs := range in.res {
				if rs.hd.relCall != 0 {
					continue
				}
				if !rs.exited && !rs.idle {
					busy++
				}
				if rs.exited && rs.exitErr != nil {
					nerr++
				}
			}
			match := 0
			for _, t := range attached[c.key] {
				if ok, err := w.passLocked(c, t); ok && err == nil {
					match++
				} else if err != nil {
					match++
				}
			}
			if c.op.K == "collect" {
				if busy == 0 && (nerr != 0 || c.op.Arg(2)%2 == 0 || match != 0) {
					h.FailLocked("C10", "hang", "ExecCollectValues keeps waiting: idle, %d resolver errors, %d values", nerr, match)
				}
				continue
			}
			if match != 0 {
				h.FailLocked("C10", "hang", "%s keeps waiting although %d matching values are attached", c.op.K, match)
			}
			if busy == 0 && (c.op.Arg(1) == 1 || c.op.Arg(1) == 0 && nerr != 0) {
				h.FailLocked("C10", "hang", "%s keeps waiting although the directive is idle (%d resolver errors)", c.op.K, nerr)
			}
			continue
		}
		if c.ref == nil || c.released {
			continue
		}
		gone, any := false, false
		for _, t := range append(c.list, c.got) {
			if t == nil {
				continue
			}
			any = true
			if !w.attachedLocked(t) {
				gone = true
			}
		}
		if gone && c.disposes == 0 && !c.mute {
			h.FailLocked("C10", "dispose-missed", "%s: a returned value was withdrawn and the dispose callback was not called", c.op.K)
		}
		if !gone && any && c.disposes != 0 {
			h.FailLocked("C10", "dispose-early", "%s: the dispose callback was called although the returned values are attached", c.op.K)
		}
	}
	for _, x := range w.watchs {
		if x.gone {
			continue
		}
		key := x.key
		var s []*tv
		if x.di == nil || x.di.GetContext().Err() == nil {
			for _, t := range attached[key] {
				if t.typed {
					s = append(s, t)
				}
			}
		}
		st = sim.Mix(st*11 + uint64(len(s)))
		if m := x.check(s); m != "" {
			var ids []int
			for _, t := range s {
				ids = append(ids, t.n)
			}
			h.FailLocked("C11", "not-converged-"+x.op.K, "%s %s (attached: %v)", x.op.K, m, ids)
		}
	}
	h.StateLocked(st)
}
