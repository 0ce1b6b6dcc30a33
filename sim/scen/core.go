package scen

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"

	"verifsim/sim"
)

// The core scenario drives the directive controller with concurrent clients,
// handlers and resolvers, and judges everything a reference holder, handler or
// resolver can observe.

// coreDir is a directive. Keys fix the value options and the equivalence mode.
type coreDir struct {
	key, ver int
}

type plainDir struct{ coreDir }
type equivDir struct{ coreDir }
type supDir struct{ coreDir }

const coreKeys = 10

func (d *coreDir) Validate() error                         { return nil }
func (d *coreDir) GetName() string                         { return fmt.Sprintf("d%d", d.key) }
func (d *coreDir) coreKey() (int, int)                     { return d.key, d.ver }
func (d *coreDir) GetValueOptions() directive.ValueOptions { return coreOpts(d.key) }

func coreOpts(key int) directive.ValueOptions {
	switch key {
	case 2, 6:
		return directive.ValueOptions{UnrefDisposeDur: time.Second}
	case 3:
		return directive.ValueOptions{UnrefDisposeDur: 2 * time.Second, UnrefDisposeEmptyImmediate: true}
	case 4:
		return directive.ValueOptions{MaxValueCount: 1, MaxValueHardCap: true}
	case 5:
		return directive.ValueOptions{MaxValueCount: 2, UnrefDisposeDur: time.Second}
	case 7:
		return directive.ValueOptions{MaxValueCount: 2, MaxValueHardCap: true}
	case 8:
		return directive.ValueOptions{MaxValueCount: 1}
	}
	return directive.ValueOptions{}
}

// coreSup reports whether directives of the key supersede lower versions.
func coreSup(key int) bool { return key == 6 || key == 9 }

func (d *equivDir) IsEquivalent(o directive.Directive) bool { return equivKey(d.key, o) }
func (d *supDir) IsEquivalent(o directive.Directive) bool   { return equivKey(d.key, o) }
func (d *supDir) Superceeds(o directive.Directive) bool {
	s, ok := o.(*supDir)
	return ok && s.ver < d.ver
}

func equivKey(key int, o directive.Directive) bool {
	sim.Yield()
	k, ok := o.(interface{ coreKey() (int, int) })
	if !ok {
		return false
	}
	ok2, _ := k.coreKey()
	return ok2 == key
}

func newCoreDir(key, ver int) directive.Directive {
	d := coreDir{key, ver}
	switch {
	case key == 0:
		return &plainDir{d}
	case coreSup(key):
		return &supDir{d}
	}
	return &equivDir{d}
}

// Core is the scenario.
type Core struct{}

func (Core) Name() string { return "core" }

// keysFor biases the directive kinds towards the property.
func keysFor(prop string) []int {
	switch prop {
	case "C01":
		return []int{1, 2, 6, 9, 6, 9, 0}
	case "C02":
		return []int{1, 2, 2, 3, 3, 6, 5}
	case "C06":
		return []int{4, 4, 5, 7, 7, 8}
	}
	return []int{0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9}
}

func (Core) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{}}
	keys := keysFor(prop)
	// Few directive kinds per run, so that clients collide.
	nk := 1 + r.N(3)
	var use []int
	mask := 0
	for i := 0; i < nk; i++ {
		k := keys[r.N(len(keys))]
		use = append(use, k)
		mask |= 1 << k
	}
	s.P["refill"] = r.N(2)                 // fill and empty capped directives at the end
	s.P["stall"] = r.Pick(0, 0, 3, 10)     // percent of callbacks that stall
	s.P["reent"] = r.Pick(0, 0, 5, 20)     // percent of callbacks that use the controller
	s.P["cbpanic"] = r.Pick(0, 0, 0, 0, 1) // percent of callbacks that panic
	nt := 2 + r.N(3)
	setup := []sim.Op{}
	nh := r.N(3)
	if prop == "C04" || prop == "C08" || prop == "C09" || prop == "C05" || prop == "C06" {
		nh = 1 + r.N(3)
	}
	slot := 0
	hop := func(idx int) sim.Op {
		beh := 0
		if r.P(30) {
			beh = r.N(8)
		}
		nres := 1 + r.N(2)
		if r.P(10) {
			nres = 0
		}
		return sim.Op{K: "hadd", A: []int{idx, mask, nres, beh, r.N(1 << 20)}}
	}
	for i := 0; i < nh; i++ {
		setup = append(setup, hop(slot))
		slot++
	}
	s.Tasks = append(s.Tasks, setup)
	nslots := 1 + r.N(4)
	for t := 0; t < nt; t++ {
		var ops []sim.Op
		n := 2 + r.N(8)
		for i := 0; i < n; i++ {
			sl := r.N(nslots)
			x := r.N(100)
			switch {
			case x < 30 || i == 0 && x < 80:
				ops = append(ops, sim.Op{K: "add", A: []int{use[r.N(len(use))], sl, r.N(4), r.N(10)}})
			case x < 50:
				ops = append(ops, sim.Op{K: "rel", A: []int{sl, r.N(4)}})
			case x < 57:
				ops = append(ops, sim.Op{K: "addref", A: []int{sl, r.N(2), r.N(4)}})
			case x < 60:
				ops = append(ops, sim.Op{K: "close", A: []int{sl}})
			case x < 63:
				ops = append(ops, sim.Op{K: "ciu", A: []int{sl, r.N(2)}})
			case x < 69:
				ops = append(ops, sim.Op{K: "idle", A: []int{sl}})
			case x < 72:
				ops = append(ops, sim.Op{K: "unidle", A: []int{sl}})
			case x < 75:
				ops = append(ops, sim.Op{K: "disp", A: []int{sl}})
			case x < 77:
				ops = append(ops, sim.Op{K: "undisp", A: []int{sl}})
			case x < 83:
				ops = append(ops, hop(slot))
				slot++
			case x < 89:
				ops = append(ops, sim.Op{K: "hrel", A: []int{r.N(max(slot, 1))}})
			case x < 96:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 10, 100, 500, 1000, 1100, 2500)}})
			default:
				ops = append(ops, sim.Op{K: "list"})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

var errRes = errors.New("resolver failed")
var errHnd = errors.New("handler failed")

type world struct {
	h    *sim.H
	p    map[string]int
	ctrl directive.Controller
	ctx  context.Context

	// under h.Lock
	insts   map[directive.Instance]*inst
	ilist   []*inst
	hnds    []*hnd
	hslots  map[int]*hnd
	slots   map[int]*slotRec
	maxVer  map[int]int
	creator map[uint64]*creating
	nval    int
	ending  bool
	rnd     *sim.Rand
	nres    int
}

type creating struct {
	key  int
	inst *inst
	done bool
	pre  []*hnd // handlers present throughout the call
}

type slotRec struct {
	inst *inst
	refs []*ref
	idle []*idleRec
	disp []*dispRec
}

type inst struct {
	n       int
	di      directive.Instance
	key     int
	ver     int
	killers int // Close or a removal by the harness was invoked
	cius    int
	dead    bool // disposal observed
	deadAt  time.Duration
	refs    []*ref
	res     []*res
	idles   []*idleRec
	disps   []*dispRec
	calls   map[*hnd]int
	answers map[*hnd]int
	adding  int // AddValue calls in flight
	creat   *creating
	relAt   time.Duration
	anyRel  bool
	seenID  map[uint32]int
}

type ref struct {
	n        int
	in       *inst
	di       directive.Instance
	weak     bool
	handler  bool
	ref      directive.Reference
	held     bool // certainly held: returned by the API and not yet released
	released bool // Release was called
	relDone  bool
	first    bool // created the instance
	lastID   uint32
	cur      map[uint32]int
	seen     map[uint32]bool
	disposed int
	inCb     int
}

type idleRec struct {
	in       *inst
	calls    int
	last     bool
	lastErrs int
	released bool
	rel      func()
}

type dispRec struct {
	in       *inst
	calls    int
	released bool // release invoked
	relZero  bool // release returned while calls was 0 and the instance alive
	rel      func()
}

type hnd struct {
	w       *world
	n       int
	mask    int
	nres    int
	beh     int
	seed    int
	rel     func()
	added   bool
	relCall bool
	relDone bool
	res     []*res
	calls   int
	addDone bool
}

type res struct {
	w         *world
	n         int
	in        *inst
	hd        *hnd
	parent    *res
	seed      int
	running   int
	starts    int
	ctx       context.Context
	handler   directive.ResolverHandler
	exited    bool
	exitErr   error
	idle      bool
	subRel    bool
	gone      int // calls of the removed callback given to AddResolver
	isSub     bool
	vals      map[uint32]*val
	cbs       []*rcb
	attached  bool // sub-resolver: AddResolver returned without immediate removal
	relFn     func()
	busyAct   bool // this activation neither held a value nor marked itself idle
	rejected  bool // a value of this activation was refused while it was busy
	cancelled bool // an activation ended by context while still attached
}

type val struct {
	id      uint32
	v       int
	removed bool // RemoveValue/ClearValues succeeded
	cbs     []*rcb
}

type rcb struct {
	calls    int
	released bool
	rel      func()
}

func (w *world) instLocked(di directive.Instance) *inst {
	in := w.insts[di]
	if in == nil {
		k, v := di.GetDirective().(interface{ coreKey() (int, int) }).coreKey()
		in = &inst{n: len(w.ilist), di: di, key: k, ver: v, calls: map[*hnd]int{}, answers: map[*hnd]int{}, seenID: map[uint32]int{}}
		w.insts[di] = in
		w.ilist = append(w.ilist, in)
	}
	return in
}

// mayDie reports whether something other than loss of references may have
// removed the instance.
func (w *world) mayDieLocked(in *inst) bool {
	return in.killers > 0 || w.ending || (coreSup(in.key) && in.ver < w.maxVer[in.key])
}

// checkHeldLocked: no disposal while a strong reference is certainly held.
func (w *world) checkHeldLocked(in *inst, why string) {
	if w.mayDieLocked(in) {
		return
	}
	if in.di.GetContext().Err() == nil && !in.dead {
		return
	}
	for _, r := range in.refs {
		if r.held && !r.weak {
			w.h.FailLocked("C02", "early-disposal", "instance %d (key %d) was disposed although a counted reference is held (%s)", in.n, in.key, why)
			return
		}
	}
}

// deadLocked notes that the instance is seen disposed.
func (w *world) deadLocked(in *inst, why string) {
	if !in.dead {
		in.dead = true
		in.deadAt = sim.Now()
		o := coreOpts(in.key)
		if !w.mayDieLocked(in) && in.cius == 0 && !o.UnrefDisposeEmptyImmediate && o.UnrefDisposeDur != 0 {
			if !in.anyRel || in.deadAt < in.relAt+o.UnrefDisposeDur {
				w.h.FailLocked("C02", "early-timer", "instance %d (key %d) was disposed at %v, its last counted release began at %v and the grace period is %v", in.n, in.key, in.deadAt, in.relAt, o.UnrefDisposeDur)
			}
		}
	}
	w.checkHeldLocked(in, why)
}

// --- reference handler

func (r *ref) HandleValueAdded(di directive.Instance, v directive.AttachedValue) {
	w := r.w()
	w.h.Lock()
	in := w.instLocked(di)
	r.bindLocked(in)
	id := v.GetValueID()
	x, _ := v.GetValue().(*cval)
	w.h.LogLocked("ref %d: value added id=%d", r.n, id)
	if id == 0 {
		w.h.FailLocked("C05", "id-zero", "a value was delivered with id 0")
	}
	if x == nil || x.res.in != in {
		w.h.FailLocked("C05", "foreign-value", "reference %d of instance %d received a value of another directive", r.n, in.n)
	}
	if r.disposed > 0 {
		w.h.FailLocked("C05", "event-after-dispose", "reference %d received value %d after the disposal notice", r.n, id)
	}
	if r.seen[id] {
		w.h.FailLocked("C05", "duplicate-add", "reference %d was told twice that value %d was added", r.n, id)
	}
	if x != nil {
		if old, ok := in.seenID[id]; ok && old != x.v {
			w.h.FailLocked("C05", "id-reuse", "value id %d of instance %d names two different values", id, in.n)
		}
		in.seenID[id] = x.v
		r.cur[id] = x.v
	}
	if r.first && id < r.lastID {
		w.h.FailLocked("C05", "order", "reference %d (present from the start) saw value %d after value %d", r.n, id, r.lastID)
	}
	if id > r.lastID {
		r.lastID = id
	}
	r.seen[id] = true
	r.enterLocked()
	if o := coreOpts(in.key); o.MaxValueHardCap && len(r.cur) > o.MaxValueCount {
		w.h.FailLocked("C06", "hard-cap", "instance %d shows %d values, its hard cap is %d", in.n, len(r.cur), o.MaxValueCount)
	}
	w.h.Unlock()
	defer r.leave()
	w.stall("value-callback")
}

// Callbacks of one reference never overlap.
func (r *ref) enterLocked() {
	r.inCb++
	if r.inCb > 1 {
		curWorld.h.FailLocked("C05", "concurrent-callbacks", "reference %d is told of two events at once", r.n)
	}
}

func (r *ref) leave() {
	curWorld.h.Lock()
	r.inCb--
	curWorld.h.Unlock()
}

func (r *ref) HandleValueRemoved(di directive.Instance, v directive.AttachedValue) {
	w := r.w()
	w.h.Lock()
	in := w.instLocked(di)
	r.bindLocked(in)
	id := v.GetValueID()
	w.h.LogLocked("ref %d: value removed id=%d", r.n, id)
	if r.disposed > 0 {
		w.h.FailLocked("C05", "event-after-dispose", "reference %d received removal of value %d after the disposal notice", r.n, id)
	}
	if _, ok := r.cur[id]; !ok {
		w.h.FailLocked("C05", "remove-unknown", "reference %d was told that value %d was removed; seen=%v", r.n, id, r.seen[id])
	}
	delete(r.cur, id)
	r.enterLocked()
	w.h.Unlock()
	defer r.leave()
	w.stall("value-callback")
}

func (r *ref) HandleInstanceDisposed(di directive.Instance) {
	w := r.w()
	w.h.Lock()
	in := w.instLocked(di)
	r.bindLocked(in)
	w.h.LogLocked("ref %d: disposed", r.n)
	r.disposed++
	if r.disposed > 1 {
		w.h.FailLocked("C02", "dispose-twice", "reference %d was told twice that instance %d was disposed", r.n, in.n)
	}
	if len(r.cur) != 0 && !r.released {
		w.h.FailLocked("C05", "dispose-with-values", "reference %d was told of the disposal while values %v were never withdrawn", r.n, r.cur)
	}
	w.deadLocked(in, "disposal notice")
	r.enterLocked()
	w.h.Unlock()
	defer r.leave()
	w.stall("dispose-callback")
}

var curWorld *world // set per run; the scenario is single threaded between runs

func (r *ref) w() *world { return curWorld }

func (r *ref) bindLocked(in *inst) {
	if r.in == nil {
		r.in = in
		in.refs = append(in.refs, r)
	} else if r.in != in {
		curWorld.h.FailLocked("C05", "foreign-event", "reference %d of instance %d received an event of instance %d", r.n, r.in.n, in.n)
	}
}

// stall makes a callback slow, or panics in it.
func (w *world) stall(kind string) {
	w.h.Lock()
	st := w.rnd.P(w.p["stall"])
	pn := w.rnd.P(w.p["cbpanic"]) && !w.ending && !strings.HasPrefix(kind, "direct-")
	n := w.rnd.N(40)
	re := w.rnd.P(w.p["reent"])
	x := w.rnd.N(4)
	w.h.Unlock()
	if re {
		w.h.Fault("callback-uses-controller")
		if dis := w.ctrl.GetDirectives(); len(dis) != 0 {
			di := dis[n%len(dis)]
			switch x {
			case 0:
				di.GetResolverErrors()
			case 1:
				di.AddDisposeCallback(func() {})()
			case 2:
				di.AddIdleCallback(func(bool, []error) {})()
			}
		}
	}
	if st {
		w.h.Fault("slow-" + kind)
		sim.Yields(n)
		if n%4 == 0 {
			sim.Sleep(time.Duration(n) * time.Millisecond)
		}
	}
	if pn {
		w.h.Fault("panic-in-callback")
		panic("injected callback panic")
	}
}

type cval struct {
	v   int
	res *res
}

func (w *world) newRef(weak, handler bool) *ref {
	w.h.Lock()
	w.nres++
	r := &ref{n: w.nres, weak: weak, handler: handler, cur: map[uint32]int{}, seen: map[uint32]bool{}}
	w.h.Unlock()
	return r
}

func (r *ref) asHandler() directive.ReferenceHandler {
	if !r.handler {
		return nil
	}
	switch r.n % 7 {
	case 1:
		return directive.NewLogHandler(curWorld.h.Le, r)
	case 2:
		return directive.NewLogHandler(nil, r)
	case 3:
		// no value is a string: everything is for the fallback
		odd := func(directive.TypedAttachedValue[string]) {
			curWorld.h.Fail("C05", "foreign-value", "a typed reference was told of a value of another type")
		}
		return directive.NewTypedCallbackHandler(odd, odd, nil, r)
	}
	return r
}

// --- handler

func (hd *hnd) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	w := hd.w
	w.h.Lock()
	in := w.instLocked(di)
	cr := w.creator[simSelf()]
	if cr != nil && !cr.done && cr.inst == nil && cr.key == in.key && in.creat == nil {
		// This goroutine is inside AddDirective and offers its new instance.
		cr.inst = in
		in.creat = cr
	}
	in.calls[hd]++
	hd.calls++
	w.h.LogLocked("handler %d: asked for instance %d (key %d)", hd.n, in.n, in.key)
	if in.calls[hd] > 1 {
		w.h.FailLocked("C03", "offered-twice", "handler %d was asked %d times for instance %d", hd.n, in.calls[hd], in.n)
	}
	w.h.Unlock()
	defer func() {
		w.h.Lock()
		in.answers[hd]++
		w.h.Unlock()
	}()
	if hd.mask&(1<<in.key) == 0 {
		return nil, nil
	}
	sim.Yield()
	switch hd.beh {
	case 1:
		w.h.Fault("handler-error")
		return nil, errHnd
	case 2:
		w.h.Fault("handler-panic")
		panic("injected handler panic")
	case 3:
		w.h.Fault("slow-handler")
		sim.Sleep(300 * time.Millisecond)
	case 4, 5:
		r := w.newRef(hd.beh == 4, true)
		w.addRef(in, r)
		if hd.beh == 5 {
			w.h.Go("handler-ref", func(at func(string)) {
				at("sleep")
				sim.Sleep(700 * time.Millisecond)
				at("release")
				w.release(r)
			})
		}
	case 6:
		w.addIdle(in, nil)
	}
	var out []directive.Resolver
	for i := 0; i < hd.nres; i++ {
		rs := w.newRes(in, hd, nil, hd.seed*7+i*13+in.key)
		out = append(out, rs)
	}
	sim.Yield()
	return out, nil
}

func (w *world) newRes(in *inst, hd *hnd, parent *res, seed int) *res {
	w.h.Lock()
	defer w.h.Unlock()
	w.nres++
	rs := &res{w: w, n: w.nres, in: in, hd: hd, parent: parent, seed: seed, vals: map[uint32]*val{}, idle: true}
	rs.isSub = parent != nil
	in.res = append(in.res, rs)
	hd.res = append(hd.res, rs)
	return rs
}

// --- resolver

func (rs *res) Resolve(ctx context.Context, handler directive.ResolverHandler) error {
	w := rs.w
	w.h.Lock()
	rs.running++
	rs.starts++
	act := rs.starts
	w.h.LogLocked("resolver %d: activation %d (handler %d, instance %d, ctx err %v)", rs.n, act, rs.hd.n, rs.in.n, ctx.Err())
	if rs.running > 1 {
		w.h.FailLocked("C08", "concurrent-activation", "resolver %d runs %d activations at once", rs.n, rs.running)
	}
	if rs.ctx != nil && rs.ctx.Err() == nil {
		w.h.FailLocked("C08", "restart-live", "resolver %d was started again while its previous context is live", rs.n)
	}
	if ctx.Err() == nil {
		if rs.hd.relDone {
			w.h.FailLocked("C04", "start-after-release", "resolver %d of handler %d was started with a live context after the handler was removed", rs.n, rs.hd.n)
		}
		if rs.in.dead && rs.in.di.GetContext().Err() != nil {
			w.h.FailLocked("C08", "start-after-dispose", "resolver %d was started with a live context after its directive was disposed", rs.n)
		}
	}
	rs.ctx, rs.handler = ctx, handler
	rs.exited, rs.exitErr = false, nil
	rs.idle = false
	rs.busyAct, rs.rejected = true, false
	for _, v := range rs.vals {
		if !v.removed {
			rs.busyAct = false
		}
	}
	rs.cancelled = false
	w.h.Unlock()
	err := rs.run(ctx, handler, act)
	w.h.Lock()
	rs.running--
	if ctx.Err() != nil {
		rs.cancelled = true
	} else {
		rs.exited, rs.exitErr = true, err
		rs.idle = true
	}
	w.h.LogLocked("resolver %d: activation %d ends: %v (ctx %v)", rs.n, act, err, ctx.Err())
	w.h.Unlock()
	return err
}

func (rs *res) run(ctx context.Context, handler directive.ResolverHandler, act int) error {
	w := rs.w
	r := sim.NewRand(uint64(rs.seed)*31 + uint64(act))
	n := 1 + r.N(6)
	var mine []*val
	var valCbs, resCbs []*rcb
	for i := 0; i < n; i++ {
		sim.Yield()
		x := r.N(100)
		switch {
		case x < 40:
			if v := rs.addValue(ctx, handler); v != nil {
				mine = append(mine, v)
			}
		case x < 50:
			if len(mine) != 0 {
				v := mine[r.N(len(mine))]
				got, ok := handler.RemoveValue(v.id)
				w.h.Lock()
				w.h.LogLocked("resolver %d: RemoveValue(%d) = %v", rs.n, v.id, ok)
				if ok {
					if v.removed {
						w.h.FailLocked("C05", "removed-twice", "resolver %d removed value %d twice", rs.n, v.id)
					}
					if c, _ := got.(*cval); c == nil || c.v != v.v {
						w.h.FailLocked("C05", "removed-other", "RemoveValue returned another value")
					}
					v.removed = true
				} else if !v.removed && ctx.Err() == nil && !rs.hd.relCall && !rs.in.dead && !rs.subRel && !w.mayDieLocked(rs.in) {
					w.h.FailLocked("C05", "remove-lost", "resolver %d could not remove its own value %d", rs.n, v.id)
				}
				w.h.Unlock()
			}
		case x < 54:
			ids := handler.ClearValues()
			w.h.Lock()
			w.h.LogLocked("resolver %d: ClearValues = %v", rs.n, ids)
			for _, id := range ids {
				v := rs.vals[id]
				if v == nil || v.removed {
					w.h.FailLocked("C05", "clear-unknown", "ClearValues of resolver %d returned value %d, which it does not hold", rs.n, id)
					continue
				}
				v.removed = true
			}
			w.h.Unlock()
		case x < 66:
			rs.sleep(ctx, time.Duration(r.Pick(1, 10, 100, 500, 900, 1500))*time.Millisecond)
		case x < 76:
			idle := r.P(60)
			handler.MarkIdle(idle)
			w.h.Lock()
			if ctx.Err() == nil {
				rs.idle = idle
				rs.busyAct = false
			}
			w.h.LogLocked("resolver %d: MarkIdle(%v)", rs.n, idle)
			w.h.Unlock()
		case x < 84:
			if len(mine) != 0 {
				v := mine[r.N(len(mine))]
				n := 1
				if r.P(30) {
					n += r.N(4)
				}
				for ; n > 0; n-- {
					cb := &rcb{}
					w.h.Lock()
					v.cbs = append(v.cbs, cb)
					w.h.Unlock()
					cb.rel = handler.AddValueRemovedCallback(v.id, func() { w.called(cb, "value-removed") })
					valCbs = append(valCbs, cb)
					if r.P(30) {
						// release one of them, in any order
						j := r.N(len(valCbs))
						w.relCb(valCbs[j])
						valCbs = append(valCbs[:j], valCbs[j+1:]...)
					}
				}
			}
		case x < 90:
			cb := &rcb{}
			w.h.Lock()
			rs.cbs = append(rs.cbs, cb)
			w.h.Unlock()
			cb.rel = handler.AddResolverRemovedCallback(func() { w.called(cb, "resolver-removed") })
			resCbs = append(resCbs, cb)
			if r.P(25) {
				j := r.N(len(resCbs))
				w.relCb(resCbs[j])
				resCbs = append(resCbs[:j], resCbs[j+1:]...)
			}
		case x < 95:
			if rs.parent == nil || rs.parent.parent == nil {
				sub := w.newRes(rs.in, rs.hd, rs, rs.seed*11+i+1)
				rel := handler.AddResolver(sub, func() {
					w.h.Lock()
					sub.gone++
					w.h.LogLocked("resolver %d: removed callback of child %d", rs.n, sub.n)
					if sub.gone > 1 {
						w.h.FailLocked("C09", "child-removed-twice", "the removed callback of child resolver %d ran twice", sub.n)
					}
					w.h.Unlock()
				})
				w.h.Lock()
				sub.relFn = rel
				w.h.Unlock()
				if r.P(40) {
					if r.P(50) {
						rs.sleep(ctx, 50*time.Millisecond)
					}
					w.h.Lock()
					sub.subRel = true
					w.h.Unlock()
					rel()
					w.h.Lock()
					if sub.ctx != nil && sub.ctx.Err() == nil && !sub.exited {
						w.h.FailLocked("C09", "child-runs-after-release", "child resolver %d still has a live context after its release returned", sub.n)
					}
					w.h.Unlock()
				}
			}
		case x < 97:
			c := handler.CountValues(false)
			all := handler.CountValues(true)
			if c > all && ctx.Err() == nil {
				w.h.Fail("C05", "count", "CountValues reports %d own values but %d in total", c, all)
			}
		case x < 98:
			// absent callbacks and resolvers
			if len(mine) != 0 {
				handler.AddValueRemovedCallback(mine[0].id, nil)()
			}
			rel := handler.AddResolverRemovedCallback(nil)
			if r.P(50) {
				rel()
			}
			handler.AddResolver(nil, nil)()
			called := 0
			handler.AddResolver(nil, func() { called++ })()
			if called != 1 {
				w.h.Fail("C09", "child-callback", "the removed callback of an absent child resolver ran %d times", called)
			}
		default:
			w.h.Fault("resolver-slow-to-stop")
			sim.Sleep(time.Duration(r.Pick(5, 50, 400)) * time.Millisecond) // ignores cancellation
		}
	}
	switch y := r.N(100); {
	case y < 45:
		<-ctx.Done()
		if r.P(30) {
			w.h.Fault("resolver-slow-to-stop")
			sim.Sleep(time.Duration(r.Pick(1, 20, 300)) * time.Millisecond)
		}
		return ctx.Err()
	case y < 65:
		w.h.Fault("resolver-error")
		return errRes
	}
	return nil
}

func (rs *res) sleep(ctx context.Context, d time.Duration) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ctx.Done():
	case <-t.C:
	}
}

func (rs *res) addValue(ctx context.Context, handler directive.ResolverHandler) *val {
	w := rs.w
	w.h.Lock()
	w.nval++
	c := &cval{v: w.nval, res: rs}
	o := coreOpts(rs.in.key)
	// Values that may be attached at any time during the call.
	may := 0
	for _, x := range rs.in.res {
		for _, v := range x.vals {
			if !v.removed {
				may++
			}
		}
	}
	gen := w.nval
	live := ctx.Err() == nil && rs.in.adding == 0
	rs.in.adding++
	w.h.Unlock()
	id, ok := handler.AddValue(c)
	w.h.Lock()
	defer w.h.Unlock()
	rs.in.adding--
	w.h.LogLocked("resolver %d: AddValue = %d %v", rs.n, id, ok)
	if !ok {
		rs.rejected = rs.rejected || rs.busyAct
		if live && ctx.Err() == nil {
			if !o.MaxValueHardCap {
				w.h.FailLocked("C05", "rejected", "resolver %d: AddValue was rejected although no hard cap applies and the resolver runs", rs.n)
			} else if may < o.MaxValueCount && gen == w.nval {
				w.h.FailLocked("C06", "rejected-below-cap", "resolver %d: AddValue was rejected with at most %d of %d values attached", rs.n, may, o.MaxValueCount)
			}
		}
		return nil
	}
	if id == 0 {
		w.h.FailLocked("C05", "id-zero", "AddValue accepted a value with id 0")
	}
	for _, x := range rs.in.res {
		if _, dup := x.vals[id]; dup {
			w.h.FailLocked("C05", "id-reuse", "AddValue returned id %d twice on instance %d", id, rs.in.n)
		}
	}
	rs.busyAct = false
	v := &val{id: id, v: c.v}
	rs.vals[id] = v
	return v
}

func (w *world) called(cb *rcb, kind string) {
	w.h.Lock()
	cb.calls++
	if cb.calls > 1 {
		w.h.FailLocked("C09", kind+"-twice", "a %s callback ran %d times", kind, cb.calls)
	}
	w.h.Unlock()
	w.stall("direct-" + kind + "-callback")
}

func (w *world) relCb(cb *rcb) {
	sim.Yield()
	w.h.Lock()
	cb.released = true
	w.h.Unlock()
	cb.rel()
}

// --- client operations

func (w *world) addRef(in *inst, r *ref) {
	w.h.Lock()
	if r.in == nil {
		r.in = in
		in.refs = append(in.refs, r)
	}
	w.h.Unlock()
	rf := in.di.AddReference(r.asHandler(), r.weak)
	w.h.Lock()
	r.ref = rf
	if rf == nil {
		w.h.FailLocked("C02", "nil-reference", "AddReference returned nil")
	}
	if in.di.GetContext().Err() == nil && r.disposed == 0 {
		r.held = true
	}
	w.h.Unlock()
}

func (w *world) release(r *ref) {
	w.h.Lock()
	if r.released || r.ref == nil {
		w.h.Unlock()
		return
	}
	w.checkHeldLocked(r.in, "before release")
	r.released, r.held = true, false
	if !r.weak && r.in.di.GetContext().Err() == nil {
		r.in.relAt, r.in.anyRel = sim.Now(), true
	}
	w.h.Unlock()
	r.ref.Release()
	w.h.Lock()
	r.relDone = true
	w.h.Unlock()
}

func (w *world) addIdle(in *inst, sl *slotRec) {
	ir := &idleRec{in: in}
	w.h.Lock()
	in.idles = append(in.idles, ir)
	w.h.Unlock()
	rel := in.di.AddIdleCallback(func(isIdle bool, errs []error) {
		w.h.Lock()
		w.h.LogLocked("idle callback of instance %d: %v errs=%d", in.n, isIdle, len(errs))
		if ir.calls > 0 && ir.last == isIdle {
			w.h.FailLocked("C07", "repeated", "an idle callback of instance %d was told %v twice in a row", in.n, isIdle)
		}
		ir.calls++
		ir.last = isIdle
		ir.lastErrs = len(errs)
		if cr := in.creat; isIdle && cr != nil && !cr.done {
			for _, hd := range cr.pre {
				if !hd.relCall && in.calls[hd] != in.answers[hd] || !hd.relCall && in.calls[hd] == 0 {
					w.h.FailLocked("C07", "idle-before-offered", "instance %d was reported idle before handler %d had answered", in.n, hd.n)
				}
			}
		}
		w.h.Unlock()
		w.stall("idle-callback")
	})
	w.h.Lock()
	ir.rel = rel
	if sl != nil {
		sl.idle = append(sl.idle, ir)
	}
	w.h.Unlock()
}

func (w *world) do(op sim.Op, at func(string)) {
	h := w.h
	at(op.String())
	h.Count(op.K)
	slot := func(i int) *slotRec {
		h.Lock()
		defer h.Unlock()
		s := w.slots[i]
		if s == nil {
			s = &slotRec{}
			w.slots[i] = s
		}
		return s
	}
	instOf := func(s *slotRec) *inst {
		h.Lock()
		defer h.Unlock()
		return s.inst
	}
	switch op.K {
	case "add":
		key, ver := op.Arg(0), op.Arg(2)
		sl := slot(op.Arg(1))
		dir := newCoreDir(key, ver)
		r := w.newRef(false, op.Arg(3) != 0)
		self := simSelf()
		cr := &creating{key: key}
		h.Lock()
		for _, hd := range w.hnds {
			if hd.addDone && !hd.relCall {
				cr.pre = append(cr.pre, hd)
			}
		}
		w.creator[self] = cr
		if coreSup(key) && ver > w.maxVer[key] {
			w.maxVer[key] = ver
		}
		// Instances of this key certainly alive throughout the call.
		var before []*inst
		for _, in := range w.ilist {
			if in.key == key && !in.dead {
				before = append(before, in)
			}
		}
		h.Unlock()
		di, rf, err := w.ctrl.AddDirective(dir, r.asHandler())
		h.Lock()
		cr.done = true
		delete(w.creator, self)
		if err != nil || di == nil || rf == nil {
			h.FailLocked("C01", "add-failed", "AddDirective returned %v %v %v", di, rf, err)
			h.Unlock()
			return
		}
		in := w.instLocked(di)
		h.LogLocked("instance %d (key %d ver %d) reference %d", in.n, in.key, in.ver, r.n)
		if r.in == nil {
			r.in = in
			in.refs = append(in.refs, r)
		}
		r.ref = rf
		r.held = true
		r.first = di.GetDirective() == dir
		if in.key != key {
			h.FailLocked("C01", "merged-different", "a directive of key %d was merged into an instance of key %d", key, in.key)
		}
		if key == 0 && di.GetDirective() != dir {
			h.FailLocked("C01", "merged-plain", "a directive without equivalence was merged into another instance")
		}
		if coreSup(key) && in.ver < ver {
			h.FailLocked("C01", "not-superseded", "AddDirective of version %d joined version %d instead of replacing it", ver, in.ver)
		}
		if key != 0 {
			for _, o := range before {
				if o == in || w.mayDieLocked(o) {
					continue
				}
				for _, or := range o.refs {
					if or.held && !or.weak && or != r {
						h.FailLocked("C01", "two-equivalent", "instances %d and %d of equivalent directives are alive at once", o.n, in.n)
						break
					}
				}
			}
		}
		w.checkHeldLocked(in, "after AddDirective")
		sl.inst = in
		sl.refs = append(sl.refs, r)
		h.Unlock()
	case "rel":
		sl := slot(op.Arg(0))
		h.Lock()
		var r *ref
		if n := len(sl.refs); n != 0 {
			i := op.Arg(1) % n
			r = sl.refs[i]
			sl.refs = append(sl.refs[:i:i], sl.refs[i+1:]...)
		}
		h.Unlock()
		if r != nil {
			w.release(r)
		}
	case "addref":
		sl := slot(op.Arg(0))
		if in := instOf(sl); in != nil {
			r := w.newRef(op.Arg(1) == 1, op.Arg(2) != 0)
			w.addRef(in, r)
			h.Lock()
			sl.refs = append(sl.refs, r)
			h.Unlock()
		}
	case "close":
		if in := instOf(slot(op.Arg(0))); in != nil {
			h.Lock()
			in.killers++
			h.Unlock()
			h.Fault("directive-closed")
			in.di.Close()
			if in.di.GetContext().Err() == nil {
				h.Fail("C02", "close-alive", "the context of instance %d is live after Close", in.n)
			}
		}
	case "ciu":
		if in := instOf(slot(op.Arg(0))); in != nil {
			h.Lock()
			in.cius++
			// A held weak reference keeps the instance when weak references count.
			var weak *ref
			for _, r := range in.refs {
				if r.held && r.weak && op.Arg(1) == 1 && in.cius == 1 && !in.dead && !w.mayDieLocked(in) && in.di.GetContext().Err() == nil {
					weak = r
				}
			}
			h.Unlock()
			closed := in.di.CloseIfUnreferenced(op.Arg(1) == 1)
			h.Lock()
			if closed && in.di.GetContext().Err() == nil {
				h.FailLocked("C02", "close-alive", "CloseIfUnreferenced reported closed but instance %d is alive", in.n)
			}
			if closed && weak != nil && weak.held && in.cius == 1 && !w.mayDieLocked(in) {
				o := coreOpts(in.key)
				if !in.anyRel || o.UnrefDisposeDur != 0 && !o.UnrefDisposeEmptyImmediate && sim.Now() < in.relAt+o.UnrefDisposeDur {
					h.FailLocked("C02", "close-weak", "CloseIfUnreferenced counting weak references closed a referenced instance")
				}
			}
			w.checkHeldLocked(in, "after CloseIfUnreferenced")
			h.Unlock()
		}
	case "idle":
		sl := slot(op.Arg(0))
		if in := instOf(sl); in != nil {
			w.addIdle(in, sl)
		}
	case "unidle":
		sl := slot(op.Arg(0))
		h.Lock()
		var ir *idleRec
		if n := len(sl.idle); n != 0 {
			ir = sl.idle[0]
			sl.idle = sl.idle[1:]
			ir.released = true
		}
		h.Unlock()
		if ir != nil {
			ir.rel()
		}
	case "disp":
		sl := slot(op.Arg(0))
		if in := instOf(sl); in != nil {
			d := &dispRec{in: in}
			h.Lock()
			in.disps = append(in.disps, d)
			h.Unlock()
			rel := in.di.AddDisposeCallback(func() {
				h.Lock()
				d.calls++
				if d.calls > 1 {
					h.FailLocked("C02", "dispose-callback-twice", "a dispose callback of instance %d ran twice", in.n)
				}
				w.deadLocked(in, "dispose callback")
				h.Unlock()
				w.stall("direct-dispose-callback")
			})
			h.Lock()
			d.rel = rel
			sl.disp = append(sl.disp, d)
			h.Unlock()
		}
	case "undisp":
		sl := slot(op.Arg(0))
		h.Lock()
		var d *dispRec
		if n := len(sl.disp); n != 0 {
			d = sl.disp[0]
			sl.disp = sl.disp[1:]
			d.released = true
		}
		h.Unlock()
		if d != nil {
			d.rel()
		}
	case "hadd":
		hd := &hnd{w: w, mask: op.Arg(1), nres: op.Arg(2), beh: op.Arg(3), seed: op.Arg(4)}
		h.Lock()
		hd.n = len(w.hnds)
		w.hnds = append(w.hnds, hd)
		h.Unlock()
		rel, err := w.ctrl.AddHandler(hd)
		h.Lock()
		if err != nil || rel == nil {
			h.FailLocked("C03", "add-handler", "AddHandler returned %v", err)
		}
		hd.rel = rel
		hd.addDone = true
		w.hslots[op.Arg(0)] = hd
		h.Unlock()
	case "hrel":
		h.Lock()
		hd := w.hslots[op.Arg(0)]
		if hd != nil {
			delete(w.hslots, op.Arg(0))
		}
		h.Unlock()
		if hd != nil {
			w.relHandler(hd)
		}
	case "sleep":
		sim.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
	case "list":
		dis := w.ctrl.GetDirectives()
		h.Lock()
		byKey := map[int]*inst{}
		for _, di := range dis {
			in := w.instLocked(di)
			if in.key == 0 {
				continue
			}
			if o := byKey[in.key]; o != nil {
				h.FailLocked("C01", "two-listed", "GetDirectives lists two instances of equivalent directives (key %d)", in.key)
			}
			byKey[in.key] = in
		}
		h.Unlock()
	}
}

func (w *world) relHandler(hd *hnd) {
	h := w.h
	h.Lock()
	hd.relCall = true
	h.Unlock()
	h.Fault("handler-removed")
	hd.rel()
	h.Lock()
	hd.relDone = true
	for _, rs := range hd.res {
		if rs.ctx != nil && rs.ctx.Err() == nil && !rs.exited {
			h.FailLocked("C04", "runs-after-release", "resolver %d still has a live context after the release of handler %d returned", rs.n, hd.n)
		}
	}
	h.Unlock()
}

// Exec runs the scenario.
func (Core) Exec(h *sim.H, s *sim.Script) {
	ctx, cancel := context.WithCancel(context.Background())
	w := &world{h: h, p: s.P, ctx: ctx, ctrl: dcontroller.NewController(ctx, h.Le),
		insts: map[directive.Instance]*inst{}, hslots: map[int]*hnd{}, slots: map[int]*slotRec{},
		maxVer: map[int]int{}, creator: map[uint64]*creating{}, rnd: sim.NewRand(h.Seed ^ 77)}
	curWorld = w
	for _, op := range s.Tasks[0] {
		w.do(op, func(string) {})
	}
	for i, ops := range s.Tasks[1:] {
		h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
			for _, op := range ops {
				sim.Yield()
				w.do(op, at)
			}
		})
	}
	if !h.MustJoin("C15", 10*time.Minute) {
		return
	}
	h.Lock()
	w.p = map[string]int{}
	h.Unlock()
	h.Quiesce(time.Minute)
	w.checkQuiet()
	if s.P["refill"] == 1 && !w.refill() {
		return
	}

	// Release every reference: everything must go away.
	h.Go("release-all", func(at func(string)) {
		h.Lock()
		var rs []*ref
		for _, in := range w.ilist {
			rs = append(rs, in.refs...)
		}
		h.Unlock()
		for _, r := range rs {
			at(fmt.Sprint("release ", r.n))
			w.release(r)
		}
	})
	if !h.MustJoin("C15", time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	w.checkGone()
	w.h.Lock()
	w.ending = true
	w.h.Unlock()
	cancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C08"
}

func (rs *res) attachedLocked() bool {
	if rs.hd.relCall || rs.in.dead || rs.in.di.GetContext().Err() != nil || rs.subRel || rs.gone > 0 {
		return false
	}
	if !rs.isSub && (rs.hd.beh == 1 || rs.hd.beh == 2) {
		return false
	}
	return true
}

// refill fills the capped directives and then takes values away until they are
// below the cap, while nothing else happens.
func (w *world) refill() bool {
	h := w.h
	rnd := sim.NewRand(h.Seed ^ 99)
	capped := func(each func(in *inst, live []*res)) {
		h.Lock()
		ilist := append([]*inst(nil), w.ilist...)
		h.Unlock()
		for _, in := range ilist {
			if coreOpts(in.key).MaxValueCount == 0 || in.di.GetContext().Err() != nil {
				continue
			}
			var live []*res
			h.Lock()
			for _, rs := range in.res {
				if rs.attachedLocked() && rs.running > 0 && rs.ctx.Err() == nil {
					live = append(live, rs)
				}
			}
			h.Unlock()
			if len(live) != 0 {
				each(in, live)
			}
		}
	}
	h.Go("fill", func(at func(string)) {
		capped(func(in *inst, live []*res) {
			for n := coreOpts(in.key).MaxValueCount + rnd.N(2) - in.count(); n > 0; n-- {
				rs := live[rnd.N(len(live))]
				at(fmt.Sprintf("add a value with resolver %d", rs.n))
				rs.addValue(rs.ctx, rs.handler)
			}
		})
	})
	if !h.MustJoin("C15", time.Minute) {
		return false
	}
	h.Quiesce(time.Minute)
	w.checkQuiet()
	failed := map[*res]int{}
	h.Lock()
	for _, in := range w.ilist {
		if in.countLocked() < coreOpts(in.key).MaxValueCount {
			continue
		}
		for _, rs := range in.res {
			if rs.attachedLocked() && rs.exited && rs.exitErr != nil {
				failed[rs] = rs.starts
			}
		}
	}
	h.Unlock()
	h.Go("empty", func(at func(string)) {
		capped(func(in *inst, live []*res) {
			for _, rs := range live {
				h.Lock()
				var ids []uint32
				for id, v := range rs.vals {
					if !v.removed {
						ids = append(ids, id)
					}
				}
				slices.Sort(ids)
				h.Unlock()
				for _, id := range ids {
					if in.count() < coreOpts(in.key).MaxValueCount && rnd.P(50) {
						break
					}
					at(fmt.Sprintf("remove value %d of resolver %d", id, rs.n))
					if _, ok := rs.handler.RemoveValue(id); ok {
						h.Lock()
						rs.vals[id].removed = true
						h.Unlock()
					}
				}
			}
		})
	})
	if !h.MustJoin("C15", time.Minute) {
		return false
	}
	h.Quiesce(time.Minute)
	w.checkQuiet()
	h.Lock()
	defer h.Unlock()
	for _, rs := range w.allres() {
		if n, ok := failed[rs]; ok && rs.starts == n && rs.attachedLocked() && rs.in.countLocked() < coreOpts(rs.in.key).MaxValueCount {
			h.FailLocked("C06", "failed-forgotten", "instance %d fell below its value count but resolver %d (activations %d), which had failed, did not run again", rs.in.n, rs.n, rs.starts)
		}
	}
	return true
}

// allres returns the resolvers.
func (w *world) allres() []*res {
	var out []*res
	for _, in := range w.ilist {
		out = append(out, in.res...)
	}
	return out
}

// count returns the number of attached values.
func (in *inst) count() int {
	h := curWorld.h
	h.Lock()
	defer h.Unlock()
	return in.countLocked()
}

func (in *inst) countLocked() int {
	n := 0
	for _, rs := range in.res {
		if rs.attachedLocked() {
			for _, v := range rs.vals {
				if !v.removed {
					n++
				}
			}
		}
	}
	return n
}

// checkQuiet judges the state after faults stopped and everything settled,
// while references are still held.
func (w *world) checkQuiet() {
	h := w.h
	dis := w.ctrl.GetDirectives()
	listed := map[directive.Instance]bool{}
	for _, di := range dis {
		listed[di] = true
	}
	errsOf := map[*inst]int{}
	h.Lock()
	ilist := append([]*inst(nil), w.ilist...)
	h.Unlock()
	for _, in := range ilist {
		errsOf[in] = len(in.di.GetResolverErrors())
	}
	h.Lock()
	defer h.Unlock()
	st := uint64(len(w.ilist))
	for _, in := range w.ilist {
		alive := in.di.GetContext().Err() == nil
		held := 0
		for _, r := range in.refs {
			if r.ref != nil && !r.released && !r.weak {
				held++
			}
		}
		st = sim.Mix(st*31 + uint64(in.key)*7 + uint64(held))
		if listed[in.di] != alive {
			h.FailLocked("C02", "listing", "instance %d: alive=%v but listed=%v", in.n, alive, listed[in.di])
		}
		if alive && held == 0 {
			h.FailLocked("C02", "not-disposed", "instance %d (key %d) has no counted reference and was not disposed a minute later", in.n, in.key)
		}
		if !alive {
			for _, r := range in.refs {
				if r.ref != nil && r.handler && !r.released && r.disposed != 1 {
					h.FailLocked("C02", "dispose-missing", "reference %d of disposed instance %d received %d disposal notices", r.n, in.n, r.disposed)
				}
				if r.ref != nil && r.handler && !r.released && len(r.cur) != 0 {
					h.FailLocked("C05", "dead-values", "reference %d of disposed instance %d still holds values %v", r.n, in.n, r.cur)
				}
			}
			for _, d := range in.disps {
				if !d.released && d.calls != 1 {
					h.FailLocked("C02", "dispose-callback-missing", "a dispose callback of disposed instance %d ran %d times", in.n, d.calls)
				}
			}
			continue
		}
		for _, d := range in.disps {
			if d.calls != 0 {
				h.FailLocked("C02", "dispose-callback-early", "a dispose callback of live instance %d ran", in.n)
			}
		}
		for _, r := range in.refs {
			if r.disposed != 0 {
				h.FailLocked("C02", "dispose-live", "reference %d of live instance %d was told of a disposal", r.n, in.n)
			}
		}
		// Every live handler was asked exactly once.
		for _, hd := range w.hnds {
			if hd.addDone && !hd.relCall && in.calls[hd] != 1 {
				h.FailLocked("C03", "not-offered", "handler %d was asked %d times for live instance %d", hd.n, in.calls[hd], in.n)
			}
		}
		// Values.
		want := map[uint32]int{}
		busy := 0
		nerr, atWork := 0, 0
		for _, rs := range in.res {
			att := rs.attachedLocked()
			if att {
				for id, v := range rs.vals {
					if !v.removed {
						want[id] = v.v
					}
				}
			}
		}
		o := coreOpts(in.key)
		full := o.MaxValueCount != 0 && len(want) >= o.MaxValueCount
		for _, rs := range in.res {
			att := rs.attachedLocked()
			if !att {
				if rs.ctx != nil && rs.ctx.Err() == nil && !rs.exited {
					h.FailLocked("C04", "detached-runs", "resolver %d was removed but its context is live", rs.n)
				}
				continue
			}
			liveAct := rs.running > 0 && rs.ctx.Err() == nil
			if liveAct && !rs.idle {
				busy++
				if rs.busyAct {
					atWork++
				}
			}
			if rs.exited && rs.exitErr != nil {
				nerr++
			}
			nvals := 0
			for _, v := range rs.vals {
				if !v.removed {
					nvals++
				}
			}
			st = sim.Mix(st*17 + uint64(nvals)*2 + uint64(rs.starts))
			switch {
			case o.MaxValueCount == 0:
				if rs.starts == 0 || (!rs.exited && !liveAct) {
					h.FailLocked("C08", "not-running", "resolver %d of live instance %d is attached but neither running nor finished (activations %d)", rs.n, in.n, rs.starts)
				}
			case full:
				if liveAct && nvals == 0 && rs.busyAct {
					h.FailLocked("C06", "runs-at-cap", "resolver %d without values keeps running although instance %d reached its value count", rs.n, in.n)
				}
			default:
				if !rs.exited && !liveAct {
					h.FailLocked("C06", "not-restarted", "instance %d is below its value count but resolver %d (activations %d) is stopped", in.n, rs.n, rs.starts)
				} else if rs.exited && rs.rejected {
					h.FailLocked("C06", "refused-forgotten", "instance %d is below its value count but resolver %d (activations %d), whose value was refused at the cap, never ran again", in.n, rs.n, rs.starts)
				}
			}
		}
		for _, r := range in.refs {
			if r.ref == nil || r.released || !r.handler {
				continue
			}
			if len(want) != len(r.cur) || fmt.Sprint(want) != fmt.Sprint(r.cur) {
				h.FailLocked("C05", "wrong-set", "reference %d of instance %d holds values %v, the attached values are %v", r.n, in.n, r.cur, want)
			}
		}
		for _, ir := range in.idles {
			if ir.released || ir.rel == nil {
				continue
			}
			// (resolvers with values are marked idle when the cap is reached)
			if full && atWork == 0 {
				continue
			}
			if idle := busy == 0; ir.calls == 0 || ir.last != idle && (o.MaxValueCount == 0 || idle || atWork != 0) {
				h.FailLocked("C07", "wrong-state", "an idle callback of instance %d last heard %v (calls %d) while %d resolvers are busy", in.n, ir.last, ir.calls, busy)
			}
		}
		if errsOf[in] != nerr && !full {
			h.FailLocked("C07", "errors", "GetResolverErrors of instance %d returns %d errors, %d resolvers failed", in.n, errsOf[in], nerr)
		}
		w.checkCallbacksLocked(in)
	}
	for k := range listed {
		if w.insts[k] == nil {
			h.FailLocked("C01", "unknown-instance", "GetDirectives lists an instance nobody created")
		}
	}
	h.StateLocked(st)
}

// checkCallbacksLocked: removal callbacks ran once iff their subject is gone.
func (w *world) checkCallbacksLocked(in *inst) {
	h := w.h
	for _, rs := range in.res {
		att := rs.attachedLocked()
		if rs.isSub && rs.relFn != nil {
			if (rs.subRel || rs.hd.relCall || in.dead) && rs.gone != 1 {
				h.FailLocked("C09", "child-callback", "child resolver %d is gone, its removed callback ran %d times", rs.n, rs.gone)
			}
		}
		for _, cb := range rs.cbs {
			if cb.released {
				continue
			}
			if att && cb.calls != 0 && !rs.cancelled && rs.starts == 1 {
				h.FailLocked("C09", "resolver-callback-early", "a resolver-removed callback of attached resolver %d ran", rs.n)
			}
			if !att && cb.calls != 1 {
				h.FailLocked("C09", "resolver-callback", "resolver %d is gone, its removed callback ran %d times", rs.n, cb.calls)
			}
		}
		for _, v := range rs.vals {
			gone := v.removed || !att
			for _, cb := range v.cbs {
				if cb.released {
					continue
				}
				if gone && cb.calls != 1 {
					h.FailLocked("C09", "value-callback", "value %d of resolver %d is gone, its removed callback ran %d times", v.id, rs.n, cb.calls)
				}
				if !gone && cb.calls != 0 && rs.starts == 1 && !rs.cancelled {
					h.FailLocked("C09", "value-callback-early", "the removed callback of attached value %d ran", v.id)
				}
			}
		}
	}
}

// checkGone judges the state after every reference was released.
func (w *world) checkGone() {
	h := w.h
	dis := w.ctrl.GetDirectives()
	h.Lock()
	defer h.Unlock()
	if len(dis) != 0 {
		h.FailLocked("C02", "not-disposed", "%d directives remain a minute after every reference was released", len(dis))
	}
	for _, in := range w.ilist {
		if in.di.GetContext().Err() == nil {
			h.FailLocked("C02", "not-disposed", "instance %d is alive without references", in.n)
			continue
		}
		in.dead = true
		for _, d := range in.disps {
			if !d.released && d.calls != 1 {
				h.FailLocked("C02", "dispose-callback-missing", "a dispose callback of disposed instance %d ran %d times", in.n, d.calls)
			}
		}
		for _, rs := range in.res {
			if rs.running > 0 {
				h.FailLocked("C08", "runs-after-dispose", "resolver %d still runs a minute after its directive was disposed (ctx %v)", rs.n, rs.ctx.Err())
			}
		}
		w.checkCallbacksLocked(in)
	}
}
