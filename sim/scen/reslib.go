package scen

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sync"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
	"github.com/aperturerobotics/util/ccontainer"
	"github.com/aperturerobotics/util/keyed"
	"github.com/aperturerobotics/util/refcount"
	"github.com/blang/semver/v4"

	"verifsim/sim"
)

// ResLib resolves directives with the resolvers of the library while their
// sources change, fail and are released.
type ResLib struct{}

func (ResLib) Name() string { return "reslib" }

// kinds of resolvers
const (
	rlValue = iota
	rlGetter
	rlAccess
	rlKeyedGetter
	rlRefCount
	rlKeyedRefCount
	rlWatch
	rlWatchXfrm
	rlList
	rlListXfrm
	rlMap
	rlMapXfrm
	rlXfrm
	rlXfrmNil
	rlTyped
	rlPassThru
	rlBusXfrm
	rlBusXfrmNil
	rlRetry
	rlRetryStop
	rlKinds
)

var rlNames = []string{"value", "getter", "access", "keyed-getter", "refcount", "keyed-refcount", "watchable", "watchable-transform",
	"list", "list-transform", "map", "map-transform", "transform", "transform-nil", "typed-transform", "pass-thru", "bus-transform", "bus-transform-nil", "retry", "retry-stop"}

func (ResLib) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{"salt": r.N(1 << 20)}}
	s.P["linger"] = r.Pick(0, 0, 1)
	s.P["max"] = r.Pick(0, 0, 0, 0, 1, 2)
	s.P["fails"] = r.Pick(0, 0, 0, 8, 15)
	kinds := []int{r.N(rlKinds), r.N(rlKinds)}
	s.P["k0"], s.P["k1"] = kinds[0], kinds[1]
	for t, nt := 0, 2+r.N(3); t < nt; t++ {
		var ops []sim.Op
		for i, n := 0, 3+r.N(10); i < n; i++ {
			kind := kinds[r.N(2)]
			switch x := r.N(100); {
			case x < 22 || i == 0 && x < 70:
				ops = append(ops, sim.Op{K: "ref", A: []int{r.N(4), kind}})
			case x < 36:
				ops = append(ops, sim.Op{K: "rel", A: []int{r.N(4)}})
			case x < 80 || i == 0:
				ops = append(ops, sim.Op{K: "set", A: []int{kind, r.N(4), r.Pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14)}})
			case x < 83:
				ops = append(ops, sim.Op{K: "close", A: []int{kind}})
			case x < 85:
				ops = append(ops, sim.Op{K: "closesrc", A: []int{kind}})
			case x < 88:
				ops = append(ops, sim.Op{K: "restart"})
			default:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 10, 300, 1500)}})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

// rlv is a value of a source or a value made of one.
type rlv struct {
	kind, n  int
	uid      int
	counted  bool // has a release function
	releases int
	relAt    int
}

// rldir asks for the values of a resolver, or of its source.
type rldir struct {
	w    *rlworld
	kind int
	src  bool
}

func (d *rldir) Validate() error { return nil }
func (d *rldir) GetValueOptions() directive.ValueOptions {
	var o directive.ValueOptions
	if d.src {
		return o
	}
	if d.w.linger {
		o.UnrefDisposeDur = 2 * time.Second
	}
	o.MaxValueCount = d.w.max
	o.MaxValueHardCap = d.w.max == 1
	return o
}
func (d *rldir) GetName() string { return "rldir" }
func (d *rldir) IsEquivalent(o directive.Directive) bool {
	od, ok := o.(*rldir)
	return ok && od.kind == d.kind && od.src == d.src
}

// rlsrc is the source of a resolver.
type rlsrc struct {
	overlap bool
	kind    int
	// n is the current value, if any
	n int
	// list is what a multi-value source has, by slot
	list [4]int
	// last is what the getter returned last
	last *rlv
	// released of the last call of the getter
	released func()
	tries    int
	bo       rlbackoff
	backoff  time.Duration
	calls    int
	changed  chan struct{}
	// run of the resolver
	running int
	runs    int
	err     error
	// resolver of the source directive
	srcUp bool

	ctr  *ccontainer.CContainer[*rlv]
	rc   *refcount.RefCount[*rlv]
	krc  *keyed.KeyedRefCount[int, *rlv]
	vals []*rlv
}

type rlworld struct {
	h      *sim.H
	ctx    context.Context
	b      bus.Bus
	linger bool
	max    int
	fails  int
	srcs   map[int]*rlsrc
	vals   []*rlv
	refs   []*rlref
	slots  map[int]*rlref
	seq    int
	rel    func()
	rnd    *sim.Rand
}

var errSource = errors.New("source failed")

// newVal makes a value; h is locked.
func (w *rlworld) newVal(kind, n int, counted bool) *rlv {
	v := &rlv{kind: kind, n: n, uid: len(w.vals), counted: counted}
	w.vals = append(w.vals, v)
	return v
}

// relFn returns the release function of a value.
func (w *rlworld) relFn(v *rlv) func() {
	return func() {
		w.h.Lock()
		w.seq++
		v.releases++
		v.relAt = w.seq
		w.h.LogLocked("%s value %d (%d) released", rlNames[v.kind], v.uid, v.n)
		if v.releases > 1 {
			w.h.FailLocked("C18", "released-twice", "value %d of %s was released %d times", v.uid, rlNames[v.kind], v.releases)
		}
		w.h.Unlock()
		sim.Yield()
	}
}

// get is the getter of a source.
func (w *rlworld) get(ctx context.Context, s *rlsrc, released func()) (*rlv, func(), error) {
	sim.Yield()
	h := w.h
	h.Lock()
	s.calls++
	if w.fails != 0 && s.calls%w.fails == w.fails-1 {
		if ctx.Err() == nil {
			s.last, s.released = nil, nil
		}
		h.LogLocked("getter of %s fails", rlNames[s.kind])
		var v *rlv
		if s.calls&1 == 1 && s.kind != rlGetter {
			v = w.newVal(s.kind, -1, true)
		}
		h.Unlock()
		h.Fault("source-error")
		if v != nil {
			return nil, w.relFn(v), errSource
		}
		return nil, nil, errSource
	}
	n := s.n
	if n == 0 && s.kind != rlKeyedGetter {
		n = 100
	}
	if n == 0 {
		if ctx.Err() == nil {
			s.last, s.released = nil, nil
		}
		h.Unlock()
		return nil, nil, nil
	}
	v := w.newVal(s.kind, n, true)
	if ctx.Err() == nil {
		s.last, s.released = v, released
	}
	h.LogLocked("getter of %s returns value %d (%d)", rlNames[s.kind], v.uid, n)
	now := s.calls%4 == 3 && released != nil
	h.Unlock()
	if now {
		// the source is released while it is returned
		h.Fault("released-early")
		released()
	}
	sim.Yield()
	return v, w.relFn(v), nil
}

// xfrm transforms a value of a source; h is not locked.
func (w *rlworld) xfrm(s *rlsrc, n int) (*rlv, func(), bool, error) {
	sim.Yield()
	w.h.Lock()
	defer w.h.Unlock()
	switch {
	case n%7 == 0 && w.fails != 0:
		v := w.newVal(s.kind, n, true)
		return nil, w.relFn(v), false, errSource
	case n%5 == 0:
		v := w.newVal(s.kind, n, true)
		return nil, w.relFn(v), false, nil
	}
	v := w.newVal(s.kind, n+1000, true)
	return v, w.relFn(v), true, nil
}

// ident is the value of number n without a release function.
func (w *rlworld) ident(kind, n int) *rlv {
	w.h.Lock()
	defer w.h.Unlock()
	return w.newVal(kind, n, false)
}

// rlres wraps a resolver and notes when it runs.
type rlres struct {
	w   *rlworld
	s   *rlsrc
	res directive.Resolver
}

func (r *rlres) Resolve(ctx context.Context, hnd directive.ResolverHandler) error {
	r.w.h.Lock()
	r.s.running++
	run := -1
	if ctx.Err() == nil {
		r.s.runs++
		run = r.s.runs
		r.s.err = nil
	}
	r.w.h.LogLocked("%s resolver starts", rlNames[r.s.kind])
	if r.s.running > 1 {
		r.w.h.CountLocked("overlap")
		r.s.overlap = true
	}
	r.w.h.Unlock()
	err := r.res.Resolve(ctx, hnd)
	r.w.h.Lock()
	r.s.running--
	if run == r.s.runs {
		r.s.err = err
	}
	r.w.h.LogLocked("%s resolver returns %v", rlNames[r.s.kind], err)
	r.w.h.Unlock()
	return err
}

// resolver builds the resolver of a kind.
func (w *rlworld) resolver(kind int) directive.Resolver {
	s := w.srcs[kind]
	getter := func(ctx context.Context, released func()) (*rlv, func(), error) { return w.get(ctx, s, released) }
	listen := func(fn func() error) func(ctx context.Context, hnd directive.ResolverHandler) error {
		return func(ctx context.Context, hnd directive.ResolverHandler) error {
			for {
				w.h.Lock()
				ch := s.changed
				w.h.Unlock()
				if err := fn(); err != nil {
					return err
				}
				hnd.MarkIdle(true)
				select {
				case <-ctx.Done():
					return context.Canceled
				case <-ch:
				}
			}
		}
	}
	src := &rldir{w: w, kind: kind, src: true}
	xfrmAV := func(ctx context.Context, av directive.AttachedValue) (*rlv, func(), bool, error) {
		sv, _ := av.GetValue().(*rlv)
		if sv == nil {
			return nil, nil, false, nil
		}
		return w.xfrm(s, sv.n)
	}
	handle := func(build func(hnd directive.ResolverHandler, dispose func()) directive.ReferenceHandler) directive.Resolver {
		return directive.NewFuncResolver(func(ctx context.Context, hnd directive.ResolverHandler) error {
			hnd.ClearValues()
			sub, cancel := context.WithCancel(ctx)
			defer cancel()
			_, ref, err := w.b.AddDirective(src, build(hnd, cancel))
			if err != nil {
				return err
			}
			hnd.MarkIdle(true)
			<-sub.Done()
			ref.Release()
			// the handler removed the values if the directive was closed
			return errSource
		})
	}
	key := func(v *rlv) int { return v.uid }
	cmp := func(k int, a, b *rlv) bool { return a.n == b.n }
	// lists keep one value by slot
	items := func() []*rlv {
		w.h.Lock()
		defer w.h.Unlock()
		var out []*rlv
		for i, n := range s.list {
			if n != 0 {
				out = append(out, &rlv{kind: kind, n: n, uid: i})
			}
		}
		return out
	}
	mapped := func(vals []*rlv) map[int]*rlv {
		m := map[int]*rlv{}
		for _, v := range vals {
			m[v.uid] = v
		}
		return m
	}
	xitem := func(k int, v *rlv) (*rlv, bool) {
		if v.n%5 == 0 {
			return nil, false
		}
		return w.ident(kind, v.n+1000), true
	}
	switch kind {
	case rlValue:
		return directive.NewValueResolver([]*rlv{w.ident(kind, 1), w.ident(kind, 2)})
	case rlGetter:
		return directive.NewGetterResolver(func(ctx context.Context) (*rlv, error) {
			v, _, err := w.get(ctx, s, nil)
			if v != nil {
				v.counted = false
			}
			return v, err
		})
	case rlAccess:
		return directive.NewAccessResolver(getter)
	case rlKeyedGetter:
		return directive.NewKeyedGetterResolver(func(ctx context.Context, k int, released func()) (*rlv, func(), error) {
			if k != 3 {
				w.h.Fail("C18", "wrong-key", "the getter was called with key %d", k)
			}
			return w.get(ctx, s, released)
		}, 3)
	case rlRefCount:
		return directive.NewRefCountResolver(s.rc)
	case rlKeyedRefCount:
		return directive.NewKeyedRefCountResolver(s.krc, 3, nil)
	case rlWatch:
		return directive.NewWatchableResolver[*rlv](s.ctr)
	case rlWatchXfrm:
		return directive.NewWatchableTransformResolver[*rlv, *rlv](s.ctr, func(ctx context.Context, v *rlv) (*rlv, bool, error) {
			sim.Yield()
			if v.n%7 == 0 && w.fails != 0 {
				return nil, false, errSource
			}
			if v.n%5 == 0 {
				return nil, false, nil
			}
			return w.ident(kind, v.n+1000), true, nil
		})
	case rlList, rlListXfrm, rlMap, rlMapXfrm:
		return directive.NewFuncResolver(func(ctx context.Context, hnd directive.ResolverHandler) error {
			hnd.ClearValues()
			var set func(vals []*rlv)
			switch kind {
			case rlList:
				l := directive.NewUniqueListResolver(key, cmp, hnd)
				set = func(vals []*rlv) { l.SetValues(vals...) }
			case rlListXfrm:
				l := directive.NewUniqueListXfrmResolver(key, cmp, xitem, hnd)
				set = func(vals []*rlv) { l.SetValues(vals...) }
			case rlMap:
				l := directive.NewUniqueMapResolver(cmp, hnd)
				set = func(vals []*rlv) { l.SetValues(mapped(vals)) }
			default:
				l := directive.NewUniqueMapXfrmResolver(cmp, xitem, hnd)
				set = func(vals []*rlv) { l.SetValues(mapped(vals)) }
			}
			return listen(func() error { set(items()); return nil })(ctx, hnd)
		})
	case rlXfrm:
		return directive.NewTransformResolver(w.b, src, xfrmAV)
	case rlXfrmNil:
		return directive.NewTransformResolver[*rlv](w.b, src, nil)
	case rlTyped:
		return directive.NewTypedTransformResolver(w.b, src, func(ctx context.Context, av directive.TypedAttachedValue[*rlv]) (*rlv, func(), bool, error) {
			return w.xfrm(s, av.GetValue().n)
		}, nil)
	case rlPassThru:
		return handle(func(hnd directive.ResolverHandler, dispose func()) directive.ReferenceHandler {
			return bus.NewPassThruHandler(hnd, dispose)
		})
	case rlBusXfrm:
		return handle(func(hnd directive.ResolverHandler, dispose func()) directive.ReferenceHandler {
			return bus.NewTransformHandler(hnd, func(av directive.AttachedValue) (directive.Value, bool) {
				sim.Yield()
				sv, _ := av.GetValue().(*rlv)
				if sv == nil || sv.n%5 == 0 {
					return nil, false
				}
				return w.ident(kind, sv.n+1000), true
			}, dispose)
		})
	case rlBusXfrmNil:
		return handle(func(hnd directive.ResolverHandler, dispose func()) directive.ReferenceHandler {
			return bus.NewTransformHandler(hnd, nil, dispose)
		})
	default:
		inner := directive.NewFuncResolver(func(ctx context.Context, hnd directive.ResolverHandler) error {
			hnd.ClearValues()
			w.h.Lock()
			s.tries++
			t := s.tries
			w.h.Unlock()
			if t > 200 {
				w.h.Fail("C18", "retries", "the %s resolver was called %d times", rlNames[kind], t)
				<-ctx.Done()
				return nil
			}
			if kind == rlRetryStop || t%4 != 0 {
				w.h.Fault("source-error")
				return errSource
			}
			hnd.AddValue(w.ident(kind, 1))
			return nil
		})
		if kind == rlRetryStop {
			return directive.NewRetryResolver(w.h.Le, inner, &rlbackoff{n: 2, dur: s.backoff})
		}
		// shared, it is reset by each success
		return directive.NewRetryResolver(w.h.Le, inner, &s.bo)
	}
}

// rlbackoff stops after n retries.
type rlbackoff struct {
	mu   sync.Mutex
	n, i int
	dur  time.Duration
}

func (b *rlbackoff) Reset() {
	b.mu.Lock()
	b.i = 0
	b.mu.Unlock()
}
func (b *rlbackoff) NextBackOff() time.Duration {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.i++; b.i > b.n {
		return backoff.Stop
	}
	return b.dur
}

// source resolves the source directives.
type rlsource struct {
	w *rlworld
	s *rlsrc
}

func (r *rlsource) Resolve(ctx context.Context, hnd directive.ResolverHandler) error {
	w, s := r.w, r.s
	hnd.ClearValues()
	ids := [4]uint32{}
	cur := [4]int{}
	for {
		w.h.Lock()
		s.srcUp = true
		list, ch := s.list, s.changed
		w.h.Unlock()
		for i, n := range list {
			if n == cur[i] {
				continue
			}
			if ids[i] != 0 {
				hnd.RemoveValue(ids[i])
				ids[i] = 0
			}
			if cur[i] = n; n != 0 {
				ids[i], _ = hnd.AddValue(w.ident(s.kind, n))
			}
			if i == 2 && n == 9 {
				hnd.AddValue("a value of another type")
			}
		}
		hnd.MarkIdle(true)
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-ch:
		}
	}
}

type rlctrl struct{ w *rlworld }

func (c *rlctrl) GetControllerInfo() *controller.Info {
	return controller.NewInfo("reslib", semver.Version{}, "")
}
func (c *rlctrl) Execute(ctx context.Context) error { return nil }
func (c *rlctrl) Close() error                      { return nil }
func (c *rlctrl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	d, ok := di.GetDirective().(*rldir)
	if !ok || d.src {
		return nil, nil
	}
	return directive.R(&rlres{c.w, c.w.srcs[d.kind], c.w.resolver(d.kind)}, nil)
}

// rlsctrl handles the source directives.
type rlsctrl struct{ w *rlworld }

func (c *rlsctrl) GetControllerInfo() *controller.Info {
	return controller.NewInfo("source", semver.Version{}, "")
}
func (c *rlsctrl) Execute(ctx context.Context) error { return nil }
func (c *rlsctrl) Close() error                      { return nil }
func (c *rlsctrl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	d, ok := di.GetDirective().(*rldir)
	if !ok || !d.src {
		return nil, nil
	}
	return directive.R(&rlsource{c.w, c.w.srcs[d.kind]}, nil)
}

// rlref is a reference to a directive.
type rlref struct {
	w     *rlworld
	kind  int
	addAt int
	vals  map[uint32]*rlv
	ref   directive.Reference
	di    directive.Instance
	relB  bool
	gone  bool
	idle  bool
}

func (r *rlref) HandleValueAdded(di directive.Instance, av directive.AttachedValue) {
	sim.Yield()
	h := r.w.h
	h.Lock()
	defer h.Unlock()
	v, ok := av.GetValue().(*rlv)
	if !ok || v == nil {
		if r.kind == rlPassThru || r.kind == rlBusXfrmNil {
			if _, ok := av.GetValue().(string); ok {
				return
			}
		}
		h.FailLocked("C18", "bad-value", "%s: a value of type %T was offered", rlNames[r.kind], av.GetValue())
		return
	}
	h.LogLocked("%s: value %d (%d) added", rlNames[r.kind], v.uid, v.n)
	if v.kind != r.kind {
		h.FailLocked("C18", "bad-value", "%s: a value of %s was offered", rlNames[r.kind], rlNames[v.kind])
	}
	if v.releases != 0 && v.relAt < r.addAt && v.kind != rlRefCount {
		// (the reference counter releases the value before it tells)
		h.FailLocked("C18", "released-value", "%s: value %d was offered to a reference which was added after it was released", rlNames[r.kind], v.uid)
	}
	r.vals[av.GetValueID()] = v
}

func (r *rlref) HandleValueRemoved(di directive.Instance, av directive.AttachedValue) {
	r.w.h.Lock()
	if v := r.vals[av.GetValueID()]; v != nil {
		r.w.h.LogLocked("%s: value %d (%d) removed", rlNames[r.kind], v.uid, v.n)
	}
	delete(r.vals, av.GetValueID())
	r.w.h.Unlock()
	sim.Yield()
}

func (r *rlref) HandleInstanceDisposed(di directive.Instance) {
	r.w.h.Lock()
	r.gone = true
	r.vals = map[uint32]*rlv{}
	r.w.h.Unlock()
}

func (w *rlworld) swap(slot int, r *rlref) {
	w.h.Lock()
	old := w.slots[slot]
	w.slots[slot] = r
	if old != nil {
		old.relB = true
		w.h.LogLocked("release %s", rlNames[old.kind])
	}
	w.h.Unlock()
	if old != nil {
		old.ref.Release()
	}
}

func (w *rlworld) do(op sim.Op, at func(string)) {
	h := w.h
	at(op.String())
	h.Count(op.K)
	switch op.K {
	case "ref":
		h.Lock()
		w.seq++
		r := &rlref{w: w, kind: op.Arg(1), addAt: w.seq, vals: map[uint32]*rlv{}}
		w.refs = append(w.refs, r)
		h.LogLocked("reference to %s", rlNames[r.kind])
		h.Unlock()
		di, ref, err := w.b.AddDirective(&rldir{w: w, kind: r.kind}, r)
		if err != nil {
			h.Fail("C18", "add-failed", "AddDirective returned %v", err)
			return
		}
		h.Lock()
		r.di, r.ref = di, ref
		h.Unlock()
		di.AddIdleCallback(func(idle bool, errs []error) {
			h.Lock()
			r.idle = idle
			h.Unlock()
		})
		w.swap(op.Arg(0), r)
	case "rel":
		w.swap(op.Arg(0), nil)
	case "set":
		w.set(op.Arg(0), op.Arg(1), op.Arg(2))
	case "close", "closesrc":
		for _, di := range w.b.GetDirectives() {
			if d, ok := di.GetDirective().(*rldir); ok && d.kind == op.Arg(0) && d.src == (op.K == "closesrc") {
				h.Fault("directive-closed")
				di.Close()
			}
		}
	case "restart":
		h.Lock()
		rel := w.rel
		w.rel = nil
		h.Unlock()
		if rel == nil {
			return
		}
		h.Fault("controller-restarted")
		rel()
		w.start()
	case "sleep":
		sim.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
	}
}

// set changes the source of kind.
func (w *rlworld) set(kind, slot, n int) {
	s := w.srcs[kind]
	h := w.h
	h.Lock()
	h.LogLocked("source of %s: slot %d is %d", rlNames[kind], slot, n)
	s.n, s.list[slot] = n, n
	rel := s.released
	if rel != nil {
		s.released = nil
	}
	close(s.changed)
	s.changed = make(chan struct{})
	var v *rlv
	if n != 0 {
		v = w.newVal(kind, n, false)
	}
	if s.ctr != nil {
		s.ctr.SetValue(v)
	}
	h.Unlock()
	if rel != nil {
		h.Fault("source-released")
		rel()
	}
}

func (w *rlworld) start() {
	rel, err := w.b.AddController(w.ctx, &rlctrl{w}, nil)
	if err != nil {
		panic(err)
	}
	w.h.Lock()
	w.rel = rel
	w.h.Unlock()
}

// check checks the quiescent state.
func (w *rlworld) check(at string) {
	h := w.h
	h.Lock()
	defer h.Unlock()
	for kind := 0; kind < rlKinds; kind++ {
		s := w.srcs[kind]
		if s == nil {
			continue
		}
		var want []int
		switch {
		case kind == rlRetry:
			want = []int{1}
		case s.err != nil:
		case kind == rlValue:
			want = []int{1, 2}
		case kind == rlGetter || kind == rlAccess || kind == rlKeyedGetter || kind == rlRefCount:
			if s.last != nil {
				want = []int{s.last.n}
			}
		case kind == rlKeyedRefCount:
			want = []int{1}
		case kind == rlWatch || kind == rlWatchXfrm:
			if s.n != 0 && kind == rlWatch {
				want = []int{s.n}
			} else if s.n != 0 && s.n%5 != 0 {
				want = []int{s.n + 1000}
			}
		case kind == rlRetryStop:
		default:
			for _, n := range s.list {
				switch {
				case n == 0:
				case kind == rlList || kind == rlMap || kind == rlXfrmNil || kind == rlPassThru || kind == rlBusXfrmNil:
					want = append(want, n)
				case n%5 != 0:
					want = append(want, n+1000)
				}
			}
		}
		slices.Sort(want)
		held := false
		offered := map[int]bool{}
		for _, r := range w.refs {
			if r.kind != kind || r.relB || r.gone {
				continue
			}
			held = true
			if !r.idle && kind != rlAccess && kind != rlWatch && kind != rlWatchXfrm && (kind != rlRetryStop || s.backoff < time.Hour) {
				// (these are never idle)
				h.FailLocked("C18", "not-idle", "%s: %s: the directive is not idle though nothing happens (resolver error %v)", at, rlNames[kind], s.err)
			}
			var got []int
			for _, v := range r.vals {
				got = append(got, v.n)
				offered[v.uid] = true
				if v.releases != 0 {
					h.FailLocked("C18", "released-value", "%s: %s: value %d (%d) is offered though it was released", at, rlNames[kind], v.uid, v.n)
				}
			}
			slices.Sort(got)
			h.StateLocked(uint64(kind)<<32 | uint64(len(got))<<16 | uint64(s.n))
			if w.max != 0 || kind == rlRetry && s.overlap {
				// the resolver may have given up when the limit was reached,
				// or when a canceled one used the attempts they share
				rest := slices.Clone(want)
				for _, n := range got {
					i := slices.Index(rest, n)
					if i < 0 {
						h.FailLocked("C18", "values", "%s: %s: the values are %v but the source has %v (resolver error %v)", at, rlNames[kind], got, want, s.err)
						break
					}
					rest = slices.Delete(rest, i, i+1)
				}
			} else if !slices.Equal(got, want) {
				h.FailLocked("C18", "values", "%s: %s: the values are %v but the source has %v (resolver error %v)", at, rlNames[kind], got, want, s.err)
			}
		}
		if kind == rlRetryStop && held && s.running != 0 && s.backoff < time.Hour {
			h.FailLocked("C18", "retries", "%s: the resolver runs though its backoff stopped", at)
		}
		if held && s.err == nil && (kind == rlAccess || kind == rlRefCount || kind == rlKeyedGetter) && s.last != nil && s.last.n != s.n && !(s.n == 0 && s.last.n == 100) {
			h.FailLocked("C18", "stale", "%s: %s: the value is %d but the source has %d", at, rlNames[kind], s.last.n, s.n)
		}
		if !held && s.running != 0 && !w.linger {
			h.FailLocked("C18", "not-stopped", "%s: the %s resolver runs without a reference", at, rlNames[kind])
		}
		if s.krc != nil && !held && !w.linger && len(s.krc.GetKeys()) != 0 {
			h.FailLocked("C18", "not-released", "%s: %s: the key is referenced without a reference to the directive", at, rlNames[kind])
		}
		for _, v := range w.vals {
			if v.kind == kind && v.counted && v.releases == 0 && !offered[v.uid] {
				h.FailLocked("C18", "not-released", "%s: %s: value %d (%d) is not offered but was not released", at, rlNames[kind], v.uid, v.n)
			}
		}
	}
}

func (ResLib) Exec(h *sim.H, s *sim.Script) {
	h.NoPanics("C18")
	ctx, cancel := context.WithCancel(context.Background())
	dc := dcontroller.NewController(ctx, h.Le)
	w := &rlworld{h: h, ctx: ctx, b: inmem.NewBus(dc), linger: s.P["linger"] != 0, max: s.P["max"], fails: s.P["fails"],
		srcs: map[int]*rlsrc{}, slots: map[int]*rlref{}}
	for _, k := range []int{s.P["k0"], s.P["k1"]} {
		if w.srcs[k] != nil {
			continue
		}
		src := &rlsrc{kind: k, changed: make(chan struct{}), bo: rlbackoff{n: 5, dur: 20 * time.Millisecond}, backoff: 30 * time.Millisecond}
		if s.P["salt"]&64 != 0 {
			src.backoff = time.Hour
		}
		w.srcs[k] = src
		switch k {
		case rlWatch, rlWatchXfrm:
			src.ctr = ccontainer.NewCContainer[*rlv](nil)
		case rlRefCount:
			src.rc = refcount.NewRefCount(ctx, false, nil, nil, func(ctx context.Context, released func()) (*rlv, func(), error) {
				return w.get(ctx, src, released)
			})
		case rlKeyedRefCount:
			src.krc = keyed.NewKeyedRefCount(func(key int) (keyed.Routine, *rlv) {
				return nil, w.ident(k, 1)
			})
		}
	}
	if _, err := w.b.AddController(ctx, &rlsctrl{w}, nil); err != nil {
		panic(err)
	}
	w.start()
	for i, ops := range s.Tasks {
		h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
			for _, op := range ops {
				w.do(op, at)
			}
		})
	}
	if !h.MustJoin("C18", 4*time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	w.check("after the run")

	// a reference added to what lingers
	for round := 0; round < 2; round++ {
		h.Go(fmt.Sprintf("late%d", round), func(at func(string)) {
			for n := 0; n < 4; n++ {
				if (s.P["salt"]>>(n+4*round))&1 == 1 {
					w.do(sim.Op{K: "rel", A: []int{n}}, at)
				}
			}
			if s.P["salt"]>>9&1 == 1 {
				sim.Sleep(time.Second)
			}
			for i := 0; i < 2; i++ {
				w.do(sim.Op{K: "ref", A: []int{i, s.P[fmt.Sprintf("k%d", i)]}}, at)
				w.do(sim.Op{K: "set", A: []int{s.P[fmt.Sprintf("k%d", i)], 1, 1 + (s.P["salt"]>>12+round)%12}}, at)
			}
		})
		if !h.MustJoin("C18", 4*time.Minute) {
			return
		}
		h.Quiesce(time.Minute)
		w.check("after references were added again")
	}
	h.Go("release", func(at func(string)) {
		for n := 0; n < 4; n++ {
			w.do(sim.Op{K: "rel", A: []int{n}}, at)
		}
	})
	if !h.MustJoin("C18", 4*time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	w.check("after all were released")
	for _, di := range w.b.GetDirectives() {
		h.Fail("C18", "not-released", "directive %s is alive after all references were released", di.GetDirective().GetName())
	}
	cancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C18"
}
