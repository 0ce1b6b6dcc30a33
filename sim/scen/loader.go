package scen

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	boilerplate "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
	"github.com/blang/semver/v4"

	"verifsim/sim"
)

// Loader constructs, runs and retries controllers through the loader and the
// factory resolvers.
type Loader struct{}

func (Loader) Name() string { return "loader" }

const loaderConfs = 4

func (Loader) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{}}
	for n := 0; n < loaderConfs; n++ {
		s.P[fmt.Sprintf("b%d", n)] = r.N(1 << 20)
		s.P[fmt.Sprintf("k%d", n)] = r.N(6)
		s.P[fmt.Sprintf("v%d", n)] = r.Pick(0, 0, 0, 1)
	}
	nc := 1 + r.N(3)
	comp := prop == "C13" && r.P(12)
	if comp {
		// loaders compete for a capped value, and come and go
		nc = 1
		s.P["k0"], s.P["v0"] = r.Pick(0, 1, 5), 1
	}
	var setup []sim.Op
	if r.P(80) {
		setup = append(setup, sim.Op{K: "addl", A: []int{0}})
	}
	if r.P(70) {
		setup = append(setup, sim.Op{K: "addr", A: []int{0, r.N(64), r.N(64)}})
	}
	s.Tasks = append(s.Tasks, setup)
	lp := 50
	switch prop {
	case "C13":
		lp = 20
	case "C14":
		lp = 80
	}
	vers := r.Pick(1, 1, 3)
	for t, nt := 0, 2+r.N(3); t < nt; t++ {
		var ops []sim.Op
		for i, n := 0, 2+r.N(7); i < n; i++ {
			x := r.N(100)
			if comp && i > 0 && x >= 60 {
				x = 51 + r.N(7)
			}
			switch {
			case x < 26 || i == 0:
				k := "exec"
				if r.P(lp) {
					k = "load"
				}
				ops = append(ops, sim.Op{K: k, A: []int{r.N(4), r.N(nc), 1 + r.N(vers)}})
			case x < 36:
				k := "wexec"
				if r.P(lp) {
					k = "wload"
				}
				ops = append(ops, sim.Op{K: k, A: []int{r.N(nc), 1 + r.N(vers), r.Pick(0, 50, 700, 3000), r.Pick(0, 10, 500, 3000, 300000), r.Pick(0, 0, 1, 1, 2)}})
			case x < 48:
				ops = append(ops, sim.Op{K: "rel", A: []int{r.N(4)}})
			case x < 51:
				ops = append(ops, sim.Op{K: "close", A: []int{r.N(4)}})
			case x < 55:
				ops = append(ops, sim.Op{K: "addl", A: []int{r.N(2)}})
			case x < 58:
				ops = append(ops, sim.Op{K: "rml", A: []int{r.N(2)}})
			case x < 63:
				ops = append(ops, sim.Op{K: "addr", A: []int{r.N(3), r.N(64), r.N(64)}})
			case x < 68:
				ops = append(ops, sim.Op{K: "rmr", A: []int{r.N(3), r.N(2)}})
			case x < 72:
				ops = append(ops, sim.Op{K: "addf", A: []int{r.N(3), r.N(2), 1 + r.N(3), r.Pick(0, 0, 1, 2, 3)}})
			case x < 75:
				ops = append(ops, sim.Op{K: "list", A: []int{r.N(3)}})
			case x < 78:
				ops = append(ops, sim.Op{K: "fcancel", A: []int{r.N(4)}})
			case x < 82:
				ops = append(ops, sim.Op{K: "lfac", A: []int{r.N(nc), r.Pick(10, 300, 2000), r.Pick(0, 100, 1000)}})
			case x < 86:
				ops = append(ops, sim.Op{K: "lctor", A: []int{r.N(2), r.Pick(10, 300, 2000), r.Pick(0, 100, 1000)}})
			default:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 20, 300, 1000, 2500)}})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	if r.P(2) {
		s.P["long"] = 1
	}
	for n := 0; n < loaderConfs; n++ {
		if k := s.P[fmt.Sprintf("k%d", n)]; s.P["long"] == 1 || k == 2 || k == 3 || k == 4 {
			// loaders that compete for a capped value restart each other
			s.P[fmt.Sprintf("v%d", n)] = 0
		}
	}
	return s
}

func lconfID(n int) string { return fmt.Sprintf("conf/%d", n%2) }

// lconf is a controller configuration.
type lconf struct {
	*boilerplate.Config
	n int
}

func newLConf(n int) *lconf {
	return &lconf{Config: &boilerplate.Config{ExampleField: fmt.Sprint(n)}, n: n}
}

func (c *lconf) Validate() error {
	if c.n < 0 {
		return errors.New("invalid config")
	}
	return nil
}
func (c *lconf) GetConfigID() string { return lconfID(max(c.n, 0)) }
func (c *lconf) EqualsConfig(o config.Config) bool {
	oc, ok := o.(*lconf)
	return ok && oc.n == c.n
}

// lerr is a failure of a controller or of its construction.
type lerr struct {
	ch  *lchain
	n   int // configuration
	idx int // failures before it in the chain
	seq int
	// canceled: the controller returned context.Canceled instead
	canceled bool
}

func (e *lerr) Error() string { return fmt.Sprintf("failure %d of config %d", e.seq, e.n) }

// lfac is a controller factory.
type lfac struct {
	w   *lworld
	id  string
	ver int
	ctx context.Context
	cf  context.CancelFunc
	// addE is the time the factory was certainly in a static resolver.
	n int
}

// lfacc is a factory with a context.
type lfacc struct{ *lfac }

func (f *lfacc) GetFactoryContext() context.Context { return f.ctx }

func (f *lfac) GetConfigID() string            { return f.id }
func (f *lfac) ConstructConfig() config.Config { return &lconf{Config: &boilerplate.Config{}} }
func (f *lfac) GetVersion() semver.Version {
	sim.Yield()
	return semver.Version{Major: uint64(f.ver)}
}

func unfac(f controller.Factory) *lfac {
	switch f := f.(type) {
	case *lfac:
		return f
	case *lfacc:
		return f.lfac
	}
	return nil
}

const (
	chBusy = iota
	chRunning
	chFailed
	chFinished
	chNil
)

// lchain is one activation of a loader resolver: one construction and its
// executions, tied together by the context given to Construct.
type lchain struct {
	ctx   context.Context
	fac   *lfac
	n     int
	state int
	ctl   *lctl
	nfail int
	last  *lerr
	lastT time.Duration
}

// lctl is a constructed controller.
type lctl struct {
	w      *lworld
	ch     *lchain
	fac    *lfac
	n      int
	idx    int
	runs   int
	active int
	closes int
	closeT time.Duration
	ctx    context.Context
	nilRet bool
	dud    bool // constructed with an error
}

func (c *lctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(fmt.Sprintf("lctl/%d", c.idx), semver.Version{}, "")
}

func (c *lctl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	return nil, nil
}

func (c *lctl) Close() error {
	h := c.w.h
	sim.Yield()
	h.Lock()
	defer h.Unlock()
	c.closes++
	c.closeT = sim.Now()
	h.LogLocked("controller %d closed", c.idx)
	if c.closes > 1 {
		h.FailLocked("C13", "closed-twice", "a controller was closed %d times", c.closes)
	}
	if c.active > 0 {
		h.FailLocked("C13", "closed-while-running", "a controller was closed while it runs")
	}
	if (c.idx+c.n)%4 == 0 {
		return errors.New("close failed")
	}
	return nil
}

// boSeq is the k-th delay of the backoff of kind.
func boSeq(kind, k int) (lo, hi time.Duration, stop bool) {
	ms := time.Millisecond
	c := func(d time.Duration) (time.Duration, time.Duration, bool) { return d, d, false }
	switch kind {
	case 1:
		return c(50 * ms)
	case 2:
		l := []time.Duration{10 * ms, 200 * ms, 20 * ms}
		if k >= len(l) {
			return 0, 0, true
		}
		return c(l[k])
	case 3:
		if k >= 2 {
			return 0, 0, true
		}
		return c(0)
	case 4:
		return 0, 0, true
	case 5:
		return c(time.Duration(k+1) * 300 * ms)
	}
	return 50 * ms, 3 * time.Second, false
}

// lbo is the scripted backoff.
type lbo struct{ kind, k int }

func (b *lbo) NextBackOff() time.Duration {
	d, _, stop := boSeq(b.kind, b.k)
	b.k++
	if stop {
		return backoff.Stop
	}
	return d
}
func (b *lbo) Reset() { b.k = 0 }

type lref struct {
	w    *lworld
	load bool
	n    int
	fac  *lfac
	di   directive.Instance
	ref  directive.Reference
	vals map[uint32]loader.ExecControllerValue
	rel  bool
	gone bool
	// seq of the begin and end of the AddDirective call
	addB, addE int
}

type lwait struct {
	n    int
	load bool
	ctx  context.Context
	done bool
	di   directive.Instance
	ctl  *lctl
	cbs  int
	held bool
}

type lres struct {
	w     *lworld
	sr    *static.Resolver
	rc    *resolver.Controller
	facs  []*lfac // with AddFactory completed
	facsB []*lfac // with AddFactory begun
	rel   func()
	init  int // factories it was attached with
	// attach/detach begin and end
	addE int
	remB int
}

type lworld struct {
	h      *sim.H
	p      map[string]int
	b      bus.Bus
	ctx    context.Context
	wctx   context.Context
	rnd    *sim.Rand
	seq    int
	chains map[context.Context]*lchain
	chlist []*lchain
	ctls   []*lctl
	facs   map[string]*lfac
	factx  []*lfac
	slots  map[int]*lref
	refs   []*lref
	waits  []*lwait
	ress   map[int]*lres
	allr   []*lres
	lds    map[int]func()
	nload  int
	// closed[n]: a directive of the config was closed by a client
	closed map[int]bool
	// canceled are the configs of which a controller failed with context.Canceled
	canceled map[int]bool
	// vers[n] are the factory versions executed for the config
	vers map[int]map[*lfac]bool
	errn int
	// loaderGone: a loader was removed
	insts map[directive.Instance]bool
}

func (w *lworld) kind(n int) int { return w.p[fmt.Sprintf("k%d", n)] }

func (w *lworld) beh(n, salt int) *sim.Rand {
	return sim.NewRand(uint64(w.p[fmt.Sprintf("b%d", n)])*1000003 + uint64(salt))
}

func (w *lworld) fail(ch *lchain) *lerr {
	w.errn++
	e := &lerr{ch: ch, n: ch.n, idx: ch.nfail, seq: w.errn}
	ch.nfail++
	ch.state, ch.last, ch.lastT = chFailed, e, sim.Now()
	return e
}

// attempt checks the delay before an attempt of the chain.
func (w *lworld) attempt(ch *lchain, what string) {
	if ch.last == nil {
		return
	}
	lo, _, stop := boSeq(w.kind(ch.n), ch.last.idx)
	if stop {
		w.h.FailLocked("C13", "retry-after-stop", "%s after the backoff said stop", what)
	} else if sim.Now() < ch.lastT+lo {
		w.h.FailLocked("C13", "retry-too-early", "%s %v after the failure, backoff is %v", what, sim.Now()-ch.lastT, lo)
	}
}

func (f *lfac) Construct(ctx context.Context, conf config.Config, opts controller.ConstructOpts) (controller.Controller, error) {
	w, h := f.w, f.w.h
	sim.Yield()
	c, ok := conf.(*lconf)
	h.Lock()
	if !ok || c.GetConfigID() != f.id {
		h.FailLocked("C13", "wrong-config", "a factory of %s got config %v", f.id, conf)
		h.Unlock()
		return nil, errors.New("wrong config")
	}
	ch := w.chains[ctx]
	if ch == nil {
		ch = &lchain{ctx: ctx, fac: f, n: c.n}
		w.chains[ctx] = ch
		w.chlist = append(w.chlist, ch)
	} else {
		w.attempt(ch, "constructed again")
	}
	if ch.ctl != nil {
		h.FailLocked("C13", "constructed-twice", "a controller that was constructed is constructed again")
	}
	if ch.n != c.n || ch.fac != f {
		h.FailLocked("C13", "wrong-config", "another config or factory in one activation")
	}
	ch.state = chBusy
	r := w.beh(c.n, ch.nfail*7+f.ver)
	x := r.N(100)
	slow := r.P(25)
	h.Unlock()
	if slow {
		h.Fault("slow-construct")
		sim.Sleep(time.Duration(r.Pick(1, 40, 600)) * time.Millisecond)
	}
	h.Lock()
	defer h.Unlock()
	if w.p["long"] == 1 && ch.nfail > 2 {
		x = 99
	}
	failp := []int{0, 20, 50}[uint(w.p[fmt.Sprintf("b%d", c.n)])%3]
	switch {
	case x < failp:
		h.LogLocked("construct config %d fails", c.n)
		e := w.fail(ch)
		if r.P(20) {
			// an incomplete controller next to the error
			return &lctl{w: w, ch: ch, fac: f, n: c.n, idx: -1, dud: true}, e
		}
		return nil, e
	case x < failp+3:
		ch.state = chNil
		return nil, nil
	}
	ctl := &lctl{w: w, ch: ch, fac: f, n: c.n, idx: len(w.ctls)}
	ch.ctl = ctl
	w.ctls = append(w.ctls, ctl)
	h.LogLocked("constructed controller %d of config %d v%d", ctl.idx, c.n, f.ver)
	h.StateLocked(uint64(len(w.ctls))<<8 | uint64(ch.nfail))
	return ctl, nil
}

func (c *lctl) Execute(ctx context.Context) error {
	w, h := c.w, c.w.h
	sim.Yield()
	h.Lock()
	if c.dud {
		h.FailLocked("C13", "executed-unconstructed", "a controller returned with an error by its factory is executed")
		h.Unlock()
		return errors.New("not constructed")
	}
	c.active++
	c.ctx = ctx
	if c.active > 1 {
		h.FailLocked("C13", "executed-concurrently", "a controller is executed twice at once")
	}
	if c.closes > 0 {
		h.FailLocked("C13", "executed-after-close", "a closed controller is executed")
	}
	if c.nilRet {
		h.FailLocked("C13", "executed-after-finish", "a controller that returned without error is executed again")
	}
	w.attempt(c.ch, "executed again")
	c.runs++
	c.ch.state = chRunning
	r := w.beh(c.n, 5000+c.runs*13)
	h.LogLocked("controller %d executes (%d)", c.idx, c.runs)
	h.Unlock()

	live := []int{100, 60, 30}[uint(w.p[fmt.Sprintf("b%d", c.n)]/3)%3]
	var err error
	var pan, own bool
	mk := func() error {
		h.Lock()
		defer h.Unlock()
		return w.fail(c.ch)
	}
	canceled := func() {
		if r.P(20) {
			h.Fault("slow-cancel")
			sim.Sleep(time.Duration(r.Pick(1, 50, 700)) * time.Millisecond)
		}
		switch r.N(4) {
		case 0:
		case 1:
			err = mk()
		default:
			err = ctx.Err()
		}
	}
	switch x := r.N(100); {
	case x < live:
		<-ctx.Done()
		canceled()
	default:
		d := time.Duration(r.Pick(0, 0, 1, 100, 1500)) * time.Millisecond
		if w.p["long"] == 1 {
			d = 16 * time.Minute
		}
		if d != 0 {
			t := time.NewTimer(d)
			select {
			case <-ctx.Done():
				t.Stop()
				canceled()
				goto done
			case <-t.C:
			}
		}
		switch y := r.N(100); {
		case y < 25:
			h.Count("nil-exit")
		case y < 75:
			h.Fault("controller-error")
			err = mk()
		case y < 85:
			// something else than the controller was canceled
			h.Fault("controller-error-canceled")
			h.Lock()
			w.fail(c.ch).canceled = true
			w.canceled[c.n] = true
			h.Unlock()
			err, own = context.Canceled, true
		default:
			h.Fault("controller-panic")
			err, pan = mk(), true
		}
	}
done:
	h.Lock()
	c.active--
	if err == nil {
		c.nilRet = true
		c.ch.state = chFinished
	} else if errors.Is(err, context.Canceled) && !own {
		c.ch.state = chBusy
	}
	h.LogLocked("controller %d returns %v", c.idx, err)
	h.Unlock()
	if pan {
		panic(err)
	}
	return err
}

func lerrOf(err error) *lerr {
	var e *lerr
	if errors.As(err, &e) {
		return e
	}
	return nil
}

func (r *lref) HandleValueAdded(di directive.Instance, v directive.AttachedValue) {
	w, h := r.w, r.w.h
	ev, ok := v.GetValue().(loader.ExecControllerValue)
	h.Lock()
	defer h.Unlock()
	if !ok {
		h.FailLocked("C13", "bad-value", "the value is not an ExecControllerValue")
		return
	}
	r.vals[v.GetValueID()] = ev
	err, ct := ev.GetError(), ev.GetController()
	switch {
	case err == nil && ct == nil:
		h.FailLocked("C13", "bad-value", "the value has neither a controller nor an error")
	case err != nil:
		e := lerrOf(err)
		if err == context.Canceled && w.canceled[r.n] {
			return
		}
		if e == nil {
			h.FailLocked("C13", "wrong-error", "the value carries an error nobody returned: %v", err)
			return
		}
		if e.n != r.n {
			h.FailLocked("C13", "wrong-error", "the value carries the error of another config")
		}
		lo, hi, stop := boSeq(w.kind(e.n), e.idx)
		d := ev.GetNextRetryTimestamp().Sub(ev.GetUpdatedTimestamp())
		if stop || d < lo || d > hi {
			p := "C13"
			if r.load {
				p = "C14"
			}
			h.FailLocked(p, "wrong-backoff", "failure %d of a config with backoff %d is to be retried after %v", e.idx, w.kind(e.n), d)
		}
	default:
		c, _ := ct.(*lctl)
		if c == nil || c.n != r.n || !r.load && c.fac != unfac(di.GetDirective().(loader.ExecController).GetExecControllerFactory()) {
			h.FailLocked("C13", "wrong-controller", "the value carries a controller of another config or factory")
		}
	}
}

func (r *lref) HandleValueRemoved(di directive.Instance, v directive.AttachedValue) {
	r.w.h.Lock()
	delete(r.vals, v.GetValueID())
	r.w.h.Unlock()
}

func (r *lref) HandleInstanceDisposed(di directive.Instance) {
	r.w.h.Lock()
	r.gone = true
	r.vals = map[uint32]loader.ExecControllerValue{}
	r.w.h.Unlock()
}

func (w *lworld) factory(id string, ver int) controller.Factory {
	k := fmt.Sprintf("%s/%d", id, ver)
	f := w.facs[k]
	if f == nil {
		f = &lfac{w: w, id: id, ver: ver}
		f.ctx, f.cf = context.WithCancel(context.Background())
		w.facs[k] = f
		w.factx = append(w.factx, f)
	}
	if ver == 2 {
		return &lfacc{f}
	}
	return f
}

func (w *lworld) dir(load bool, n, ver int) (directive.Directive, *lfac) {
	var bo func() backoff.BackOff
	if k := w.kind(n); k != 0 {
		bo = func() backoff.BackOff { return &lbo{kind: k} }
	}
	var vo directive.ValueOptions
	if w.p[fmt.Sprintf("v%d", n)] == 1 {
		vo = directive.ValueOptions{MaxValueCount: 1, MaxValueHardCap: true}
	}
	if load {
		return resolver.NewLoadControllerWithConfigAndOpts(newLConf(n), vo, bo), nil
	}
	f := w.factory(lconfID(n), ver)
	return loader.NewExecControllerWithOpts(f, newLConf(n), bo, vo), unfac(f)
}

// manyVersions reports whether an execution of the config can be superseded.
func (w *lworld) manyVersions(n int) bool {
	c := 0
	for _, f := range w.factx {
		if f.id == lconfID(n) {
			c++
		}
	}
	return c > 1
}

// unloaded checks if a factory of a config was unloaded.
func (w *lworld) unloaded(n int) bool {
	for _, f := range w.factx {
		if f.id == lconfID(n) && f.ctx.Err() != nil {
			return true
		}
	}
	return false
}

func (w *lworld) tick() int { w.seq++; return w.seq }

func (w *lworld) do(op sim.Op, at func(string)) {
	h := w.h
	at(op.String())
	h.Count(op.K)
	ms := func(i int) time.Duration { return time.Duration(op.Arg(i)) * time.Millisecond }
	switch op.K {
	case "exec", "load":
		h.Lock()
		n := op.Arg(1)
		load := op.K == "load"
		d, f := w.dir(load, n, op.Arg(2))
		r := &lref{w: w, load: load, n: n, fac: f, vals: map[uint32]loader.ExecControllerValue{}, addB: w.tick()}
		if !load {
			w.addVer(n, f)
		}
		h.Unlock()
		di, ref, err := w.b.AddDirective(d, r)
		if err != nil {
			h.Fail("C13", "add-failed", "AddDirective returned %v", err)
			return
		}
		h.Lock()
		r.di, r.ref, r.addE = di, ref, w.tick()
		w.insts[di] = true
		w.refs = append(w.refs, r)
		old := w.slots[op.Arg(0)]
		w.slots[op.Arg(0)] = r
		if old != nil {
			old.rel = true
		}
		h.Unlock()
		if old != nil {
			old.ref.Release()
		}
	case "rel":
		h.Lock()
		r := w.slots[op.Arg(0)]
		delete(w.slots, op.Arg(0))
		if r != nil {
			r.rel = true
		}
		h.Unlock()
		if r != nil {
			r.ref.Release()
		}
	case "close":
		h.Lock()
		r := w.slots[op.Arg(0)]
		if r != nil {
			w.closed[r.n] = true
		}
		h.Unlock()
		if r != nil {
			h.Fault("directive-closed")
			r.di.Close()
		}
	case "wexec", "wload":
		go w.wait(op)
	case "addl":
		h.Lock()
		old, has := w.lds[op.Arg(0)]
		if !has {
			w.lds[op.Arg(0)] = nil // being added
		}
		h.Unlock()
		if has || old != nil {
			return
		}
		lc, err := loader.NewController(h.Le, w.b)
		if err != nil {
			panic(err)
		}
		rel, err := w.b.AddController(w.ctx, lc, nil)
		if err != nil {
			panic(err)
		}
		h.Lock()
		w.lds[op.Arg(0)] = rel
		w.nload++
		h.Unlock()
	case "rml":
		h.Lock()
		rel := w.lds[op.Arg(0)]
		if rel != nil {
			delete(w.lds, op.Arg(0))
			w.nload--
		}
		h.Unlock()
		if rel != nil {
			h.Fault("loader-removed")
			rel()
		}
	case "addr":
		h.Lock()
		if w.ress[op.Arg(0)] != nil {
			h.Unlock()
			return
		}
		r := &lres{w: w, sr: static.NewResolver()}
		w.ress[op.Arg(0)] = r
		w.allr = append(w.allr, r)
		var fs []controller.Factory
		for id := 0; id < 2; id++ {
			for v := 1; v <= 3; v++ {
				if op.Arg(1)&(1<<(id*3+v-1)) != 0 && op.Arg(2)&(1<<(id*3+v-1)) != 0 {
					f := w.factory(lconfID(id), v)
					fs = append(fs, f)
					r.facs = append(r.facs, unfac(f))
				}
			}
		}
		r.facsB = append(r.facsB, r.facs...)
		r.init = len(r.facs)
		h.Unlock()
		for i := range fs {
			r.sr.AddFactory(fs[(i+op.Arg(1))%len(fs)])
		}
		r.rc = resolver.NewController(h.Le, w.b, r.sr)
		rel, err := w.b.AddController(w.ctx, r.rc, nil)
		if err != nil {
			panic(err)
		}
		h.Lock()
		r.rel = rel
		r.addE = w.tick()
		h.Unlock()
	case "rmr":
		h.Lock()
		r := w.ress[op.Arg(0)]
		if r == nil || r.rel == nil {
			h.Unlock()
			return
		}
		delete(w.ress, op.Arg(0))
		r.remB = w.tick()
		h.Unlock()
		h.Fault("resolver-removed")
		r.rel()
		if op.Arg(1) == 1 {
			r.rc.Close()
		}
	case "addf":
		h.Lock()
		r := w.ress[op.Arg(0)]
		if r == nil || r.rel == nil {
			h.Unlock()
			return
		}
		vers := []int{op.Arg(2)}
		if v := op.Arg(3); v != 0 && v != op.Arg(2) {
			vers = append(vers, v)
		}
		var fs []controller.Factory
		for _, v := range vers {
			f := w.factory(lconfID(op.Arg(1)), v)
			r.facsB = append(r.facsB, unfac(f))
			fs = append(fs, f)
		}
		h.Unlock()
		for i, f := range fs {
			add := func(func(string)) {
				r.sr.AddFactory(f)
				h.Lock()
				r.facs = append(r.facs, unfac(f))
				h.Unlock()
			}
			if i == 0 && len(fs) > 1 {
				h.Go("addf", add)
			} else {
				add(nil)
			}
		}
	case "list":
		h.Lock()
		r := w.ress[op.Arg(0)]
		if r == nil || r.rel == nil {
			h.Unlock()
			return
		}
		h.Unlock()
		w.list(r)
	case "fcancel":
		h.Lock()
		var f *lfac
		if len(w.factx) > 0 {
			f = w.factx[op.Arg(0)%len(w.factx)]
		}
		h.Unlock()
		if f != nil && f.ver == 2 {
			h.Fault("factory-unloaded")
			f.cf()
		}
	case "lfac", "lctor":
		w.lookup(op)
	case "sleep":
		sim.Sleep(ms(0))
	}
}

// list checks the factories of a static resolver.
func (w *lworld) list(r *lres) {
	w.h.Lock()
	before := append([]*lfac(nil), r.facs...)
	w.h.Unlock()
	got := r.sr.GetFactories()
	w.h.Lock()
	w.checkFactories("GetFactories", r, before, got)
	w.h.Unlock()
}

func (w *lworld) addVer(n int, f *lfac) {
	if w.vers[n] == nil {
		w.vers[n] = map[*lfac]bool{}
	}
	w.vers[n][f] = true
}

// checkFactories checks a snapshot of a static resolver.
func (w *lworld) checkFactories(what string, r *lres, before []*lfac, got []controller.Factory) {
	best := map[string]int{}
	for _, f := range before {
		best[f.id] = max(best[f.id], f.ver)
	}
	seen := map[string]bool{}
	last := ""
	for _, g := range got {
		f := unfac(g)
		if f == nil || seen[f.id] || f.id < last {
			w.h.FailLocked("C14", "factories", "%s returned a factory twice, unsorted or unknown", what)
			return
		}
		seen[f.id], last = true, f.id
		if f.ver < best[f.id] {
			w.h.FailLocked("C14", "old-factory", "%s returned version %d although %d was added before", what, f.ver, best[f.id])
		}
		in := false
		for _, o := range r.facsB {
			in = in || o == f
		}
		if !in {
			w.h.FailLocked("C14", "factories", "%s returned a factory that was not added", what)
		}
	}
	for id := range best {
		if !seen[id] {
			w.h.FailLocked("C14", "factories", "%s did not return the factory of %s", what, id)
		}
	}
}

func (w *lworld) wait(op sim.Op) {
	h := w.h
	n := op.Arg(0)
	load := op.K == "wload"
	h.Lock()
	d, f := w.dir(load, n, op.Arg(1))
	if !load {
		w.addVer(n, f)
	}
	h.Unlock()
	ctx, cancel := context.WithCancel(w.wctx)
	defer cancel()
	if op.Arg(2) != 0 {
		ctx, cancel = context.WithTimeout(ctx, time.Duration(op.Arg(2))*time.Millisecond)
		defer cancel()
	}
	wt := &lwait{n: n, load: load, ctx: ctx}
	h.Lock()
	w.waits = append(w.waits, wt)
	callT := sim.Now()
	h.Unlock()
	disp := func() {
		h.Lock()
		wt.cbs++
		h.Unlock()
	}
	var ct controller.Controller
	var di directive.Instance
	var ref directive.Reference
	var err error
	switch op.Arg(4) {
	case 1:
		var lc *lctl
		if lc, di, ref, err = loader.WaitExecControllerRunningTyped[*lctl](ctx, w.b, d, disp); lc != nil {
			ct = lc
		}
	case 2:
		// the controller has another type
		_, di, ref, err = loader.WaitExecControllerRunningTyped[*resolver.Controller](ctx, w.b, d, disp)
		if err != nil && lerrOf(err) == nil && err != ctx.Err() && err != context.Canceled {
			h.Lock()
			wt.done = true
			h.Unlock()
			return
		}
	default:
		ct, di, ref, err = loader.WaitExecControllerRunning(ctx, w.b, d, disp)
	}
	h.Lock()
	wt.done = true
	if err != nil {
		if ct != nil || ref != nil || di != nil {
			h.FailLocked("C13", "wait-result", "WaitExecControllerRunning returned an error and a result")
		}
		switch e := lerrOf(err); {
		case e != nil && e.n != n:
			h.FailLocked("C13", "wait-wrong-error", "WaitExecControllerRunning returned the error of another config")
		case e != nil:
		case ctx.Err() != nil && err == ctx.Err():
		case err == context.Canceled && (w.closed[n] || w.canceled[n] || w.manyVersions(n) || w.unloaded(n)):
		default:
			h.FailLocked("C13", "wait-wrong-error", "WaitExecControllerRunning returned %v", err)
		}
		h.Unlock()
		return
	}
	c, _ := ct.(*lctl)
	if c == nil || c.n != n || ref == nil || di == nil {
		h.FailLocked("C13", "wait-result", "WaitExecControllerRunning returned a wrong or no controller")
	} else if !load && c.closes > 0 && c.closeT < callT {
		h.FailLocked("C13", "wait-stale", "WaitExecControllerRunning returned a controller closed before the call")
	}
	wt.ctl, wt.di, wt.held = c, di, true
	h.Unlock()
	tmr := time.NewTimer(time.Duration(op.Arg(3)) * time.Millisecond)
	defer tmr.Stop()
	select {
	case <-tmr.C:
	case <-w.wctx.Done():
	}
	h.Lock()
	wt.held = false
	h.Unlock()
	ref.Release()
}

func (w *lworld) lookup(op sim.Op) {
	h := w.h
	ctx, cancel := context.WithTimeout(w.ctx, time.Duration(op.Arg(1))*time.Millisecond)
	defer cancel()
	var ref directive.Reference
	if op.K == "lfac" {
		n := op.Arg(0)
		f, r, err := resolver.ExLoadFactoryByConfig(ctx, w.b, newLConf(n))
		h.Lock()
		w.checkErr("ExLoadFactoryByConfig", ctx, err)
		if err == nil {
			if lf := unfac(f); lf == nil || lf.id != lconfID(n) || !w.everAdded(lf) {
				h.FailLocked("C14", "wrong-factory", "ExLoadFactoryByConfig returned a factory of another config")
			}
			if r == nil {
				h.FailLocked("C14", "no-reference", "ExLoadFactoryByConfig returned no reference")
			}
		}
		h.Unlock()
		ref = r
	} else {
		id := lconfID(op.Arg(0))
		av, _, r, err := bus.ExecOneOff(ctx, w.b, resolver.NewLoadConfigConstructorByID(id), nil, nil)
		h.Lock()
		w.checkErr("LoadConfigConstructorByID", ctx, err)
		if err == nil {
			cc, _ := av.GetValue().(config.Constructor)
			if cc == nil || cc.GetConfigID() != id {
				h.FailLocked("C14", "wrong-constructor", "LoadConfigConstructorByID returned a constructor of another config")
			} else if _, ok := cc.ConstructConfig().(*lconf); !ok {
				h.FailLocked("C14", "wrong-constructor", "the constructor built another config")
			}
		}
		h.Unlock()
		ref = r
	}
	if ref != nil {
		sim.Sleep(time.Duration(op.Arg(2)) * time.Millisecond)
		ref.Release()
	}
}

func (w *lworld) everAdded(f *lfac) bool {
	for _, r := range w.allr {
		for _, o := range r.facsB {
			if o == f {
				return true
			}
		}
	}
	return false
}

func (w *lworld) checkErr(what string, ctx context.Context, err error) {
	if err != nil && (ctx.Err() == nil || err != context.Canceled && !errors.Is(err, ctx.Err())) {
		w.h.FailLocked("C14", "wrong-error", "%s returned %v", what, err)
	}
}

// desc renders a value for comparison.
func descVal(v loader.ExecControllerValue) string {
	if e := lerrOf(v.GetError()); e != nil {
		return fmt.Sprintf("error %d", e.seq)
	}
	if v.GetError() == context.Canceled {
		return "error canceled"
	}
	if c, ok := v.GetController().(*lctl); ok && c != nil {
		return fmt.Sprintf("controller %d", c.idx)
	}
	return "other"
}

func sameBag(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func subBag(a, b map[string]int) bool {
	for k, v := range a {
		if b[k] < v {
			return false
		}
	}
	return true
}

// check compares the settled state with the model.
func (w *lworld) check() {
	h := w.h
	dirs := w.b.GetDirectives()
	ctrls := w.b.GetControllers()
	h.Lock()
	defer h.Unlock()
	listed := map[*lctl]int{}
	for _, c := range ctrls {
		if lc, ok := c.(*lctl); ok {
			listed[lc]++
		}
	}
	// live ExecController instances
	type ekey struct {
		f *lfac
		n int
	}
	live := map[ekey]directive.Instance{}
	liveN := map[int]int{}
	for _, di := range dirs {
		if e, ok := di.GetDirective().(loader.ExecController); ok {
			n := e.GetExecControllerConfig().(*lconf).n
			live[ekey{unfac(e.GetExecControllerFactory()), n}] = di
			liveN[n]++
		}
	}
	// chains
	type exp struct {
		bag   map[string]int
		count int
	}
	want := map[ekey]*exp{}
	for _, ch := range w.chlist {
		k := ekey{ch.fac, ch.n}
		if ch.ctx.Err() != nil {
			if ch.ctl != nil {
				c := ch.ctl
				if c.active > 0 {
					h.FailLocked("C13", "runs-unwanted", "a controller runs although its resolver ended (context live: %v)", c.ctx.Err() == nil)
				}
				if c.closes == 0 {
					h.FailLocked("C13", "not-closed", "the controller of an ended activation is not closed")
				}
				if listed[c] > 0 {
					h.FailLocked("C13", "listed-unwanted", "the controller of an ended activation is on the bus")
				}
			}
			continue
		}
		if ch.fac.ctx != nil && ch.fac.ctx.Err() != nil {
			h.FailLocked("C13", "runs-unloaded", "the activation of an unloaded factory is live")
			continue
		}
		if live[k] == nil {
			h.FailLocked("C13", "runs-unwanted", "the activation of a directive that is gone is live")
			continue
		}
		e := want[k]
		if e == nil {
			e = &exp{bag: map[string]int{}}
			want[k] = e
		}
		e.count++
		switch ch.state {
		case chRunning, chFinished:
			if ch.ctl.closes > 0 {
				h.FailLocked("C13", "closed-early", "a wanted controller was closed")
			}
			if listed[ch.ctl] != 1 {
				h.FailLocked("C13", "not-listed", "a wanted controller is listed %d times", listed[ch.ctl])
			}
			e.bag[fmt.Sprintf("controller %d", ch.ctl.idx)]++
		case chFailed:
			_, _, stop := boSeq(w.kind(ch.n), ch.last.idx)
			if !stop {
				if ch.last.canceled {
					e.bag["error canceled"]++
				} else {
					e.bag[fmt.Sprintf("error %d", ch.last.seq)]++
				}
			}
			if ch.ctl != nil && listed[ch.ctl] != 0 {
				h.FailLocked("C13", "listed-unwanted", "a failed controller is on the bus")
			}
			if stop && ch.ctl != nil && ch.ctl.closes == 0 {
				h.FailLocked("C13", "not-closed", "a controller that is not retried was not closed")
			}
		case chBusy:
			// constructing slowly
			e.count += 100
		}
	}
	for k, di := range live {
		e := want[k]
		if e == nil {
			e = &exp{bag: map[string]int{}}
		}
		if e.count >= 100 {
			continue
		}
		capped := w.p[fmt.Sprintf("v%d", k.n)] == 1
		if !capped && e.count != w.nload {
			h.FailLocked("C13", "not-executed", "%d loaders are attached, %d run or ran the controller of config %d", w.nload, e.count, k.n)
		}
		if capped && e.count == 0 && w.nload > 0 {
			h.FailLocked("C13", "not-executed", "no loader runs the controller of config %d", k.n)
		}
		for _, r := range w.refs {
			if r.di != di || r.rel || r.gone {
				continue
			}
			got := map[string]int{}
			for _, v := range r.vals {
				got[descVal(v)]++
				if v.GetError() != nil && v.GetNextRetryTimestamp().UnixNano() < time.Now().UnixNano() {
					h.FailLocked("C13", "retry-overdue", "the retry announced for %v ago did not happen", time.Since(v.GetNextRetryTimestamp()))
				}
			}
			if !capped && !sameBag(got, e.bag) {
				h.FailLocked("C13", "values", "a reference of config %d sees %v, expected %v", k.n, got, e.bag)
			}
			// a value refused by the cap is not offered again
			if capped && !subBag(got, e.bag) {
				h.FailLocked("C13", "values", "a reference of capped config %d sees %v, expected some of %v", k.n, got, e.bag)
			}
		}
	}
	// LoadControllerWithConfig
	execRefs := map[int]int{}
	for _, r := range w.refs {
		if !r.load && !r.rel && !r.gone {
			execRefs[r.n]++
		}
	}
	for _, wt := range w.waits {
		if (!wt.done || wt.held) && !wt.load {
			execRefs[wt.n]++
		}
	}
	loads := map[int]bool{}
	loadDi := map[directive.Instance]bool{}
	for _, di := range dirs {
		if l, ok := di.GetDirective().(resolver.LoadControllerWithConfig); ok {
			loads[l.GetLoadControllerConfig().(*lconf).n] = true
			loadDi[di] = true
		}
	}
	for n := range liveN {
		if execRefs[n] > 0 {
			continue
		}
		if !loads[n] {
			h.FailLocked("C14", "not-released", "config %d is executed although nothing asks for it any more", n)
			continue
		}
		// somebody must be able to resolve it
		ok := false
		for _, r := range w.allr {
			ok = ok || r.rel == nil || r.remB == 0
		}
		if !ok {
			h.FailLocked("C14", "not-released", "config %d is executed although no resolver is attached", n)
		}
	}
	for _, r := range w.refs {
		if !r.load || r.rel || r.gone || !loadDi[r.di] {
			continue
		}
		got := map[string]int{}
		all := map[string]int{}
		for k, e := range want {
			if k.n == r.n && e.count < 100 {
				for d, v := range e.bag {
					all[d] += v * 3
				}
			}
			if e.count >= 100 {
				all = nil
				break
			}
		}
		if all == nil {
			continue
		}
		for _, v := range r.vals {
			got[descVal(v)]++
		}
		if !subBag(got, all) {
			h.FailLocked("C14", "values", "LoadControllerWithConfig of config %d has values %v, executed are %v", r.n, got, all)
		}
		if w.closed[r.n] || w.p[fmt.Sprintf("v%d", r.n)] == 1 {
			continue
		}
		// resolvers that certainly had a factory
		var rs []*lres
		fs := map[*lfac]bool{}
		for _, s := range w.allr {
			for _, f := range s.facsB {
				if f.id == lconfID(r.n) {
					fs[f] = true
				}
			}
			if s.rel != nil && s.remB == 0 {
				for _, f := range s.facs {
					if f.id == lconfID(r.n) {
						rs = append(rs, s)
						break
					}
				}
			}
		}
		if len(fs) != 1 || len(w.vers[r.n]) > 1 {
			continue // superseding versions
		}
		var f *lfac
		for f = range fs {
		}
		if w.vers[r.n] != nil && !w.vers[r.n][f] || f.ctx.Err() != nil {
			continue
		}
		if len(rs) == 0 || !w.initialFactory(rs, f) {
			continue
		}
		e := want[ekey{f, r.n}]
		if live[ekey{f, r.n}] == nil {
			h.FailLocked("C14", "not-loaded", "config %d is wanted and its factory is available, but it is not executed", r.n)
		} else if e != nil {
			for d := range e.bag {
				if got[d] == 0 {
					h.FailLocked("C14", "values", "LoadControllerWithConfig of config %d does not have the value %s", r.n, d)
				}
			}
		}
	}
	for _, wt := range w.waits {
		if wt.cbs > 1 {
			h.FailLocked("C13", "wait-dispose", "the dispose callback of WaitExecControllerRunning was called %d times", wt.cbs)
		}
		if wt.held && wt.ctl != nil && !wt.load {
			ch := wt.ctl.ch
			up := ch.ctx.Err() == nil && (ch.state == chRunning || ch.state == chFinished)
			if up && wt.cbs > 0 && ch.nfail == 0 {
				h.FailLocked("C13", "wait-dispose", "the dispose callback was called although the controller is running")
			}
			if !up && ch.state != chBusy && wt.cbs == 0 {
				h.FailLocked("C13", "wait-dispose", "the controller left the running state and the dispose callback was not called")
			}
		}
		if wt.done || wt.ctx.Err() != nil {
			continue
		}
		// a value is there: the wait must have returned
		for k, e := range want {
			// (a value refused by the cap is not offered again)
			capped := w.p[fmt.Sprintf("v%d", k.n)] == 1
			if !wt.load && !capped && k.n == wt.n && e.count < 100 && len(e.bag) > 0 && liveN[k.n] == 1 {
				h.FailLocked("C13", "wait-hang", "WaitExecControllerRunning keeps waiting although %v is attached", e.bag)
			}
		}
	}
}

// initialFactory reports whether one of the resolvers had f when it was
// attached.
func (w *lworld) initialFactory(rs []*lres, f *lfac) bool {
	for _, r := range rs {
		for _, o := range r.facs[:r.init] {
			if o == f {
				return true
			}
		}
	}
	return false
}

// lookups looks up the factory and the constructor of every config while
// nothing else happens: they are found exactly if a resolver has them, and stay.
func (w *lworld) lookups() {
	h := w.h
	type look struct {
		n       int
		ctor    bool
		vals    map[uint32]any
		missing string
	}
	var looks []*look
	var refs []directive.Reference
	for n := 0; n < loaderConfs; n++ {
		for _, ctor := range []bool{false, true} {
			l := &look{n: n, ctor: ctor, vals: map[uint32]any{}}
			var dir directive.Directive = resolver.NewLoadFactoryByConfig(newLConf(n))
			if ctor {
				dir = resolver.NewLoadConfigConstructorByID(lconfID(n))
			}
			_, ref, err := w.b.AddDirective(dir, bus.NewCallbackHandler(func(v directive.AttachedValue) {
				h.Lock()
				l.vals[v.GetValueID()] = v.GetValue()
				h.Unlock()
			}, func(v directive.AttachedValue) {
				h.Lock()
				delete(l.vals, v.GetValueID())
				h.Unlock()
			}, nil))
			if err != nil {
				h.Fail("C14", "lookup-error", "looking up config %d: %v", n, err)
				return
			}
			looks, refs = append(looks, l), append(refs, ref)
		}
	}
	h.Quiesce(time.Minute)
	h.Lock()
	for _, l := range looks {
		has := false
		for _, s := range w.allr {
			if s.rel != nil && s.remB == 0 {
				for _, f := range s.facs {
					has = has || f.id == lconfID(l.n)
				}
			}
		}
		if has != (len(l.vals) != 0) {
			h.FailLocked("C14", "lookup", "config %d: a resolver has its factory: %v, values of the lookup: %d (constructor: %v)", l.n, has, len(l.vals), l.ctor)
		}
		for _, v := range l.vals {
			if l.ctor {
				if cc, _ := v.(config.Constructor); cc == nil || cc.GetConfigID() != lconfID(l.n) {
					h.FailLocked("C14", "wrong-constructor", "LoadConfigConstructorByID of config %d yields a constructor of another config", l.n)
				}
			} else if f, _ := v.(controller.Factory); f == nil || f.GetConfigID() != lconfID(l.n) {
				h.FailLocked("C14", "wrong-factory", "LoadFactoryByConfig of config %d yields the factory of another config", l.n)
			}
		}
	}
	h.Unlock()
	for _, ref := range refs {
		ref.Release()
	}
	h.Quiesce(time.Minute)
}

func (Loader) Exec(h *sim.H, s *sim.Script) {
	h.NoPanics("C13")
	ctx, cancel := context.WithCancel(context.Background())
	wctx, wcancel := context.WithCancel(ctx)
	dc := dcontroller.NewController(ctx, h.Le)
	w := &lworld{h: h, p: s.P, ctx: ctx, wctx: wctx, rnd: sim.NewRand(h.Seed ^ 0x10ad),
		b:      inmem.NewBus(dc),
		chains: map[context.Context]*lchain{}, facs: map[string]*lfac{}, slots: map[int]*lref{}, ress: map[int]*lres{},
		lds: map[int]func(){}, closed: map[int]bool{}, canceled: map[int]bool{}, vers: map[int]map[*lfac]bool{}, insts: map[directive.Instance]bool{}}
	for i, ops := range s.Tasks {
		if i == 0 {
			for _, op := range ops {
				w.do(op, func(string) {})
			}
			continue
		}
		h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
			for _, op := range ops {
				w.do(op, at)
			}
		})
	}
	if !h.MustJoin("C13", 4*time.Minute) {
		return
	}
	for _, r := range w.allr {
		w.list(r)
	}
	d := 7 * time.Second
	if s.P["long"] == 1 {
		d = 40 * time.Minute
	}
	h.Quiesce(d)
	w.check()

	// everything that waits stops waiting
	wcancel()
	h.Quiesce(time.Minute)
	h.Lock()
	for _, wt := range w.waits {
		if !wt.done {
			h.FailLocked("C13", "wait-hang", "WaitExecControllerRunning did not return a minute after its context ended")
		}
	}
	rels := w.slots
	w.slots = map[int]*lref{}
	h.Unlock()
	w.check()

	// nothing is wanted any more
	for i := 0; i < 4; i++ {
		if r := rels[i]; r != nil {
			h.Lock()
			r.rel = true
			h.Unlock()
			r.ref.Release()
		}
	}
	h.Quiesce(time.Minute)
	w.check()
	n := 0
	for _, di := range w.b.GetDirectives() {
		switch di.GetDirective().(type) {
		case loader.ExecController, resolver.LoadControllerWithConfig, resolver.LoadFactoryByConfig, resolver.LoadConfigConstructorByID:
			n++
		}
	}
	if n != 0 {
		h.Fail("C14", "not-released", "%d directives are alive after everything was released", n)
	}
	w.lookups()
	h.Lock()
	for _, c := range w.ctls {
		if c.active > 0 || c.closes != 1 {
			h.FailLocked("C13", "not-closed", "controller %d of an unwanted config: running=%d closed %d times", c.idx, c.active, c.closes)
		}
	}
	h.Unlock()
	for _, f := range w.factx {
		f.cf()
	}
	for _, r := range w.allr {
		r.rc.Close()
	}
	cancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C13"
}
