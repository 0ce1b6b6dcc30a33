package scen

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	boilerplate "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	"github.com/blang/semver/v4"

	"verifsim/sim"
)

// ConfSet applies, looks up and pushes controller configurations through the
// configset controller.
type ConfSet struct{}

func (ConfSet) Name() string { return "confset" }

const csKeys = 2

// kinds of a configuration
const (
	csRuns = iota
	csSlow
	csFinishes
	csRetries
	csInvalid
	csNoFactory
	csKinds
)

func (ConfSet) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{"salt": r.N(1 << 20)}}
	nk := 1 + r.N(csKeys)
	key := func() int { return r.N(nk) }
	s.P["late"] = r.Pick(0, 0, 0, 1)
	calm := r.P(40)
	for t, nt := 0, 2+r.N(3); t < nt; t++ {
		var ops []sim.Op
		for i, n := 0, 2+r.N(8); i < n; i++ {
			slot, rev := r.N(4), 1+r.N(4)
			kind := r.Pick(csRuns, csRuns, csSlow, csFinishes, csRetries, csInvalid, csNoFactory)
			switch x := r.N(100); {
			case x < 16 || i == 0 && x < 50:
				// slot, keys (mask), rev, kind
				ops = append(ops, sim.Op{K: "apply", A: []int{slot, 1 + r.N(1<<nk-1), rev, kind, rev, r.Pick(csRuns, kind)}})
			case x < 28 || i == 0 && x < 75:
				ops = append(ops, sim.Op{K: "push", A: []int{slot, key(), rev, kind, r.N(3)}})
			case x < 40 || i == 0 && x < 90:
				ops = append(ops, sim.Op{K: "lookup", A: []int{slot, 1 + r.N(1<<nk-1)}})
			case x < 52 || i == 0:
				ops = append(ops, sim.Op{K: "pref", A: []int{slot, key(), r.N(3)}})
			case x < 75:
				ops = append(ops, sim.Op{K: "rel", A: []int{slot}})
			case x < 78:
				ops = append(ops, sim.Op{K: "addcb", A: []int{slot}})
			case x < 81:
				ops = append(ops, sim.Op{K: "get", A: []int{slot}})
			case x < 84 && !calm:
				ops = append(ops, sim.Op{K: "close", A: []int{slot}})
			case x < 87 && !calm:
				ops = append(ops, sim.Op{K: "closeload", A: []int{r.N(4)}})
			case x < 88 && !calm:
				ops = append(ops, sim.Op{K: "stop"})
			case x < 89 && !calm:
				ops = append(ops, sim.Op{K: "start"})
			default:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 10, 300, 1500, 4000)}})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

// csconf is a controller configuration.
type csconf struct {
	*boilerplate.Config
	key, kind int
}

func (c *csconf) Validate() error {
	if c.kind == csInvalid {
		return errInvalidConf
	}
	return nil
}

var errInvalidConf = errors.New("invalid config")

func (c *csconf) GetConfigID() string {
	if c.kind == csNoFactory {
		return "cs/none"
	}
	return "cs"
}

func (c *csconf) EqualsConfig(o config.Config) bool {
	oc, ok := o.(*csconf)
	return ok && oc.key == c.key && oc.kind == c.kind
}

// revScale is the factor of the revisions of a run: some are beyond 32 bits.
func revScale(h *sim.H) uint64 {
	if h.Seed%3 == 0 {
		return 1 << 31
	}
	return 1
}

// cspush is a configuration of a key with a revision.
type cspush struct {
	c   *csconf
	rev uint64
	idx int
	beg bool
}

func (p *cspush) GetRev() uint64           { return p.rev }
func (p *cspush) GetConfig() config.Config { return p.c }

// cserr is a failure of a controller.
type cserr struct{ key, kind int }

func (e *cserr) Error() string { return fmt.Sprintf("failure of key %d kind %d", e.key, e.kind) }

type csfac struct{ w *csworld }

func (f *csfac) GetConfigID() string            { return "cs" }
func (f *csfac) ConstructConfig() config.Config { return &csconf{Config: &boilerplate.Config{}} }
func (f *csfac) GetVersion() semver.Version     { return semver.Version{Major: 1} }
func (f *csfac) Construct(ctx context.Context, conf config.Config, opts controller.ConstructOpts) (controller.Controller, error) {
	w, h := f.w, f.w.h
	c := conf.(*csconf)
	sim.Yield()
	h.Lock()
	defer h.Unlock()
	k := [2]int{c.key, c.kind}
	w.tries[k]++
	if c.kind == csRetries && w.tries[k]%3 == 1 {
		h.LogLocked("construct key %d kind %d fails", c.key, c.kind)
		return nil, &cserr{c.key, c.kind}
	}
	if c.kind == csInvalid {
		h.FailLocked("C16", "invalid-constructed", "a controller with an invalid config was constructed")
	}
	ctl := &csctl{w: w, c: c, idx: len(w.ctls)}
	w.ctls = append(w.ctls, ctl)
	h.LogLocked("constructed controller %d key %d kind %d", ctl.idx, c.key, c.kind)
	return ctl, nil
}

type csctl struct {
	w        *csworld
	c        *csconf
	idx      int
	runs     int
	active   int
	finished bool
	closes   int
}

func (c *csctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(fmt.Sprintf("csctl/%d", c.idx), semver.Version{}, "")
}

func (c *csctl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	return nil, nil
}

func (c *csctl) Close() error {
	sim.Yield()
	c.w.h.Lock()
	c.closes++
	c.w.h.LogLocked("controller %d closed", c.idx)
	c.w.h.Unlock()
	return nil
}

func (c *csctl) Execute(ctx context.Context) error {
	h := c.w.h
	sim.Yield()
	h.Lock()
	c.runs++
	c.active++
	run := c.runs
	h.LogLocked("controller %d of key %d kind %d executes", c.idx, c.c.key, c.c.kind)
	h.Unlock()
	var err error
	switch c.c.kind {
	case csFinishes:
		if c.idx%2 == 0 {
			sim.Sleep(50 * time.Millisecond)
		}
	case csRetries:
		if run < 3 {
			h.Fault("controller-error")
			if c.idx%2 == 0 {
				sim.Sleep(20 * time.Millisecond)
			}
			err = &cserr{c.c.key, c.c.kind}
			break
		}
		<-ctx.Done()
	case csSlow:
		<-ctx.Done()
		h.Fault("slow-cancel")
		sim.Sleep(300 * time.Millisecond)
		err = ctx.Err()
	default:
		<-ctx.Done()
		err = ctx.Err()
	}
	h.Lock()
	c.active--
	c.finished = err == nil
	h.LogLocked("controller %d returns %v", c.idx, err)
	h.Unlock()
	return err
}

// cswatch is a state callback of a reference.
type cswatch struct {
	last configset.State
	n    int
}

// csref holds keys of the configset.
type csref struct {
	w    *csworld
	kind string
	keys []int
	// push: what was pushed by key
	push map[int]*cspush
	slot int
	// directive
	di   directive.Instance
	dref directive.Reference
	vals map[uint32]configset.State
	// push, pref
	ref     configset.Reference
	watches []*cswatch
	relB    bool
	gone    bool
	// closing: its directive may be closed
	closing bool
	// def are the keys it holds for certain
	def map[int]bool
}

type csworld struct {
	h   *sim.H
	p   map[string]int
	b   bus.Bus
	ctx context.Context
	cc  *configset_controller.Controller
	rel func()
	// busy: no configset controller is attached for certain
	busy    bool
	stopped bool
	slots   map[int]*csref
	refs    []*csref
	ctls    []*csctl
	tries   map[[2]int]int
	confs   []*cspush
	// known: certainly configured since a reference held it all the time
	known map[int]bool
	// closing counts the calls which close a directive by kind
	closing map[string]int
	minRev  map[int]uint64
}

func csKey(k int) string { return fmt.Sprintf("key%d", k) }

// hold notes that r holds k for certain.
func (w *csworld) hold(r *csref, k int) {
	if r.relB || r.gone || r.closing || w.closing[r.kind] != 0 || r.def[k] {
		return
	}
	r.def[k] = true
	if p := r.push[k]; p != nil {
		w.known[k] = true
		w.minRev[k] = max(w.minRev[k], p.rev)
	}
}

// unhold notes that r may not hold its keys now.
func (w *csworld) unhold(r *csref) {
	for _, k := range r.keys {
		if !r.def[k] {
			continue
		}
		r.def[k] = false
		any := false
		for _, o := range w.refs {
			any = any || o.def[k]
		}
		if !any {
			w.known[k], w.minRev[k] = false, 0
		}
	}
}

// state checks one reported state of key k.
func (w *csworld) state(what string, k int, s configset.State) {
	if s == nil {
		w.h.FailLocked("C16", "nil-state", "%s: the state is nil", what)
		return
	}
	if s.GetId() != csKey(k) {
		w.h.FailLocked("C16", "wrong-key", "%s: the state of %s is of %q", what, csKey(k), s.GetId())
	}
	p, _ := s.GetControllerConfig().(*cspush)
	if p == nil {
		if s.GetController() != nil || s.GetError() != nil {
			w.h.FailLocked("C16", "torn-state", "%s: a state without config has controller %v and error %v", what, s.GetController(), s.GetError())
		}
		return
	}
	if p.c.key != k {
		w.h.FailLocked("C16", "wrong-config", "%s: key %d has the config of key %d", what, k, p.c.key)
	}
	if !p.beg {
		w.h.FailLocked("C16", "unknown-config", "%s: the config was never applied", what)
	}
	if c := s.GetController(); c != nil {
		ct, _ := c.(*csctl)
		if ct == nil || !ct.c.EqualsConfig(p.c) {
			w.h.FailLocked("C16", "torn-state", "%s: the state of config %d (kind %d) has a controller of another config", what, p.idx, p.c.kind)
		}
		if s.GetError() != nil {
			w.h.FailLocked("C16", "torn-state", "%s: a state has a controller and error %v", what, s.GetError())
		}
	}
	if err := s.GetError(); err != nil {
		var e *cserr
		switch {
		case err == errInvalidConf || err.Error() == errInvalidConf.Error():
			if p.c.kind != csInvalid {
				w.h.FailLocked("C16", "torn-state", "%s: the state of valid config %d (kind %d) has error %v", what, p.idx, p.c.kind, err)
			}
		case errors.As(err, &e):
			if e.key != k || e.kind != p.c.kind {
				w.h.FailLocked("C16", "torn-state", "%s: the state of config %d (kind %d) has error %v", what, p.idx, p.c.kind, err)
			}
		case errors.Is(err, context.Canceled):
		default:
			w.h.FailLocked("C16", "wrong-error", "%s: error %v", what, err)
		}
	}
}

func (r *csref) HandleValueAdded(di directive.Instance, v directive.AttachedValue) {
	w, h := r.w, r.w.h
	sim.Yield()
	h.Lock()
	defer h.Unlock()
	st, _ := v.GetValue().(configset.State)
	if st == nil {
		h.FailLocked("C16", "bad-value", "the value is not a state")
		return
	}
	r.vals[v.GetValueID()] = st
	for _, k := range r.keys {
		if csKey(k) == st.GetId() {
			w.state(r.kind+" value", k, st)
			if !w.busy {
				w.hold(r, k)
			}
			return
		}
	}
	h.FailLocked("C16", "wrong-key", "a value of %s is of a key %q not asked for", r.kind, st.GetId())
}

func (r *csref) HandleValueRemoved(di directive.Instance, v directive.AttachedValue) {
	r.w.h.Lock()
	delete(r.vals, v.GetValueID())
	r.w.h.Unlock()
	sim.Yield()
}

func (r *csref) HandleInstanceDisposed(di directive.Instance) {
	r.w.h.Lock()
	r.w.unhold(r)
	r.gone = true
	r.w.h.LogLocked("%s %v disposed", r.kind, r.keys)
	r.vals = map[uint32]configset.State{}
	r.w.h.Unlock()
}

// swap stores r in a slot and releases what was there.
func (w *csworld) swap(slot int, r *csref) {
	w.h.Lock()
	old := w.slots[slot]
	if r != nil {
		w.slots[slot] = r
	} else {
		delete(w.slots, slot)
	}
	w.h.Unlock()
	if old != nil {
		w.release(old)
	}
}

func (w *csworld) release(r *csref) {
	w.h.Lock()
	w.unhold(r)
	r.relB = true
	w.h.LogLocked("release %s %v", r.kind, r.keys)
	w.h.Unlock()
	if r.dref != nil {
		r.dref.Release()
	} else {
		r.ref.Release()
	}
}

func (w *csworld) watch(r *csref) {
	x := &cswatch{}
	w.h.Lock()
	r.watches = append(r.watches, x)
	w.h.Unlock()
	k := r.keys[0]
	r.ref.AddStateCallback(func(s configset.State) {
		sim.Yield()
		w.h.Lock()
		defer w.h.Unlock()
		w.state(r.kind+" callback", k, s)
		if r.kind == "push" && x.last != nil {
			o, _ := x.last.GetControllerConfig().(*cspush)
			n, _ := s.GetControllerConfig().(*cspush)
			if o != nil && (n == nil || n.rev < o.rev) {
				w.h.FailLocked("C16", "older-state", "a callback got a state older than the one before it")
			}
		}
		x.last = s
		x.n++
	})
	w.h.Lock()
	if x.n == 0 {
		w.h.FailLocked("C16", "no-initial-state", "AddStateCallback returned without calling the callback")
	}
	w.h.Unlock()
}

func (w *csworld) newConf(k, rev, kind int) *cspush {
	p := &cspush{c: &csconf{Config: &boilerplate.Config{}, key: k, kind: kind}, rev: uint64(rev) * revScale(w.h), idx: len(w.confs), beg: true}
	w.confs = append(w.confs, p)
	return p
}

func (w *csworld) do(op sim.Op, at func(string)) {
	h := w.h
	at(op.String())
	h.Count(op.K)
	slot := op.Arg(0)
	switch op.K {
	case "apply", "lookup":
		h.Lock()
		r := &csref{w: w, kind: op.K, slot: slot, vals: map[uint32]configset.State{}, def: map[int]bool{}, push: map[int]*cspush{}}
		w.refs = append(w.refs, r)
		set := configset.ConfigSet{}
		var names []string
		for k := 0; k < csKeys; k++ {
			if op.Arg(1)>>k&1 == 0 {
				continue
			}
			r.keys = append(r.keys, k)
			names = append(names, csKey(k))
			if op.K == "apply" {
				p := w.newConf(k, op.Arg(2+2*(k&1)), op.Arg(3+2*(k&1)))
				r.push[k] = p
				set[csKey(k)] = p
			}
		}
		h.Unlock()
		var d directive.Directive
		if op.K == "apply" {
			d = configset.NewApplyConfigSet(set)
		} else {
			d = configset.NewLookupConfigSet(names)
		}
		di, ref, err := w.b.AddDirective(d, r)
		if err != nil {
			h.Fail("C16", "add-failed", "AddDirective returned %v", err)
			return
		}
		h.Lock()
		r.di, r.dref = di, ref
		h.Unlock()
		w.swap(slot, r)
	case "push", "pref":
		k := op.Arg(1)
		h.Lock()
		if w.busy {
			h.Unlock()
			return
		}
		r := &csref{w: w, kind: op.K, slot: slot, keys: []int{k}, def: map[int]bool{}, push: map[int]*cspush{}}
		w.refs = append(w.refs, r)
		cc := w.cc
		n := op.Arg(2)
		if op.K == "push" {
			r.push[k] = w.newConf(k, op.Arg(2), op.Arg(3))
			n = op.Arg(4)
		}
		h.Unlock()
		var ref configset.Reference
		var err error
		if op.K == "push" {
			ref, err = cc.PushControllerConfig(w.ctx, csKey(k), r.push[k])
		} else {
			ref, err = cc.AddConfigSetReference(w.ctx, csKey(k))
		}
		if err != nil || ref == nil {
			h.Fail("C16", "push-failed", "%s returned %v", op.K, err)
			return
		}
		h.Lock()
		r.ref = ref
		if !w.busy {
			w.hold(r, k)
		}
		h.Unlock()
		if ref.GetConfigKey() != csKey(k) {
			h.Fail("C16", "wrong-key", "the reference of %s is of %s", csKey(k), ref.GetConfigKey())
		}
		for i := 0; i < n; i++ {
			w.watch(r)
		}
		w.swap(slot, r)
	case "rel":
		w.swap(slot, nil)
	case "addcb", "get":
		h.Lock()
		r := w.slots[slot]
		h.Unlock()
		if r == nil || r.ref == nil {
			return
		}
		if op.K == "addcb" {
			w.watch(r)
		} else {
			s := r.ref.GetState()
			h.Lock()
			w.state("GetState", r.keys[0], s)
			h.Unlock()
		}
	case "close":
		h.Lock()
		r := w.slots[slot]
		h.Unlock()
		if r == nil || r.di == nil {
			return
		}
		mark := func(d int) {
			h.Lock()
			w.closing[r.kind] += d
			for _, o := range w.refs {
				if o.kind == r.kind {
					w.unhold(o)
					o.closing = true
				}
			}
			h.Unlock()
		}
		h.Fault("directive-closed")
		mark(1)
		r.di.Close()
		mark(-1)
	case "closeload":
		var l []directive.Instance
		for _, di := range w.b.GetDirectives() {
			if _, ok := di.GetDirective().(resolver.LoadControllerWithConfig); ok {
				l = append(l, di)
			}
		}
		if len(l) != 0 {
			h.Fault("load-directive-closed")
			l[op.Arg(0)%len(l)].Close()
		}
	case "stop":
		h.Lock()
		rel := w.rel
		w.rel = nil
		if rel != nil {
			w.busy = true
			for _, r := range w.refs {
				w.unhold(r)
				if r.dref == nil && r.vals == nil {
					r.relB = true
				}
			}
			for k := range w.known {
				w.known[k], w.minRev[k] = false, 0
			}
		}
		h.Unlock()
		if rel != nil {
			h.Fault("configset-stopped")
			rel()
			h.Lock()
			w.stopped = true
			h.Unlock()
		}
	case "start":
		w.start()
	case "sleep":
		sim.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
	}
}

func (w *csworld) start() {
	w.h.Lock()
	if !w.stopped {
		w.h.Unlock()
		return
	}
	w.stopped = false
	w.h.Unlock()
	cc, err := configset_controller.NewController(w.h.Le, w.b)
	if err != nil {
		panic(err)
	}
	w.h.Lock()
	w.cc, w.busy = cc, false
	w.h.Unlock()
	rel, err := w.b.AddController(w.ctx, cc, nil)
	if err != nil {
		panic(err)
	}
	w.h.Lock()
	w.rel = rel
	w.h.Unlock()
}

// check checks the quiescent state.
func (w *csworld) check(at string) {
	h := w.h
	type obs struct {
		what string
		s    configset.State
	}
	var get []*csref
	h.Lock()
	for _, r := range w.refs {
		if !r.relB && r.ref != nil {
			get = append(get, r)
		}
	}
	h.Unlock()
	got := map[*csref]configset.State{}
	for _, r := range get {
		got[r] = r.ref.GetState()
	}
	h.Lock()
	defer h.Unlock()
	for k := 0; k < csKeys; k++ {
		var states []obs
		held, pushed := false, false
		for _, r := range w.refs {
			if r.relB || r.gone {
				continue
			}
			mine := false
			for _, rk := range r.keys {
				mine = mine || rk == k
			}
			if !mine {
				continue
			}
			held = true
			pushed = pushed || r.push[k] != nil
			if r.ref != nil {
				states = append(states, obs{r.kind + " GetState", got[r]})
				for _, x := range r.watches {
					states = append(states, obs{r.kind + " callback", x.last})
				}
				continue
			}
			n := 0
			for _, id := range csIDs(r.vals) {
				if s := r.vals[id]; s.GetId() == csKey(k) {
					n++
					states = append(states, obs{r.kind + " value", s})
					if !w.busy {
						w.hold(r, k)
					}
				}
			}
			if want := 1; w.busy {
				if n != 0 {
					h.FailLocked("C16", "stale-value", "%s: %d values of %s without a configset controller", at, n, r.kind)
				}
			} else if n != want {
				h.FailLocked("C16", "values", "%s: %s of key %d has %d values", at, r.kind, k, n)
			}
		}
		if w.busy {
			held, pushed, states = false, false, nil
		}
		// all observers agree
		for i := 1; i < len(states); i++ {
			a, b := states[0], states[i]
			if a.s.GetControllerConfig() != b.s.GetControllerConfig() || a.s.GetController() != b.s.GetController() || fmt.Sprint(a.s.GetError()) != fmt.Sprint(b.s.GetError()) {
				h.FailLocked("C16", "states-differ", "%s: key %d: %s is %s but %s is %s", at, k, a.what, csDesc(a.s), b.what, csDesc(b.s))
			}
		}
		var live []*csctl
		for _, c := range w.ctls {
			if c.c.key != k {
				continue
			}
			if c.closes > 1 {
				h.FailLocked("C16", "closed-twice", "%s: a controller was closed %d times", at, c.closes)
			}
			if c.closes == 0 {
				live = append(live, c)
			} else if c.active > 0 {
				h.FailLocked("C16", "closed-running", "%s: a closed controller runs", at)
			}
		}
		if !held {
			if len(live) != 0 {
				h.FailLocked("C16", "not-stopped", "%s: no reference to key %d is held but %d controllers of it are not closed", at, k, len(live))
			}
			continue
		}
		var s configset.State
		var p *cspush
		if len(states) != 0 {
			s = states[0].s
			p, _ = s.GetControllerConfig().(*cspush)
			w.state(states[0].what, k, s)
		} else {
			continue // only references without callbacks being added
		}
		if pushed || w.known[k] {
			if p == nil {
				h.FailLocked("C16", "not-applied", "%s: key %d is configured and referenced but its state is %s", at, k, csDesc(s))
				continue
			}
			if p.rev < w.minRev[k] {
				h.FailLocked("C16", "old-config", "%s: key %d uses revision %d though revision %d was applied", at, k, p.rev, w.minRev[k])
			}
		}
		if p == nil {
			if len(live) != 0 {
				h.FailLocked("C16", "not-stopped", "%s: key %d has no config but %d controllers are not closed", at, k, len(live))
			}
			continue
		}
		h.StateLocked(uint64(k)<<20 | uint64(p.c.kind)<<8 | p.rev)
		switch p.c.kind {
		case csInvalid, csNoFactory:
			if len(live) != 0 {
				h.FailLocked("C16", "old-running", "%s: key %d: a controller is not closed though config %d cannot run", at, k, p.idx)
			}
			if s.GetController() != nil || (s.GetError() != nil) != (p.c.kind == csInvalid) {
				h.FailLocked("C16", "wrong-state", "%s: key %d: the state is %s", at, k, csDesc(s))
			}
			continue
		}
		if len(live) != 1 {
			h.FailLocked("C16", "running", "%s: key %d with config %d (kind %d): %d controllers are not closed", at, k, p.idx, p.c.kind, len(live))
			continue
		}
		c := live[0]
		if !c.c.EqualsConfig(p.c) || c.active == 1 == c.finished {
			h.FailLocked("C16", "running", "%s: key %d: the controller of kind %d (active %d) does not run config %d of kind %d", at, k, c.c.kind, c.active, p.idx, p.c.kind)
		}
		if s.GetController() != controller.Controller(c) || s.GetError() != nil {
			h.FailLocked("C16", "wrong-state", "%s: key %d: controller %d runs but the state is %s", at, k, c.idx, csDesc(s))
		}
	}
}

func csIDs(m map[uint32]configset.State) []uint32 {
	var out []uint32
	for id := range m {
		out = append(out, id)
	}
	slices.Sort(out)
	return out
}

func csDesc(s configset.State) string {
	if s == nil {
		return "nil"
	}
	d := "{no config"
	if p, _ := s.GetControllerConfig().(*cspush); p != nil {
		d = fmt.Sprintf("{config %d kind %d rev %d", p.idx, p.c.kind, p.rev)
	}
	if c, _ := s.GetController().(*csctl); c != nil {
		d += fmt.Sprintf(" controller %d", c.idx)
	}
	return d + fmt.Sprintf(" error %v}", s.GetError())
}

func (ConfSet) Exec(h *sim.H, s *sim.Script) {
	h.NoPanics("C16")
	ctx, cancel := context.WithCancel(context.Background())
	dc := dcontroller.NewController(ctx, h.Le)
	w := &csworld{h: h, p: s.P, ctx: ctx, b: inmem.NewBus(dc), slots: map[int]*csref{}, tries: map[[2]int]int{},
		known: map[int]bool{}, closing: map[string]int{}, minRev: map[int]uint64{}, busy: true, stopped: true}
	lc, err := loader.NewController(h.Le, w.b)
	if err != nil {
		panic(err)
	}
	sr := static.NewResolver()
	sr.AddFactory(&csfac{w})
	rc := resolver.NewController(h.Le, w.b, sr)
	for _, c := range []controller.Controller{lc, rc} {
		if _, err := w.b.AddController(ctx, c, nil); err != nil {
			panic(err)
		}
	}
	if s.P["late"] == 0 {
		w.start()
	}
	for i, ops := range s.Tasks {
		h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
			for _, op := range ops {
				w.do(op, at)
			}
		})
	}
	if !h.MustJoin("C16", 4*time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	w.check("after the run")

	if s.P["late"] == 1 {
		w.start()
		h.Quiesce(time.Minute)
		w.check("after the configset controller was started")
	}

	// release half, then all, while states still change
	for half := 0; half < 2; half++ {
		for i := 0; i < 2; i++ {
			h.Go(fmt.Sprintf("rel%d%d", half, i), func(at func(string)) {
				for n := i; n < 4; n += 2 {
					if half == 1 || (s.P["salt"]>>n)&1 == 1 {
						w.do(sim.Op{K: "rel", A: []int{n}}, at)
					}
				}
			})
		}
		if !h.MustJoin("C16", 4*time.Minute) {
			return
		}
		h.Quiesce(time.Minute)
		w.check([]string{"after some were released", "after all were released"}[half])
	}
	for _, di := range w.b.GetDirectives() {
		switch di.GetDirective().(type) {
		case loader.ExecController, resolver.LoadControllerWithConfig, resolver.LoadFactoryByConfig, configset.ApplyConfigSet, configset.LookupConfigSet:
			h.Fail("C16", "not-released", "directive %s is alive after everything was released", di.GetDirective().GetName())
		}
	}
	rc.Close()
	cancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C16"
}
