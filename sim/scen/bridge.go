package scen

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	bus_bridge "github.com/aperturerobotics/controllerbus/bus/bridge"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"

	"verifsim/sim"
)

// Bridge connects buses with bridges while directives, values and bridges come
// and go.
type Bridge struct{}

func (Bridge) Name() string { return "bridge" }

const (
	brBuses = 3
	brKeys  = 3
	brLoop  = 5
)

// brTopos are the topologies: edges from a bus to its target.
var brTopos = [][][2]int{
	{{0, 1}},
	{{0, 1}, {1, 2}},
	{{0, 1}, {0, 2}},
	{{0, 2}, {1, 2}},
	{{0, 1}, {0, 1}},
	{{0, 1}, {1, 0}},
	{{0, 1}, {0, 2}, {1, 2}},
}

func (Bridge) Gen(r *sim.Rand, prop string) *sim.Script {
	topo := r.N(len(brTopos))
	s := &sim.Script{P: map[string]int{"salt": r.N(1 << 20), "topo": topo}}
	s.P["eq"] = r.Pick(0, 1, 1)
	s.P["linger"] = r.Pick(0, 0, 1)
	s.P["max"] = r.Pick(0, 0, 0, 1)
	if topo == brLoop {
		s.P["eq"], s.P["max"] = 0, 0
	}
	// A bridge does not forward a directive object twice at a time, to detect
	// loops: with directives which are not equivalent to others, nothing below
	// adds an object to a bridged bus again before its instance is gone.
	chain := s.P["eq"] == 0 && (topo == 1 || topo == 6 || topo == brLoop)
	if chain || topo == 4 && s.P["eq"] == 0 {
		s.P["max"] = 0
	}
	ne := len(brTopos[topo])
	for e := 0; e < ne; e++ {
		s.P[fmt.Sprintf("acc%d", e)] = r.Pick(7, 7, 7, r.N(8))
		s.P[fmt.Sprintf("err%d", e)] = r.Pick(0, 0, 0, r.N(8))
		s.P[fmt.Sprintf("up%d", e)] = r.Pick(1, 1, 0)
		if chain {
			s.P[fmt.Sprintf("up%d", e)] = 1
		}
	}
	again := s.P["eq"] == 1 || !chain && s.P["linger"] == 0
	for t, nt := 0, 2*(1+r.N(3)); t < nt; t++ {
		var ops []sim.Op
		for i, n := 0, 3+r.N(8); i < n; i++ {
			switch x := r.N(100); {
			case x < 26 || i == 0 && x < 70:
				ops = append(ops, sim.Op{K: "ref", A: []int{r.N(4), r.Pick(0, 0, 0, 1, 2), r.N(brKeys)}})
			case x < 38:
				ops = append(ops, sim.Op{K: "rel", A: []int{r.N(4)}})
			case x < 46:
				if again {
					ops = append(ops, sim.Op{K: "again", A: []int{r.N(4)}})
				}
			case x < 76 || i == 0:
				ops = append(ops, sim.Op{K: "set", A: []int{r.N(brBuses), r.N(brKeys), r.N(3), r.N(2)}})
			case x < 79:
				ops = append(ops, sim.Op{K: "close", A: []int{r.N(brBuses), r.N(brKeys)}})
			case x < 84:
				if !chain {
					ops = append(ops, sim.Op{K: "addbr", A: []int{r.N(ne), r.N(2)}})
				}
			case x < 88:
				if !chain {
					ops = append(ops, sim.Op{K: "rmbr", A: []int{r.N(ne)}})
				}
			default:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 10, 300, 2500)}})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

// brdir is a directive which is forwarded.
type brdir struct {
	w *brworld
	n int
}

func (d *brdir) Validate() error { return nil }
func (d *brdir) GetValueOptions() directive.ValueOptions {
	var o directive.ValueOptions
	if d.w.p["linger"] == 1 {
		o.UnrefDisposeDur = 2 * time.Second
	}
	o.MaxValueCount = d.w.p["max"]
	return o
}
func (d *brdir) GetName() string { return "brdir" }

// breq is a brdir which is equivalent to others with the key.
type breq struct{ *brdir }

func (d *breq) IsEquivalent(o directive.Directive) bool {
	od, ok := o.(*breq)
	return ok && od.n == d.n
}

func brKey(d directive.Directive) (int, bool) {
	switch d := d.(type) {
	case *breq:
		return d.n, true
	case *brdir:
		return d.n, true
	}
	return 0, false
}

type brref struct {
	w    *brworld
	bus  int
	n    int
	dir  directive.Directive
	di   directive.Instance
	ref  directive.Reference
	rel  bool
	gone bool
	idle bool
	vals map[uint32]int
}

func (r *brref) HandleValueAdded(_ directive.Instance, av directive.AttachedValue) {
	uid, ok := av.GetValue().(int)
	h := r.w.h
	h.Lock()
	defer h.Unlock()
	if b, n := uid/1000%10, uid/100%10; !ok || n != r.n {
		h.FailLocked("C19", "values", "a reference on bus %d of key %d got value %v", r.bus, r.n, av.GetValue())
	} else if b != r.bus && !r.w.reach(r.bus, b, r.n, 0) {
		h.FailLocked("C19", "unfiltered", "a reference on bus %d of key %d got value %d of bus %d although no bridge forwards it", r.bus, r.n, uid, b)
	}
	r.vals[av.GetValueID()] = uid
}
func (r *brref) HandleValueRemoved(_ directive.Instance, av directive.AttachedValue) {
	r.w.h.Lock()
	delete(r.vals, av.GetValueID())
	r.w.h.Unlock()
}
func (r *brref) HandleInstanceDisposed(directive.Instance) {
	r.w.h.Lock()
	r.gone = true
	r.w.h.Unlock()
}

type bredge struct {
	idx  int
	from int
	to   int
	br   *bus_bridge.BusBridge
	rel  func()
	st   int // 0 down, 1 changes, 2 up
	used bool
}

type brworld struct {
	h     *sim.H
	ctx   context.Context
	p     map[string]int
	b     [brBuses]bus.Bus
	edges []*bredge
	slots map[int]*brref
	refs  []*brref
	// own[b][n] are the values of bus b
	own   [brBuses][brKeys][3]int
	seq   int
	mtx   sync.Mutex
	chg   chan struct{}
	loose [brBuses][brKeys]bool
}

// reach checks if values of bus b can reach bus a for key n.
func (w *brworld) reach(a, b, n, depth int) bool {
	if a == b {
		return true
	}
	if depth > brBuses {
		return false
	}
	for _, e := range w.edges {
		if e.from == a && e.used && w.accepts(e, n) && w.reach(e.to, b, n, depth+1) {
			return true
		}
	}
	return false
}

func (w *brworld) accepts(e *bredge, n int) bool {
	return w.p[fmt.Sprintf("acc%d", e.idx)]>>n&1 == 1 && w.p[fmt.Sprintf("err%d", e.idx)]>>n&1 == 0
}

// brhnd resolves the directives with the own values of a bus.
type brhnd struct {
	w *brworld
	b int
}

func (x *brhnd) HandleDirective(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
	n, ok := brKey(di.GetDirective())
	if !ok {
		return nil, nil
	}
	return directive.R(directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
		var cur [3]int
		var ids [3]uint32
		for {
			x.w.mtx.Lock()
			want, chg := x.w.own[x.b][n], x.w.chg
			x.w.mtx.Unlock()
			for i := range want {
				if want[i] == cur[i] {
					continue
				}
				if ids[i] != 0 {
					rh.RemoveValue(ids[i])
					ids[i] = 0
				}
				cur[i] = want[i]
				if cur[i] != 0 {
					ids[i], _ = rh.AddValue(cur[i])
				}
			}
			rh.MarkIdle(true)
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-chg:
			}
		}
	}), nil)
}

func (w *brworld) newDir(n int) directive.Directive {
	d := &brdir{w: w, n: n}
	if w.p["eq"] == 1 {
		return &breq{d}
	}
	return d
}

func (w *brworld) add(slot, b int, dir directive.Directive) {
	n, _ := brKey(dir)
	r := &brref{w: w, bus: b, n: n, dir: dir, vals: map[uint32]int{}}
	di, ref, err := w.b[b].AddDirective(dir, r)
	if err != nil {
		panic(err)
	}
	h := w.h
	di.AddIdleCallback(func(idle bool, _ []error) {
		h.Lock()
		r.idle = idle
		h.Unlock()
	})
	w.h.Lock()
	r.di, r.ref = di, ref
	w.refs = append(w.refs, r)
	old := w.slots[slot]
	w.slots[slot] = r
	w.h.Unlock()
	w.drop(old)
}

func (w *brworld) drop(r *brref) {
	if r == nil {
		return
	}
	w.h.Lock()
	r.rel = true
	w.h.Unlock()
	r.ref.Release()
}

func (w *brworld) pop(slot int) *brref {
	w.h.Lock()
	defer w.h.Unlock()
	r := w.slots[slot]
	delete(w.slots, slot)
	return r
}

func (w *brworld) addBridge(e *bredge, reuse bool) {
	h := w.h
	h.Lock()
	if e.st != 0 {
		h.Unlock()
		return
	}
	e.st, e.used = 1, true
	if e.br != nil {
		h.FaultLocked("bridge-added-again")
	}
	if e.br == nil || !reuse {
		e.br = bus_bridge.NewBusBridge(w.b[e.to], func(di directive.Instance) (bool, error) {
			n, ok := brKey(di.GetDirective())
			if !ok {
				return false, nil
			}
			if w.p[fmt.Sprintf("err%d", e.idx)]>>n&1 == 1 {
				h.Fault("filter-error")
				return n == 1, errors.New("filter failed")
			}
			return w.p[fmt.Sprintf("acc%d", e.idx)]>>n&1 == 1, nil
		})
	}
	h.Unlock()
	rel, err := w.b[e.from].AddController(w.ctx, e.br, nil)
	if err != nil {
		panic(err)
	}
	h.Lock()
	e.rel, e.st = rel, 2
	h.Unlock()
}

func (w *brworld) rmBridge(e *bredge) {
	h := w.h
	h.Lock()
	if e.st != 2 {
		h.Unlock()
		return
	}
	e.st = 1
	h.FaultLocked("bridge-removed")
	h.Unlock()
	e.rel()
	h.Lock()
	e.st = 0
	h.Unlock()
}

func (w *brworld) do(op sim.Op, at func(string)) {
	at(fmt.Sprintf("%s %v", op.K, op.A))
	h := w.h
	switch op.K {
	case "ref":
		w.add(op.Arg(0), op.Arg(1), w.newDir(op.Arg(2)))
	case "rel":
		w.drop(w.pop(op.Arg(0)))
	case "again":
		// the same directive is added again
		if r := w.pop(op.Arg(0)); r != nil {
			w.drop(r)
			w.add(op.Arg(0), r.bus, r.dir)
		}
	case "set":
		w.mtx.Lock()
		v := &w.own[op.Arg(0)][op.Arg(1)][op.Arg(2)]
		*v = 0
		if op.Arg(3) == 1 {
			w.seq++
			*v = w.seq*10000 + op.Arg(0)*1000 + op.Arg(1)*100
		}
		close(w.chg)
		w.chg = make(chan struct{})
		w.mtx.Unlock()
	case "close":
		b, n := op.Arg(0), op.Arg(1)
		for _, di := range w.b[b].GetDirectives() {
			if k, ok := brKey(di.GetDirective()); ok && k == n {
				h.Lock()
				h.FaultLocked("directive-closed")
				for a := range w.loose {
					if a != b || w.p["topo"] == brLoop {
						w.loose[a][n] = true
					}
				}
				h.Unlock()
				di.Close()
				break
			}
		}
	case "addbr":
		w.addBridge(w.edges[op.Arg(0)], op.Arg(1) == 1)
	case "rmbr":
		w.rmBridge(w.edges[op.Arg(0)])
	case "sleep":
		sim.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
	}
}

// expect adds the values of key n on bus b.
func (w *brworld) expect(bag map[int]int, b, n int, used int) {
	for _, v := range w.own[b][n] {
		if v != 0 {
			bag[v]++
		}
	}
	for _, e := range w.edges {
		if e.from == b && e.st == 2 && w.accepts(e, n) && used>>e.idx&1 == 0 {
			w.expect(bag, e.to, n, used|1<<e.idx)
		}
	}
}

// count adds the instances which a directive on bus b causes.
func (w *brworld) count(out *[brBuses]int, b, n int, used int) {
	out[b]++
	for _, e := range w.edges {
		if e.from == b && e.st == 2 && w.accepts(e, n) && used>>e.idx&1 == 0 {
			w.count(out, e.to, n, used|1<<e.idx)
		}
	}
}

func (w *brworld) check(at string) {
	h := w.h
	var have [brBuses][brKeys]int
	for b := range w.b {
		for _, di := range w.b[b].GetDirectives() {
			if n, ok := brKey(di.GetDirective()); ok {
				have[b][n]++
			}
		}
	}
	h.Lock()
	defer h.Unlock()
	for n := 0; n < brKeys; n++ {
		var want [brBuses]int
		for _, r := range w.refs {
			if r.n == n && !r.rel && !r.gone {
				w.count(&want, r.bus, n, 0)
			}
		}
		for b := range want {
			max := want[b]
			if w.p["eq"] == 1 && max > 1 {
				max = 1
			}
			h.StateLocked(uint64(b)<<16 | uint64(n)<<8 | uint64(max))
			if have[b][n] > max {
				h.FailLocked("C19", "not-released", "%s: bus %d has %d directives with key %d, wanted are %d", at, b, have[b][n], n, max)
			}
			down := w.p["max"] != 0
			for a := range w.loose {
				down = down || w.loose[a][n]
			}
			if have[b][n] < max && !down {
				h.FailLocked("C19", "not-forwarded", "%s: bus %d has %d directives with key %d, wanted are %d", at, b, have[b][n], n, max)
			}
		}
	}
	for _, r := range w.refs {
		if r.rel || r.gone {
			continue
		}
		// nothing is forwarded: nothing is waited for
		idle := true
		for _, e := range w.edges {
			if e.from == r.bus && e.st == 2 && w.accepts(e, r.n) && have[e.to][r.n] > 0 {
				idle = false
			}
		}
		if idle && !r.idle {
			h.FailLocked("C19", "not-idle", "%s: a reference on bus %d of key %d is not idle although nothing is forwarded", at, r.bus, r.n)
		}
		bag := map[int]int{}
		w.expect(bag, r.bus, r.n, 0)
		got := map[int]int{}
		for _, v := range r.vals {
			got[v]++
		}
		h.StateLocked(1<<30 | uint64(len(bag))<<8 | uint64(len(got)))
		for v, c := range got {
			if bag[v] < c {
				h.FailLocked("C19", "stale-value", "%s: a reference on bus %d of key %d has value %d %d times, expected %d times", at, r.bus, r.n, v, c, bag[v])
			}
		}
		if w.p["max"] != 0 {
			if len(got) == 0 && len(bag) != 0 && !w.loose[r.bus][r.n] {
				h.FailLocked("C19", "missing-value", "%s: a reference on bus %d of capped key %d has no value, expected some of %v", at, r.bus, r.n, bag)
			}
			continue
		}
		if w.loose[r.bus][r.n] {
			bag = map[int]int{}
			for _, v := range w.own[r.bus][r.n] {
				if v != 0 {
					bag[v]++
				}
			}
		}
		for v, c := range bag {
			if got[v] < c {
				h.FailLocked("C19", "missing-value", "%s: a reference on bus %d of key %d has value %d %d times, expected %d times", at, r.bus, r.n, v, got[v], c)
			}
		}
	}
}

func (Bridge) Exec(h *sim.H, s *sim.Script) {
	h.NoPanics("C19")
	ctx, cancel := context.WithCancel(context.Background())
	w := &brworld{h: h, ctx: ctx, p: s.P, slots: map[int]*brref{}, chg: make(chan struct{})}
	for i := range w.b {
		w.b[i] = inmem.NewBus(dcontroller.NewController(ctx, h.Le))
		if _, err := w.b[i].AddHandler(&brhnd{w: w, b: i}); err != nil {
			panic(err)
		}
	}
	for i, e := range brTopos[s.P["topo"]] {
		w.edges = append(w.edges, &bredge{idx: i, from: e[0], to: e[1]})
	}
	for i, e := range w.edges {
		if s.P[fmt.Sprintf("up%d", i)] == 1 {
			w.addBridge(e, false)
		}
	}
	for half := 0; half < 2; half++ {
		for i, ops := range s.Tasks {
			if i%2 != half {
				continue
			}
			h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
				for _, op := range ops {
					w.do(op, at)
				}
			})
		}
		if !h.MustJoin("C19", 4*time.Minute) {
			return
		}
		h.Quiesce(time.Minute)
		w.check([]string{"after the first half", "after the run"}[half])
	}
	h.Go("release", func(at func(string)) {
		for n := 0; n < 4; n++ {
			w.do(sim.Op{K: "rel", A: []int{n}}, at)
		}
	})
	if !h.MustJoin("C19", 4*time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	w.check("after all were released")
	cancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C19"
}
