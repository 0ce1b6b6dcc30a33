package scen

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	configset_json "github.com/aperturerobotics/controllerbus/controller/configset/json"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	controller_exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	boilerplate "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	"github.com/blang/semver/v4"

	"verifsim/sim"
)

// ExecReq executes controller requests and watches the reported statuses.
type ExecReq struct{}

func (ExecReq) Name() string { return "execreq" }

const exKeys = 3

// kinds of a configuration
const (
	exRuns = iota
	exSlow
	exFinishes
	exRetries
	exFails
	exInvalid
	// exEmpty has no config, which means an empty one, which is invalid
	exEmpty
	// the following cannot be resolved
	exNoID
	exGarbage
	exNull
)

func (ExecReq) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{"salt": r.N(1 << 20)}}
	nk := 1 + r.N(exKeys)
	s.P["late"] = r.Pick(0, 0, 0, 0, 1)
	calm := r.P(40)
	kind := func() int {
		return r.Pick(exRuns, exRuns, exRuns, exSlow, exFinishes, exRetries, exFails, exInvalid)
	}
	bad := func() int {
		if r.P(10) {
			return r.Pick(exNoID, exGarbage, exNull, exEmpty)
		}
		return kind()
	}
	for t, nt := 0, 2+r.N(3); t < nt; t++ {
		var ops []sim.Op
		for i, n := 0, 2+r.N(7); i < n; i++ {
			slot := r.N(4)
			switch x := r.N(100); {
			case x < 30 || i == 0 && x < 70:
				// slot, flags, mask of proto keys, mask of yaml keys, kinds of both, rev, cb
				form := r.N(4)
				pm, ym := 0, 0
				if form != 0 {
					pm = 1 + r.N(1<<nk-1)
				}
				if form == 0 || form == 3 {
					ym = 1 + r.N(1<<nk-1)
				}
				a := []int{slot, r.N(8), pm, ym, 1 + r.N(4), r.Pick(0, 0, 0, 0, 1, 2, 3)}
				for k := 0; k < 2*exKeys; k++ {
					a = append(a, bad())
				}
				if r.P(2) {
					a[2], a[3] = 0, 0
				}
				ops = append(ops, sim.Op{K: "exec", A: a})
			case x < 42 || i == 0:
				ops = append(ops, sim.Op{K: "ctl", A: []int{slot, r.N(2), min(kind(), exFails), r.Pick(0, 0, 1)}})
			case x < 60:
				ops = append(ops, sim.Op{K: "cancel", A: []int{slot}})
			case x < 66:
				ops = append(ops, sim.Op{K: "push", A: []int{slot, r.N(nk), 1 + r.N(5), kind()}})
			case x < 70:
				ops = append(ops, sim.Op{K: "pop", A: []int{slot}})
			case x < 76 && !calm:
				ops = append(ops, sim.Op{K: "close", A: []int{r.N(4)}})
			case x < 86:
				ops = append(ops, sim.Op{K: "closeload", A: []int{r.N(4)}})
			case x < 88 && !calm:
				ops = append(ops, sim.Op{K: "stop"})
			case x < 90 && !calm:
				ops = append(ops, sim.Op{K: "start"})
			case x < 92 && !calm:
				ops = append(ops, sim.Op{K: "unload"})
			case x < 94 && !calm:
				ops = append(ops, sim.Op{K: "reload"})
			default:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 10, 300, 1500, 4000)}})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

// exconf is a controller configuration; key, kind and number are encoded in
// the field of the boilerplate config.
type exconf struct{ *boilerplate.Config }

func newExconf(key, kind, uid int) *exconf {
	return &exconf{&boilerplate.Config{ExampleField: fmt.Sprintf("%d:%d:%d", key, kind, uid)}}
}

func (c *exconf) get(i int) int {
	p := strings.Split(c.GetExampleField(), ":")
	if len(p) != 3 {
		return -1
	}
	n, err := strconv.Atoi(p[i])
	if err != nil {
		return -1
	}
	return n
}

func (c *exconf) key() int  { return c.get(0) }
func (c *exconf) kind() int { return c.get(1) }
func (c *exconf) uid() int  { return c.get(2) }

func (c *exconf) Validate() error {
	if c.kind() == exInvalid || c.GetExampleField() == "" {
		return errInvalidConf
	}
	return nil
}

func (c *exconf) GetConfigID() string { return "ex" }

func (c *exconf) EqualsConfig(o config.Config) bool {
	oc, ok := o.(*exconf)
	return ok && oc.key() == c.key() && oc.kind() == c.kind()
}

type exfac struct{ w *exworld }

func (f *exfac) GetConfigID() string            { return "ex" }
func (f *exfac) ConstructConfig() config.Config { return &exconf{&boilerplate.Config{}} }
func (f *exfac) GetVersion() semver.Version     { return semver.Version{Major: 1} }
func (f *exfac) Construct(ctx context.Context, conf config.Config, opts controller.ConstructOpts) (controller.Controller, error) {
	w, h := f.w, f.w.h
	c := conf.(*exconf)
	sim.Yield()
	h.Lock()
	defer h.Unlock()
	if hold := w.hold; hold != nil && c.kind() == exFails {
		h.Unlock()
		select {
		case <-hold:
		case <-ctx.Done():
		}
		h.Lock()
	}
	k := [2]int{c.key(), c.kind()}
	w.tries[k]++
	if c.kind() == exFails || c.kind() == exRetries && w.tries[k]%3 == 1 {
		h.LogLocked("construct key %d kind %d fails", c.key(), c.kind())
		return nil, &cserr{c.key(), c.kind()}
	}
	ctl := &exctl{w: w, c: c, idx: len(w.ctls)}
	w.ctls = append(w.ctls, ctl)
	h.LogLocked("constructed controller %d %s", ctl.idx, c.GetExampleField())
	return ctl, nil
}

type exctl struct {
	w        *exworld
	c        *exconf
	idx      int
	runs     int
	active   int
	finished bool
	closes   int
}

func (c *exctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(fmt.Sprintf("exctl/%d", c.idx), semver.Version{}, "")
}

func (c *exctl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	return nil, nil
}

func (c *exctl) Close() error {
	sim.Yield()
	c.w.h.Lock()
	c.closes++
	c.w.h.LogLocked("controller %d closed", c.idx)
	c.w.h.Unlock()
	return nil
}

func (c *exctl) Execute(ctx context.Context) error {
	h := c.w.h
	sim.Yield()
	h.Lock()
	c.runs++
	c.active++
	run := c.runs
	h.LogLocked("controller %d executes", c.idx)
	h.Unlock()
	var err error
	switch kind := c.c.kind(); kind {
	case exFinishes:
		if c.idx%2 == 0 {
			sim.Sleep(50 * time.Millisecond)
		}
	case exRetries:
		if run < 3 {
			h.Fault("controller-error")
			if c.idx%2 == 0 {
				sim.Sleep(20 * time.Millisecond)
			}
			err = &cserr{c.c.key(), kind}
			break
		}
		<-ctx.Done()
	case exSlow:
		<-ctx.Done()
		h.Fault("slow-cancel")
		sim.Sleep(300 * time.Millisecond)
		err = ctx.Err()
	default:
		<-ctx.Done()
		err = ctx.Err()
	}
	h.Lock()
	c.active--
	c.finished = err == nil
	h.LogLocked("controller %d returns %v", c.idx, err)
	h.Unlock()
	return err
}

var errCallback = errors.New("callback failed")

// exreq is a request being executed.
type exreq struct {
	noKey  *configset_proto.ControllerConfig
	w      *exworld
	idx    int
	cancel context.CancelFunc
	// want is the merged config by key, nil for one which fails
	want map[int]*exconf
	// mustErr: the request has to fail
	mustErr bool
	// conf: the config of ExecuteController
	conf *exconf
	// replaced: keys with an unusable config which is replaced
	replaced map[int]bool
	// loose: keys with an unusable config and a usable one of less precedence
	loose map[int]bool
	last  map[int]controller_exec.ControllerStatus
	n     int
	// failAt: the callback fails at this call
	failAt   int
	slow     bool
	canceled bool
	cbErr    bool
	closed   bool
	done     bool
	err      error
}

type expush struct {
	k    int
	conf *exconf
	ref  configset.Reference
}

type exworld struct {
	lrel     func()
	unloaded bool // there is no loader
	hold     chan struct{}
	h        *sim.H
	b        bus.Bus
	ctx      context.Context
	cc       *configset_controller.Controller
	rel      func()
	busy     bool
	stopped  bool
	reqs     []*exreq
	slots    map[int]*exreq
	pushes   map[int]*expush
	ctls     []*exctl
	tries    map[[2]int]int
	nconf    int
	// ok are the configs which may run, by number
	ok map[int]bool
	// empty are the keys an empty config was requested for
	empty [exKeys]bool
	// closing counts the calls which close a directive of a request
	closing int
}

func (w *exworld) newConf(k, kind int) *exconf {
	w.nconf++
	return newExconf(k, kind, w.nconf-1)
}

// exModelKind returns the kind which behaves the same.
func exModelKind(kind int) int {
	if kind == exEmpty {
		return exInvalid
	}
	return kind
}

// callback checks a reported status.
func (q *exreq) callback(resp *controller_exec.ExecControllerResponse) error {
	w, h := q.w, q.w.h
	sim.Yield()
	h.Lock()
	id, st := resp.GetId(), resp.GetStatus()
	h.LogLocked("request %d: %s %s %s %s", q.idx, id, st, resp.GetControllerInfo().GetId(), resp.GetErrorInfo())
	if q.done {
		h.FailLocked("C17", "after-return", "request %d: a status was reported after Execute returned", q.idx)
	}
	k := -1
	for i := range q.want {
		if csKey(i) == id {
			k = i
		}
	}
	if k < 0 {
		h.FailLocked("C17", "wrong-key", "request %d: a status of %q was reported, which is not part of the request", q.idx, id)
		h.Unlock()
		return nil
	}
	info, einfo := resp.GetControllerInfo(), resp.GetErrorInfo()
	switch st {
	case controller_exec.ControllerStatus_ControllerStatus_RUNNING:
		var idx int
		if _, err := fmt.Sscanf(info.GetId(), "exctl/%d", &idx); err != nil || idx >= len(w.ctls) || w.ctls[idx].c.key() != k {
			h.FailLocked("C17", "wrong-info", "request %d: %s RUNNING has controller info %q", q.idx, id, info.GetId())
		}
		if einfo != "" {
			h.FailLocked("C17", "torn-status", "request %d: %s RUNNING has error info %q", q.idx, id, einfo)
		}
	case controller_exec.ControllerStatus_ControllerStatus_ERROR:
		if einfo == "" || info != nil {
			h.FailLocked("C17", "torn-status", "request %d: %s ERROR has error info %q and controller %q", q.idx, id, einfo, info.GetId())
		}
	case controller_exec.ControllerStatus_ControllerStatus_CONFIGURING:
		if einfo != "" || info != nil {
			h.FailLocked("C17", "torn-status", "request %d: %s CONFIGURING has error info %q and controller %q", q.idx, id, einfo, info.GetId())
		}
	default:
		h.FailLocked("C17", "no-status", "request %d: the status of %s is %s", q.idx, id, st)
	}
	q.last[k] = st
	q.n++
	fail := q.failAt != 0 && q.n >= q.failAt
	if fail {
		q.cbErr = true
		h.FaultLocked("callback-error")
	}
	h.Unlock()
	if q.slow {
		sim.Sleep(70 * time.Millisecond)
	}
	if fail {
		return errCallback
	}
	return nil
}

func (q *exreq) finish(err error) {
	q.w.h.Lock()
	q.done, q.err = true, err
	q.w.h.LogLocked("request %d returned %v", q.idx, err)
	switch {
	case q.conf != nil:
		var e *cserr
		k := q.conf.kind()
		if errors.As(err, &e) && (e.key != q.conf.key() || e.kind != k) || err != nil && err.Error() == errInvalidConf.Error() && k != exInvalid {
			q.w.h.FailLocked("C17", "wrong-error", "controller request %d of kind %d returned %v", q.idx, k, err)
		}
		if err != nil && !q.canceled && !q.closed && (k == exRuns || k == exSlow || k == exFinishes) {
			q.w.h.FailLocked("C17", "returned", "controller request %d of kind %d returned %v though it was not canceled", q.idx, k, err)
		}
		if err == nil && !q.canceled {
			q.w.h.FailLocked("C17", "returned", "controller request %d returned nil though it was not canceled", q.idx)
		}
		if k == exInvalid && err != nil && !q.canceled && !q.closed && err.Error() != errInvalidConf.Error() {
			q.w.h.FailLocked("C17", "wrong-error", "controller request %d of an invalid config returned %v", q.idx, err)
		}
	case q.cbErr:
		if !errors.Is(err, errCallback) {
			q.w.h.FailLocked("C17", "callback-error", "the callback of request %d failed but Execute returned %v", q.idx, err)
		}
	case err == nil:
		q.w.h.FailLocked("C17", "returned", "request %d returned nil", q.idx)
	case !q.mustErr && !q.canceled && !q.closed:
		q.w.h.FailLocked("C17", "returned", "request %d returned %v though it was not canceled", q.idx, err)
	}
	q.w.h.Unlock()
}

func (w *exworld) put(slot int, q *exreq) {
	w.h.Lock()
	old := w.slots[slot]
	w.slots[slot] = q
	if old != nil {
		old.canceled = true
		w.h.LogLocked("cancel request %d", old.idx)
	}
	w.h.Unlock()
	if old != nil {
		old.cancel()
	}
}

// transcodeLocked passes the config set of a request through what clients do
// with it before it is executed: merging and JSON. An older config, an entry
// with an empty key and an absent set make no difference.
func (w *exworld) transcodeLocked(q *exreq, req *controller_exec.ExecControllerRequest, op sim.Op, rev uint64, useJSON bool) {
	h := w.h
	null, garbage := false, false
	for k := 0; k < exKeys; k++ {
		if op.Arg(2)>>k&1 != 0 {
			null = null || op.Arg(6+k) == exNull
			garbage = garbage || op.Arg(6+k) == exGarbage
		}
	}
	if q.idx%3 != 0 && !null && rev > 0 {
		older := &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{}}
		for k := 0; k < exKeys; k++ {
			if op.Arg(2)>>k&1 == 0 {
				continue
			}
			pc, err := configset_proto.NewControllerConfig(configset.NewControllerConfig(rev-revScale(h), w.newConf(k, exRuns)), useJSON)
			if err != nil {
				panic(err)
			}
			older.Configs[csKey(k)] = pc
			if k%2 == 1 {
				older.Configs[csKey(k)] = nil
			}
		}
		sets := []*configset_proto.ConfigSet{older, nil, req.ConfigSet}
		if q.idx%2 == 0 {
			sets[0], sets[2] = sets[2], sets[0]
		}
		req.ConfigSet = configset_proto.MergeConfigSets(sets...)
	}
	if q.idx%4 == 1 && len(req.ConfigSet.Configs) != 0 {
		pc, err := configset_proto.NewControllerConfig(configset.NewControllerConfig(rev, w.newConf(0, exRuns)), useJSON)
		if err != nil {
			panic(err)
		}
		q.noKey = pc
	}
	if q.idx%3 != 1 && !null && (!garbage || !useJSON) {
		b, err := req.ConfigSet.MarshalJSON()
		if err != nil {
			h.FailLocked("C17", "round-trip", "a config set cannot be written as JSON: %v", err)
			return
		}
		cs := &configset_proto.ConfigSet{}
		if err := cs.UnmarshalJSON(b); err != nil {
			h.FailLocked("C17", "round-trip", "a config set cannot be read from its JSON %s: %v", b, err)
			return
		}
		if len(req.ConfigSet.Configs) != 0 {
			if !cs.EqualVT(req.ConfigSet) {
				h.FailLocked("C17", "round-trip", "a config set is another one after it went through JSON %s", b)
			}
			req.ConfigSet = cs
		}
	}
}

// sameSet compares config sets.
func (w *exworld) sameSet(at string, got, want configset.ConfigSet, err error) {
	h := w.h
	if err != nil {
		h.Fail("C17", "round-trip", "%s: %v", at, err)
		return
	}
	for k, v := range want {
		if g := got[k]; g == nil || g.GetRev() != v.GetRev() || !v.GetConfig().EqualsConfig(g.GetConfig()) {
			h.Fail("C17", "round-trip", "%s: the config of %s is another one", at, k)
		}
	}
	if len(got) != len(want) {
		h.Fail("C17", "round-trip", "%s: %d configs instead of %d", at, len(got), len(want))
	}
}

// transcode converts config sets to protobuf and YAML and back.
func (w *exworld) transcode(salt int) {
	h, nset := w.h, 0
	set := func(mask int) configset.ConfigSet {
		h.Lock()
		defer h.Unlock()
		cs := configset.ConfigSet{}
		nset++
		for k := 0; k < exKeys; k++ {
			if mask>>k&1 == 1 {
				cs[csKey(k)] = configset.NewControllerConfig(uint64(salt%7+k+nset)*revScale(h), w.newConf(k, exRuns))
			}
		}
		return cs
	}
	all := 1<<exKeys - 1
	cs := set(all)
	useJSON := salt&1 == 1
	p, err := configset_proto.NewConfigSet(cs, useJSON)
	if err != nil {
		h.Fail("C17", "round-trip", "a config set has no protobuf form: %v", err)
		return
	}
	if err := p.Validate(); err != nil {
		h.Fail("C17", "round-trip", "a valid config set is invalid: %v", err)
	}
	got, err := p.Resolve(w.ctx, w.b)
	w.sameSet("from protobuf", got, cs, err)
	for _, mask := range []int{1, all} {
		for k, v := range set(mask) {
			cs[k] = v
			if _, err := configset_proto.ConfigSetMap(p.Configs).ApplyConfig(k, v.GetConfig(), v.GetRev(), !useJSON); err != nil {
				h.Fail("C17", "round-trip", "a config cannot be applied: %v", err)
				return
			}
		}
		got, err = p.Resolve(w.ctx, w.b)
		w.sameSet("from protobuf with applied configs", got, cs, err)
	}
	p.Configs["no-id"] = &configset_proto.ControllerConfig{Rev: 1}
	if p.Validate() == nil {
		h.Fail("C17", "round-trip", "a config set with a config without ID is valid")
	}
	if _, err := p.Resolve(w.ctx, w.b); err == nil {
		h.Fail("C17", "round-trip", "a config set with a config without ID was resolved")
	}

	y, err := configset_json.MarshalYAML(cs)
	if err != nil {
		h.Fail("C17", "round-trip", "a config set has no YAML form: %v", err)
		return
	}
	yreq, err := controller_exec.ExecControllerYAMLFromConfigSet(cs)
	if err != nil || yreq.ConfigSet != nil {
		h.Fail("C17", "round-trip", "a config set has no YAML request: %v, %v", yreq, err)
		return
	}
	y = []byte(yreq.ConfigSetYaml)
	for _, mask := range []int{0, salt >> 1 & all} {
		into := set(mask)
		overwrite := salt>>4&1 == 1
		want := configset.ConfigSet{}
		nadd := 0
		for k, v := range cs {
			if o := into[k]; o != nil && !overwrite {
				want[k] = o
			} else {
				want[k] = v
				nadd++
			}
		}
		added, err := configset_json.UnmarshalYAML(w.ctx, w.b, y, into, overwrite)
		w.sameSet("from YAML", into, want, err)
		seen := map[string]bool{}
		for _, k := range added {
			seen[k] = true
			if into[k] != nil && into[k].GetRev() != cs[k].GetRev() {
				h.Fail("C17", "round-trip", "%s is said to be added but was not", k)
			}
		}
		if len(added) != nadd || len(seen) != nadd {
			h.Fail("C17", "round-trip", "%d configs were added from YAML, %v are listed", nadd, added)
		}
	}
}

// exec builds a request and executes it.
func (w *exworld) exec(op sim.Op) {
	h := w.h
	h.Lock()
	flags, rev, cb := op.Arg(1), uint64(op.Arg(4))*revScale(h), op.Arg(5)
	partial, overwrite, useJSON := flags&1 != 0, flags&2 != 0, flags&4 != 0
	q := &exreq{w: w, idx: len(w.reqs), want: map[int]*exconf{}, last: map[int]controller_exec.ControllerStatus{}, slow: cb == 1, closed: w.closing != 0, loose: map[int]bool{}, replaced: map[int]bool{}}
	if cb > 1 {
		q.failAt = cb - 1
	}
	req := &controller_exec.ExecControllerRequest{ConfigSetYamlOverwrite: overwrite}
	nproto, nbad, yamlBad := 0, 0, false
	if op.Arg(2) != 0 {
		req.ConfigSet = &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{}}
	}
	protoBad := map[int]bool{}
	for k := 0; k < exKeys; k++ {
		if op.Arg(2)>>k&1 == 0 {
			continue
		}
		nproto++
		kind := op.Arg(6 + k)
		c := w.newConf(k, exModelKind(kind))
		pc, err := configset_proto.NewControllerConfig(configset.NewControllerConfig(rev, c), useJSON)
		if err != nil {
			panic(err)
		}
		switch kind {
		case exEmpty:
			pc.Config = nil
			w.empty[k] = true
		case exNoID:
			pc.Id = ""
		case exGarbage:
			pc.Config = []byte{0x0a, 0xff}
			if useJSON {
				pc.Config = []byte("{\"exampleField\":")
			}
		case exNull:
			pc = nil
		}
		q.want[k] = c
		if kind >= exNoID {
			q.want[k] = nil
			protoBad[k] = true
			nbad++
		}
		req.ConfigSet.Configs[csKey(k)] = pc
	}
	if req.ConfigSet != nil {
		w.transcodeLocked(q, req, op, rev, useJSON)
	}
	ys := configset_json.ConfigSet{}
	null := ""
	ny := 0
	for k := 0; k < exKeys; k++ {
		if op.Arg(3)>>k&1 == 0 {
			continue
		}
		ny++
		kind := op.Arg(6 + exKeys + k)
		c := w.newConf(k, exModelKind(kind))
		yc := configset_json.NewControllerConfig(configset.NewControllerConfig(rev, c))
		_, dup := q.want[k]
		if dup && !overwrite {
			if protoBad[k] && partial {
				q.loose[k] = true
				w.ok[c.uid()] = true
			}
			c = q.want[k]
		} else if dup && protoBad[k] && partial {
			// the proto config is replaced
			q.replaced[k] = true
			nbad--
			nproto--
		}
		switch kind {
		case exNoID:
			yc.Id = ""
		case exGarbage:
			yc.Config = nil
			yc.Id = "ex"
			null += csKey(k) + ": {id: ex, config: {exampleField: {a: 1}}}\n"
		case exEmpty:
			null += fmt.Sprintf("%s: {id: ex, rev: %d%s}\n", csKey(k), rev, []string{"", ", config: null", ", config: {}"}[w.nconf%3])
			w.empty[k] = true
		case exNull:
			null += csKey(k) + ": null\n"
		}
		if kind >= exNoID && !(dup && !overwrite) {
			yamlBad = true
			c = nil
		}
		q.want[k] = c
		if kind == exGarbage || kind == exNull || kind == exEmpty {
			continue
		}
		ys[csKey(k)] = yc
	}
	if ny != 0 {
		js, err := configsetYAML(ys)
		if err != nil {
			panic(err)
		}
		req.ConfigSetYaml = js + null
	}
	any := false
	for _, c := range q.want {
		any = any || c != nil
	}
	if len(q.loose) != 0 {
		any, q.closed = true, true
	}
	if q.noKey != nil && any && nbad == 0 {
		// an entry with no key is ignored
		req.ConfigSet.Configs[""] = q.noKey
	}
	q.mustErr = yamlBad || !any || !partial && nbad > 0
	if !q.mustErr {
		for _, c := range q.want {
			if c != nil {
				w.ok[c.uid()] = true
			}
		}
	}
	w.reqs = append(w.reqs, q)
	h.LogLocked("request %d: partial %v overwrite %v json %v must fail %v", q.idx, partial, overwrite, useJSON, q.mustErr)
	h.Unlock()
	ctx, cancel := context.WithCancel(w.ctx)
	q.cancel = cancel
	w.put(op.Arg(0), q)
	go func() {
		q.finish(req.Execute(ctx, w.b, partial, q.callback))
		cancel()
	}()
}

// configsetYAML encodes a config set which may have entries without ID.
func configsetYAML(cs configset_json.ConfigSet) (string, error) {
	var b strings.Builder
	keys := make([]string, 0, len(cs))
	for k := range cs {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	for _, k := range keys {
		c := cs[k]
		dat, err := c.Config.MarshalJSON()
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&b, "%s: {\"id\": %q, \"rev\": %d, \"config\": %s}\n", k, c.Id, c.Rev, dat)
	}
	return b.String(), nil
}

// ctl executes a single controller.
func (w *exworld) ctl(op sim.Op) {
	h := w.h
	h.Lock()
	q := &exreq{w: w, idx: len(w.reqs), last: map[int]controller_exec.ControllerStatus{}, slow: op.Arg(3) == 1, closed: w.closing != 0, loose: map[int]bool{}, replaced: map[int]bool{}}
	// keys after those of the requests
	q.conf = w.newConf(exKeys+op.Arg(1), op.Arg(2))
	w.ok[q.conf.uid()] = true
	w.reqs = append(w.reqs, q)
	h.LogLocked("controller request %d of kind %d", q.idx, op.Arg(2))
	h.Unlock()
	ctx, cancel := context.WithCancel(w.ctx)
	q.cancel = cancel
	w.put(op.Arg(0), q)
	go func() {
		q.finish(controller_exec.ExecuteController(ctx, w.b, q.conf, func(st controller_exec.ControllerStatus) {
			sim.Yield()
			h.Lock()
			h.LogLocked("controller request %d: %s", q.idx, st)
			if q.done {
				h.FailLocked("C17", "after-return", "controller request %d: a status was reported after ExecuteController returned", q.idx)
			}
			if st == controller_exec.ControllerStatus_ControllerStatus_UNKNOWN || q.n != 0 && st == q.last[0] {
				h.FailLocked("C17", "same-status", "controller request %d: status %s was reported again", q.idx, st)
			}
			q.n++
			q.last[0] = st
			h.Unlock()
			if q.slow {
				sim.Sleep(70 * time.Millisecond)
			}
		}))
		cancel()
	}()
}

func (w *exworld) do(op sim.Op, at func(string)) {
	h := w.h
	at(op.String())
	h.Count(op.K)
	slot := op.Arg(0)
	switch op.K {
	case "exec":
		w.exec(op)
	case "ctl":
		w.ctl(op)
	case "cancel":
		w.put(slot, nil)
	case "push":
		h.Lock()
		if w.busy {
			h.Unlock()
			return
		}
		p := &expush{k: op.Arg(1), conf: w.newConf(op.Arg(1), op.Arg(3))}
		w.ok[p.conf.uid()] = true
		cc := w.cc
		h.Unlock()
		ref, err := cc.PushControllerConfig(w.ctx, csKey(p.k), configset.NewControllerConfig(uint64(op.Arg(2))*revScale(w.h), p.conf))
		if err != nil {
			return
		}
		p.ref = ref
		h.Lock()
		old := w.pushes[slot]
		w.pushes[slot] = p
		h.Unlock()
		if old != nil {
			old.ref.Release()
		}
	case "pop":
		h.Lock()
		old := w.pushes[slot]
		delete(w.pushes, slot)
		h.Unlock()
		if old != nil {
			old.ref.Release()
		}
	case "close", "closeload":
		var l []directive.Instance
		for _, di := range w.b.GetDirectives() {
			switch d := di.GetDirective().(type) {
			case configset.ApplyConfigSet:
				if op.K == "close" {
					l = append(l, di)
				}
			case resolver.LoadControllerWithConfig:
				// of requests, or of the configset controller
				c, _ := d.GetLoadControllerConfig().(*exconf)
				if (op.K == "close") == (c != nil && c.key() >= exKeys) {
					l = append(l, di)
				}
			case loader.ExecController:
				c, _ := d.GetExecControllerConfig().(*exconf)
				if op.K == "closeload" && c != nil && c.key() < exKeys {
					l = append(l, di)
				}
			}
		}
		if len(l) == 0 {
			return
		}
		di := l[slot%len(l)]
		if op.K == "close" {
			h.Fault("directive-closed")
			w.markClosed(1)
			di.Close()
			w.markClosed(-1)
			return
		} else {
			h.Fault("load-directive-closed")
		}
		di.Close()
	case "stop":
		h.Lock()
		rel := w.rel
		w.rel = nil
		if rel != nil {
			w.busy = true
		}
		h.Unlock()
		if rel != nil {
			h.Fault("configset-stopped")
			rel()
			h.Lock()
			w.stopped = true
			h.Unlock()
		}
	case "start":
		w.start()
	case "unload":
		h.Lock()
		rel := w.lrel
		w.lrel = nil
		h.Unlock()
		if rel != nil {
			h.Fault("loader-stopped")
			rel()
			h.Lock()
			w.unloaded = true
			h.Unlock()
		}
	case "reload":
		w.load()
	case "sleep":
		sim.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
	}
}

// load adds a loader if there is none.
func (w *exworld) load() {
	w.h.Lock()
	if !w.unloaded {
		w.h.Unlock()
		return
	}
	w.unloaded = false
	w.h.Unlock()
	lc, err := loader.NewController(w.h.Le, w.b)
	if err != nil {
		panic(err)
	}
	rel, err := w.b.AddController(w.ctx, lc, nil)
	if err != nil {
		panic(err)
	}
	w.h.Lock()
	w.lrel = rel
	w.h.Unlock()
}

// markClosed notes that the directives of the requests may be closed.
func (w *exworld) markClosed(d int) {
	w.h.Lock()
	for _, q := range w.reqs {
		if !q.done {
			q.closed = true
		}
	}
	w.closing += d
	w.h.Unlock()
}

func (w *exworld) start() {
	w.h.Lock()
	if !w.stopped {
		w.h.Unlock()
		return
	}
	w.stopped = false
	w.h.Unlock()
	cc, err := configset_controller.NewController(w.h.Le, w.b)
	if err != nil {
		panic(err)
	}
	w.h.Lock()
	w.cc, w.busy = cc, false
	w.h.Unlock()
	rel, err := w.b.AddController(w.ctx, cc, nil)
	if err != nil {
		panic(err)
	}
	w.h.Lock()
	w.rel = rel
	w.h.Unlock()
}

// check checks the quiescent state.
func (w *exworld) check(at string) {
	h := w.h
	states := map[int]configset.State{}
	if !w.busy {
		for k := 0; k < exKeys; k++ {
			ref, err := w.cc.AddConfigSetReference(w.ctx, csKey(k))
			if err != nil {
				panic(err)
			}
			states[k] = ref.GetState()
			defer ref.Release()
		}
	}
	h.Lock()
	defer h.Unlock()
	for _, c := range w.ctls {
		if !w.ok[c.c.uid()] {
			h.FailLocked("C17", "unwanted", "%s: controller %d runs a config which no request which succeeds has", at, c.idx)
		}
	}
	for _, q := range w.reqs {
		if q.done {
			continue
		}
		if q.canceled || q.cbErr || q.mustErr {
			h.FailLocked("C17", "not-returned", "%s: request %d did not return (canceled %v, callback failed %v, must fail %v)", at, q.idx, q.canceled, q.cbErr, q.mustErr)
			continue
		}
		if q.conf != nil {
			w.checkCtl(at, q)
			continue
		}
		var keys []int
		for k := range q.want {
			keys = append(keys, k)
		}
		slices.Sort(keys)
		for _, k := range keys {
			last, s := q.last[k], states[k]
			h.StateLocked(uint64(k)<<8 | uint64(last))
			if q.loose[k] {
				continue
			}
			if q.want[k] == nil {
				if last != controller_exec.ControllerStatus_ControllerStatus_ERROR {
					h.FailLocked("C17", "status", "%s: request %d: the config of key %d cannot be used but its last status is %s", at, q.idx, k, last)
				}
				continue
			}
			want := controller_exec.ControllerStatus_ControllerStatus_CONFIGURING
			if w.busy {
				if last != want && last != controller_exec.ControllerStatus_ControllerStatus_UNKNOWN && !(q.replaced[k] && last == controller_exec.ControllerStatus_ControllerStatus_ERROR) {
					h.FailLocked("C17", "status", "%s: request %d: there is no configset controller but the last status of key %d is %s", at, q.idx, k, last)
				}
				continue
			}
			if s == nil {
				h.FailLocked("C17", "not-applied", "%s: request %d: key %d has no state", at, q.idx, k)
				continue
			}
			if s.GetController() != nil {
				want = controller_exec.ControllerStatus_ControllerStatus_RUNNING
			} else if s.GetError() != nil {
				want = controller_exec.ControllerStatus_ControllerStatus_ERROR
			}
			c, _ := s.GetControllerConfig().GetConfig().(*exconf)
			if c == nil {
				h.FailLocked("C17", "not-applied", "%s: request %d: key %d has no config", at, q.idx, k)
			} else if c.GetExampleField() == "" && w.empty[k] {
				// an empty config
			} else if !w.ok[c.uid()] || c.key() != k {
				h.FailLocked("C17", "wrong-config", "%s: request %d: key %d runs config %s", at, q.idx, k, c.GetExampleField())
			}
			if last != want {
				h.FailLocked("C17", "status", "%s: request %d: the last status of key %d is %s but it is %s", at, q.idx, k, last, want)
			}
		}
	}
}

// settle waits until nothing happens and checks the state.
func (w *exworld) settle(at string) {
	w.h.Quiesce(time.Minute)
	// controllers which fail are started again and again, until held
	w.h.Lock()
	w.hold = make(chan struct{})
	w.h.Unlock()
	w.h.Quiesce(time.Minute)
	w.check(at)
	w.h.Lock()
	close(w.hold)
	w.hold = nil
	w.h.Unlock()
}

func (w *exworld) checkCtl(at string, q *exreq) {
	h := w.h
	var live []*exctl
	for _, c := range w.ctls {
		if c.closes == 0 && c.c.EqualsConfig(q.conf) {
			live = append(live, c)
		}
	}
	last := q.last[0]
	h.StateLocked(uint64(9)<<8 | uint64(last))
	if w.unloaded {
		if len(live) != 0 || last != controller_exec.ControllerStatus_ControllerStatus_CONFIGURING && q.n != 0 {
			h.FailLocked("C17", "status", "%s: controller request %d: there is no loader, %d controllers are not closed and the last status is %s", at, q.idx, len(live), last)
		}
		return
	}
	switch k := q.conf.kind(); k {
	case exRuns, exSlow, exFinishes, exRetries:
		if len(live) != 1 || last != controller_exec.ControllerStatus_ControllerStatus_RUNNING {
			h.FailLocked("C17", "status", "%s: controller request %d of kind %d: %d controllers are not closed but the last status is %s", at, q.idx, k, len(live), last)
		}
	default:
		h.FailLocked("C17", "not-returned", "%s: controller request %d of kind %d did not fail", at, q.idx, k)
	}
}

func (ExecReq) Exec(h *sim.H, s *sim.Script) {
	h.NoPanics("C17")
	ctx, cancel := context.WithCancel(context.Background())
	dc := dcontroller.NewController(ctx, h.Le)
	w := &exworld{h: h, ctx: ctx, b: inmem.NewBus(dc), slots: map[int]*exreq{}, pushes: map[int]*expush{},
		tries: map[[2]int]int{}, ok: map[int]bool{}, busy: true, stopped: true}
	w.unloaded = true
	w.load()
	sr := static.NewResolver()
	sr.AddFactory(&exfac{w})
	rc := resolver.NewController(h.Le, w.b, sr)
	if _, err := w.b.AddController(ctx, rc, nil); err != nil {
		panic(err)
	}
	if s.P["late"] == 0 {
		w.start()
	}
	for i, ops := range s.Tasks {
		h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
			for _, op := range ops {
				w.do(op, at)
			}
		})
	}
	if !h.MustJoin("C17", 4*time.Minute) {
		return
	}
	w.settle("after the run")

	if w.unloaded {
		w.load()
		w.settle("after the loader was started again")
	}
	if s.P["late"] == 1 {
		w.start()
		w.settle("after the configset controller was started")
	}

	for half := 0; half < 2; half++ {
		h.Go(fmt.Sprintf("cancel%d", half), func(at func(string)) {
			for n := 0; n < 4; n++ {
				if half == 1 || (s.P["salt"]>>n)&1 == 1 {
					w.do(sim.Op{K: "cancel", A: []int{n}}, at)
					w.do(sim.Op{K: "pop", A: []int{n}}, at)
				}
			}
		})
		if !h.MustJoin("C17", 4*time.Minute) {
			return
		}
		w.settle([]string{"after some were canceled", "after all were canceled"}[half])
	}
	h.Go("transcode", func(at func(string)) { w.transcode(s.P["salt"]) })
	if !h.MustJoin("C17", 4*time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	for _, di := range w.b.GetDirectives() {
		switch di.GetDirective().(type) {
		case loader.ExecController, resolver.LoadControllerWithConfig, resolver.LoadFactoryByConfig, resolver.LoadConfigConstructorByID, configset.ApplyConfigSet, configset.LookupConfigSet:
			h.Fail("C17", "not-released", "directive %s is alive after every request returned", di.GetDirective().GetName())
		}
	}
	rc.Close()
	cancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C17"
}
