package scen

import (
	"context"
	"fmt"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	bus_api_controller "github.com/aperturerobotics/controllerbus/bus/api/controller"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/cli"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	controller_exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/blang/semver/v4"

	"verifsim/shim/net"
	"verifsim/sim"
)

// BusAPI serves the bus API to remote clients.
type BusAPI struct{}

func (BusAPI) Name() string { return "busapi" }

const (
	apiAddrs   = 2
	apiClients = 4
	apiTimeout = 20 * time.Second
)

func (BusAPI) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{
		"salt":   r.N(1 << 20),
		"off":    r.Pick(0, 0, 0, 0, 0, 1, 2, 3),
		"delay":  r.Pick(0, 0, 1, 2),
		"piece":  r.Pick(0, 0, 1),
		"window": r.Pick(1<<16, 1<<16, 256, 16),
	}}
	calm := r.P(40)
	for k := 0; k < exKeys; k++ {
		s.P[fmt.Sprintf("kind%d", k)] = r.Pick(exRuns, exRuns, exRuns, exSlow, exFinishes, exRetries, exFails)
	}
	s.P["first"] = r.Pick(0, 1, 1, 1)
	for t, nt := 0, 2+r.N(3); t < nt; t++ {
		var ops []sim.Op
		for i, n := 0, 2+r.N(8); i < n; i++ {
			a := r.N(apiAddrs)
			if r.P(60) {
				a = 0
			}
			c := r.N(apiClients)
			switch x := r.N(100); {
			case x < 10:
				ops = append(ops, sim.Op{K: "start", A: []int{a}})
			case x < 16:
				ops = append(ops, sim.Op{K: "stop", A: []int{a}})
			case x < 20 && !calm:
				ops = append(ops, sim.Op{K: "squat", A: []int{a, r.Pick(10, 1000, 5000)}})
			case x < 34:
				ops = append(ops, sim.Op{K: "dial", A: []int{c, a}})
			case x < 48:
				ops = append(ops, sim.Op{K: "info", A: []int{c}})
			case x < 66:
				ops = append(ops, sim.Op{K: "exec", A: []int{r.N(4), c, 1 + r.N(1<<exKeys-1), r.N(6), r.Pick(0, 0, 0, 0, 0, 0, 1, 2, 2)}})
			case x < 74:
				ops = append(ops, sim.Op{K: "cancel", A: []int{r.N(4)}})
			case x < 77 && !calm:
				ops = append(ops, sim.Op{K: "break", A: []int{c}})
			case x < 79:
				ops = append(ops, sim.Op{K: "hangup", A: []int{c}})
			case x == 79 && !calm:
				ops = append(ops, sim.Op{K: "noaccept"})
			case x < 82 && !calm:
				ops = append(ops, sim.Op{K: "stall", A: []int{c}}, sim.Op{K: "sleep", A: []int{r.Pick(1, 3000, 30000)}}, sim.Op{K: "unstall", A: []int{c}})
			case x < 86:
				ops = append(ops, sim.Op{K: "addctl", A: []int{r.N(3)}})
			case x < 89:
				ops = append(ops, sim.Op{K: "relctl", A: []int{r.N(3)}})
			case x < 93:
				ops = append(ops, sim.Op{K: "adddir", A: []int{r.N(3)}})
			case x < 96:
				ops = append(ops, sim.Op{K: "reldir", A: []int{r.N(3)}})
			default:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 10, 300, 1500, 4000)}})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

// apispan is something which exists on the bus for some time; the steps are
// those before and after adding and removing it.
type apispan struct {
	id                     string
	add0, add1, rel0, rel1 int
	rel                    func()
}

type apictl struct{ id string }

func (c *apictl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(c.id, semver.MustParse("1.2.3"), "about "+c.id)
}
func (c *apictl) Execute(ctx context.Context) error { return nil }
func (c *apictl) Close() error                      { return nil }
func (c *apictl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	return nil, nil
}

type apidir struct{ id string }

func (d *apidir) Validate() error                         { return nil }
func (d *apidir) GetValueOptions() directive.ValueOptions { return directive.ValueOptions{} }
func (d *apidir) GetName() string                         { return "apidir" }
func (d *apidir) GetDebugVals() directive.DebugValues {
	return directive.DebugValues{"id": []string{d.id}, "more": []string{"a", "b"}}
}

// apiconn is a connection of a client.
type apiconn struct {
	name string
	addr int
	cl   bus_api.SRPCControllerBusServiceClient
	end  *net.End
	// stalls counts how often it was stalled
	stalled bool
	stalls  int
	epoch   int
}

// apireq is an ExecController call.
type apireq struct {
	idx     int
	c       *apiconn
	keys    []int
	mustErr bool
	bad     int // key which cannot be resolved, or -1
	cli     bool
	// brokenFile: the file of the CLI command cannot be parsed
	brokenFile bool
	cancel     context.CancelFunc
	last       map[int]controller_exec.ControllerStatus
	canceled   bool
	done       bool
	err        error
}

type apislot struct {
	ref   directive.Reference
	epoch int // counts starts and stops
	squat net.Listener
}

type apiworld struct {
	h     *sim.H
	ex    *exworld
	p     map[string]int
	addrs [apiAddrs]apislot
	conns map[int]*apiconn
	all   []*apiconn
	reqs  []*apireq
	slots map[int]*apireq
	ctls  map[int]*apispan
	dirs  map[int]*apispan
	spans []*apispan
	nspan int
	seq   int
	// noaccept is how often accepting a connection will fail
	noaccept int
}

func apiAddr(a int) string { return fmt.Sprintf("host:%d", 5110+a) }

// disabled reports whether executing controllers is disabled at the address.
func (w *apiworld) disabled(a int) bool { return w.p["off"]>>a&1 == 1 }

func (w *apiworld) conf(a int) *bus_api_controller.Config {
	c := &bus_api_controller.Config{ListenAddr: apiAddr(a), BusApiConfig: &bus_api.Config{EnableExecController: true}}
	if w.disabled(a) {
		c.BusApiConfig.EnableExecController = false
		if w.p["salt"]&1 == 1 {
			c.BusApiConfig = nil
		}
	}
	return c
}

// dial connects to an address, it returns nil if that fails.
func (w *apiworld) dial(a int) (*apiconn, error) {
	h := w.h
	h.Lock()
	c := &apiconn{name: fmt.Sprintf("%s#%d", apiAddr(a), len(w.all)), addr: a, epoch: w.addrs[a].epoch}
	w.all = append(w.all, c)
	h.Unlock()
	args := &cli.ClientArgs{DialAddr: c.name}
	cl, err := args.BuildClient()
	if err != nil {
		return nil, err
	}
	c.cl = cl
	for _, e := range net.Conns() {
		if e.LocalAddr().String() == c.name {
			c.end = e
		}
	}
	return c, nil
}

// served reports whether the connection has been served from its beginning, h
// is locked.
func (w *apiworld) served(c *apiconn) bool {
	return w.addrs[c.addr].ref != nil && w.addrs[c.addr].epoch == c.epoch
}

// info calls GetBusInfo and compares the result with what was on the bus.
func (w *apiworld) info(c *apiconn, at string) {
	h := w.h
	h.Lock()
	w.seq++
	begin := w.seq
	served := w.served(c) && !c.stalled
	stalls := c.stalls
	h.Unlock()
	ctx, cancel := context.WithTimeout(w.ex.ctx, apiTimeout)
	defer cancel()
	resp, err := c.cl.GetBusInfo(ctx, &bus_api.GetBusInfoRequest{})
	dead := c.end.Dead()
	if err == nil {
		h.Count("info-ok")
	}
	h.Lock()
	defer h.Unlock()
	w.seq++
	end := w.seq
	h.LogLocked("GetBusInfo at %s: %v", c.name, err)
	if err != nil {
		if served && !dead && ctx.Err() == nil && w.served(c) && stalls == c.stalls {
			h.FailLocked("C22", "call-failed", "GetBusInfo at %s failed although the connection is alive: %v", c.name, err)
		}
		return
	}
	seen := map[string]int{}
	for _, i := range resp.GetRunningControllers() {
		seen[i.GetId()]++
		if strings.HasPrefix(i.GetId(), "apictl/") && (i.GetVersion() != "1.2.3" || i.GetDescription() != "about "+i.GetId()) {
			h.FailLocked("C22", "wrong-info", "GetBusInfo: controller %s has version %q description %q", i.GetId(), i.GetVersion(), i.GetDescription())
		}
	}
	for _, d := range resp.GetRunningDirectives() {
		i := d.GetInfo()
		if i.GetName() != "apidir" {
			continue
		}
		vals := map[string]string{}
		for _, v := range i.GetDebugVals() {
			vals[v.GetKey()] = strings.Join(v.GetValues(), ",")
		}
		if len(vals) != 2 || vals["more"] != "a,b" {
			h.FailLocked("C22", "wrong-info", "GetBusInfo: a directive has debug values %v", vals)
		}
		seen["dir:"+vals["id"]]++
	}
	for _, id := range []string{"controllerbus/loader", "controllerbus/configset"} {
		if at != "" && seen[id] != 1 {
			h.FailLocked("C22", "missing", "GetBusInfo lists %s %d times", id, seen[id])
		}
	}
	for _, s := range w.spans {
		n := seen[s.id]
		delete(seen, s.id)
		if n > 1 {
			h.FailLocked("C22", "twice", "GetBusInfo lists %s %d times", s.id, n)
		}
		if n == 0 && s.add1 != 0 && s.add1 < begin && s.rel0 == 0 {
			h.FailLocked("C22", "missing", "GetBusInfo does not list %s", s.id)
		}
		if n != 0 && (s.add0 > end || s.rel1 != 0 && s.rel1 < begin) {
			h.FailLocked("C22", "gone", "GetBusInfo lists %s, which is not on the bus", s.id)
		}
	}
	for id := range seen {
		if strings.HasPrefix(id, "apictl/") || strings.HasPrefix(id, "dir:") {
			h.FailLocked("C22", "gone", "GetBusInfo lists %s, which never was on the bus", id)
		}
	}
	if at == "" {
		return
	}
	// nothing else happens: it has to be exact
	var got, want []string
	for _, i := range resp.GetRunningControllers() {
		got = append(got, i.GetId())
	}
	for _, c := range w.ex.b.GetControllers() {
		want = append(want, c.GetControllerInfo().GetId())
	}
	for _, d := range resp.GetRunningDirectives() {
		got = append(got, "dir "+d.GetInfo().GetName())
	}
	for _, d := range w.ex.b.GetDirectives() {
		want = append(want, "dir "+d.GetDirective().GetName())
	}
	sort.Strings(got)
	sort.Strings(want)
	if !slices.Equal(got, want) {
		h.FailLocked("C22", "wrong-list", "%s: GetBusInfo lists %v, on the bus are %v", at, got, want)
	}
}

// exec calls ExecController.
func (w *apiworld) exec(slot int, c *apiconn, mask, form, bad int) {
	h := w.h
	h.Lock()
	q := &apireq{idx: len(w.reqs), c: c, bad: -1, cli: form >= 4, last: map[int]controller_exec.ControllerStatus{}}
	req := &controller_exec.ExecControllerRequest{}
	for k := 0; k < exKeys; k++ {
		if mask>>k&1 == 0 {
			continue
		}
		q.keys = append(q.keys, k)
		conf := w.ex.newConf(k, w.p[fmt.Sprintf("kind%d", k)])
		if form&1 == 0 && !q.cli {
			if req.ConfigSet == nil {
				req.ConfigSet = &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{}}
			}
			pc, err := configset_proto.NewControllerConfig(configset.NewControllerConfig(1, conf), form&2 != 0)
			if err != nil {
				panic(err)
			}
			if bad == 2 && q.bad < 0 {
				q.bad = k
				pc.Id = ""
			}
			req.ConfigSet.Configs[csKey(k)] = pc
		} else {
			req.ConfigSetYaml += fmt.Sprintf("%s: {id: ex, rev: 1, config: {exampleField: %s}}\n", csKey(k), strconv.Quote(conf.GetExampleField()))
		}
	}
	if bad == 1 {
		req.ConfigSetYaml += "broken: {\n"
		q.brokenFile = true
		q.mustErr = true
	}
	q.mustErr = q.mustErr || w.disabled(c.addr) || q.bad >= 0 && len(q.keys) == 1
	w.reqs = append(w.reqs, q)
	old := w.slots[slot]
	w.slots[slot] = q
	h.LogLocked("request %d at %s: keys %v must fail %v", q.idx, c.name, q.keys, q.mustErr)
	ctx, cancel := context.WithCancel(w.ex.ctx)
	q.cancel = cancel
	if old != nil {
		old.canceled = true
	}
	h.Unlock()
	if old != nil {
		old.cancel()
	}
	go func() {
		defer cancel()
		var err error
		if q.cli {
			err = w.runCli(ctx, q, req.ConfigSetYaml)
		} else {
			var strm bus_api.SRPCControllerBusService_ExecControllerClient
			strm, err = c.cl.ExecController(ctx, req)
			for err == nil {
				var resp *controller_exec.ExecControllerResponse
				if resp, err = strm.Recv(); err == nil {
					w.status(q, resp)
				}
			}
		}
		dead := c.end.Dead()
		h.Lock()
		q.done, q.err = true, err
		h.LogLocked("request %d at %s ends: %v", q.idx, c.name, err)
		w.stateLocked()
		if !q.mustErr && !q.canceled && !dead && w.served(c) {
			h.FailLocked("C22", "ended", "request %d at %s ended though it was not canceled and is served: %v", q.idx, c.name, err)
		}
		if q.mustErr && !q.canceled && !dead && w.served(c) && w.disabled(c.addr) && (err == nil || !strings.Contains(err.Error(), "disabled")) && !(q.cli && q.brokenFile) {
			h.FailLocked("C22", "ended", "request %d at %s, where this is disabled, ended with %v", q.idx, c.name, err)
		}
		h.Unlock()
	}()
}

// runCli runs the command which executes a file.
func (w *apiworld) runCli(ctx context.Context, q *apireq, yaml string) error {
	args := &cli.ClientArgs{ExecConfigSetPath: fmt.Sprintf("exec%d.yaml", q.idx)}
	if err := os.WriteFile(args.ExecConfigSetPath, []byte(yaml), 0o600); err != nil {
		panic(err)
	}
	args.SetClient(q.c.cl)
	args.SetContext(ctx)
	w.h.Count("cli")
	err := args.RunExecController(nil)
	if ctx.Err() == nil && err != nil && !q.mustErr && strings.Contains(err.Error(), "parse") {
		w.h.Fail("C22", "cli", "the command fails: %v", err)
	}
	return err
}

// status checks a reported status.
func (w *apiworld) status(q *apireq, resp *controller_exec.ExecControllerResponse) {
	h := w.h
	h.Lock()
	defer h.Unlock()
	h.LogLocked("request %d: %s %s", q.idx, resp.GetId(), resp.GetStatus())
	defer w.stateLocked()
	if q.mustErr && (w.disabled(q.c.addr) || q.brokenFile) {
		h.FailLocked("C22", "wrong-status", "request %d must fail but reports %s", q.idx, resp.GetStatus())
	}
	for _, k := range q.keys {
		if csKey(k) == resp.GetId() {
			q.last[k] = resp.GetStatus()
			return
		}
	}
	h.FailLocked("C22", "wrong-status", "request %d reports the status of %q, which it has not", q.idx, resp.GetId())
}

// stateLocked records the state of the requests.
func (w *apiworld) stateLocked() {
	x := uint64(0)
	for _, q := range w.reqs {
		x *= 31
		if q.done {
			continue
		}
		x += uint64(q.c.addr + 1)
		for _, k := range q.keys {
			x = x*5 + 1 + uint64(q.last[k])
		}
	}
	w.h.StateLocked(x)
}

func (w *apiworld) span(id string) *apispan {
	w.nspan++
	w.seq++
	s := &apispan{id: fmt.Sprintf("%s%d", id, w.nspan), add0: w.seq}
	w.spans = append(w.spans, s)
	return s
}

func (w *apiworld) added(m map[int]*apispan, slot int, s *apispan, rel func()) {
	w.h.Lock()
	w.seq++
	s.add1, s.rel = w.seq, rel
	old := m[slot]
	m[slot] = s
	w.h.Unlock()
	w.remove(old)
}

func (w *apiworld) take(m map[int]*apispan, slot int) {
	w.h.Lock()
	s := m[slot]
	delete(m, slot)
	w.h.Unlock()
	w.remove(s)
}

func (w *apiworld) remove(s *apispan) {
	if s == nil {
		return
	}
	w.h.Lock()
	w.seq++
	s.rel0 = w.seq
	w.h.Unlock()
	s.rel()
	w.h.Lock()
	w.seq++
	s.rel1 = w.seq
	w.h.Unlock()
}

func (w *apiworld) conn(c int) *apiconn {
	w.h.Lock()
	defer w.h.Unlock()
	return w.conns[c]
}

func (w *apiworld) start(a int) {
	h := w.h
	_, ref, err := w.ex.b.AddDirective(resolver.NewLoadControllerWithConfig(w.conf(a)), nil)
	if err != nil {
		panic(err)
	}
	h.Lock()
	s := &w.addrs[a]
	if s.ref == nil {
		s.ref, ref = ref, nil
		s.epoch++
	}
	h.Unlock()
	if ref != nil {
		ref.Release()
	}
}

func (w *apiworld) stop(a int) {
	h := w.h
	h.Lock()
	s := &w.addrs[a]
	ref := s.ref
	if s.ref != nil {
		s.ref = nil
		s.epoch++
	}
	h.Unlock()
	if ref != nil {
		ref.Release()
	}
}

func (w *apiworld) do(op sim.Op, at func(string)) {
	h := w.h
	at(op.String())
	h.Count(op.K)
	n := op.Arg(0)
	switch op.K {
	case "start":
		w.start(n)
	case "stop":
		w.stop(n)
	case "squat":
		// something else has the address
		l, err := net.Listen("tcp", apiAddr(n))
		if err != nil {
			return
		}
		h.Fault("address-in-use")
		h.Lock()
		w.addrs[n].epoch++
		h.Unlock()
		sim.Sleep(time.Duration(op.Arg(1)) * time.Millisecond)
		_ = l.Close()
		h.Lock()
		w.addrs[n].epoch++
		h.Unlock()
	case "dial":
		c, err := w.dial(op.Arg(1))
		if err != nil {
			h.Count("refused")
			return
		}
		h.Lock()
		old := w.conns[n]
		w.conns[n] = c
		h.LogLocked("connected %s", c.name)
		h.Unlock()
		if old != nil {
			_ = old.end.Close()
		}
	case "info":
		if c := w.conn(n); c != nil {
			w.info(c, "")
		}
	case "exec":
		if c := w.conn(op.Arg(1)); c != nil {
			w.exec(n, c, op.Arg(2), op.Arg(3), op.Arg(4))
		}
	case "cancel":
		h.Lock()
		q := w.slots[n]
		delete(w.slots, n)
		if q != nil {
			q.canceled = true
			h.LogLocked("cancel request %d", q.idx)
		}
		h.Unlock()
		if q != nil {
			q.cancel()
		}
	case "break":
		if c := w.conn(n); c != nil {
			h.Fault("connection-reset")
			c.end.Break()
		}
	case "noaccept":
		h.Lock()
		w.noaccept++
		h.Unlock()
	case "hangup":
		if c := w.conn(n); c != nil {
			_ = c.end.Close()
		}
	case "stall", "unstall":
		if c := w.conn(n); c != nil {
			on := op.K == "stall"
			if on {
				h.Fault("connection-stalls")
			}
			h.Lock()
			c.stalled = on
			c.stalls++
			h.Unlock()
			c.end.Stall(on)
		}
	case "addctl":
		h.Lock()
		s := w.span("apictl/")
		h.Unlock()
		rel, err := w.ex.b.AddController(w.ex.ctx, &apictl{s.id}, nil)
		if err != nil {
			panic(err)
		}
		w.added(w.ctls, n, s, rel)
	case "relctl":
		w.take(w.ctls, n)
	case "adddir":
		h.Lock()
		s := w.span("dir:")
		h.Unlock()
		_, ref, err := w.ex.b.AddDirective(&apidir{strings.TrimPrefix(s.id, "dir:")}, nil)
		if err != nil {
			panic(err)
		}
		w.added(w.dirs, n, s, ref.Release)
	case "reldir":
		w.take(w.dirs, n)
	case "sleep":
		sim.Sleep(time.Duration(n) * time.Millisecond)
	}
}

// settle waits until nothing happens and checks the state.
func (w *apiworld) settle(at string) {
	h := w.h
	for _, c := range w.all {
		if c.end != nil && c.stalled {
			c.stalled = false
			c.end.Stall(false)
		}
	}
	h.Lock()
	w.noaccept = 0
	h.Unlock()
	h.Quiesce(time.Minute)
	h.Lock()
	w.ex.hold = make(chan struct{})
	h.Unlock()
	h.Quiesce(time.Minute)
	w.check(at)
	h.Lock()
	close(w.ex.hold)
	w.ex.hold = nil
	h.Unlock()
}

func (w *apiworld) check(at string) {
	h := w.h
	// who can be reached
	for a := range w.addrs {
		c, err := w.dial(a)
		held := w.addrs[a].ref != nil
		if held != (err == nil) {
			h.Fail("C22", "listening", "%s: the API at %s is wanted: %v, dialing returns %v", at, apiAddr(a), held, err)
		}
		if err != nil {
			continue
		}
		w.mustInfo(c, at)
		_ = c.end.Close()
	}
	for i := 0; i < apiClients; i++ {
		c := w.conns[i]
		if c == nil || c.end.Dead() {
			continue
		}
		if w.served(c) {
			w.mustInfo(c, at)
		} else if w.addrs[c.addr].ref == nil {
			h.Fail("C22", "left-open", "%s: connection %s is open though the API has stopped", at, c.name)
		}
	}
	h.Quiesce(10 * time.Second)
	states := map[int]configset.State{}
	for k := 0; k < exKeys; k++ {
		ref, err := w.ex.cc.AddConfigSetReference(w.ex.ctx, csKey(k))
		if err != nil {
			panic(err)
		}
		states[k] = ref.GetState()
		defer ref.Release()
	}
	h.Lock()
	defer h.Unlock()
	wanted := map[int]bool{}
	for _, q := range w.reqs {
		if q.done {
			continue
		}
		if q.canceled || q.mustErr || q.c.end.Dead() || w.addrs[q.c.addr].ref == nil {
			h.FailLocked("C22", "not-ended", "%s: request %d did not end (canceled %v, must fail %v, connection closed %v, API wanted %v)", at, q.idx, q.canceled, q.mustErr, q.c.end.Dead(), w.addrs[q.c.addr].ref != nil)
			continue
		}
		for _, k := range q.keys {
			if k == q.bad {
				if q.last[k] != controller_exec.ControllerStatus_ControllerStatus_ERROR {
					h.FailLocked("C22", "status", "%s: request %d: the config of key %d cannot be used but its last status is %s", at, q.idx, k, q.last[k])
				}
				continue
			}
			wanted[k] = true
			s := states[k]
			want := controller_exec.ControllerStatus_ControllerStatus_CONFIGURING
			if s == nil {
				h.FailLocked("C22", "not-applied", "%s: request %d: key %d has no state", at, q.idx, k)
				continue
			} else if s.GetController() != nil {
				want = controller_exec.ControllerStatus_ControllerStatus_RUNNING
			} else if s.GetError() != nil {
				want = controller_exec.ControllerStatus_ControllerStatus_ERROR
			}
			h.StateLocked(uint64(k)<<8 | uint64(want))
			if !q.cli && q.last[k] != want {
				h.FailLocked("C22", "status", "%s: request %d: the last status of key %d is %s but it is %s", at, q.idx, k, q.last[k], want)
			}
		}
	}
	for _, c := range w.ex.ctls {
		k := c.c.key()
		if c.closes == 0 && !wanted[k] {
			h.FailLocked("C22", "not-withdrawn", "%s: controller %d of key %d is left, no request wants it", at, c.idx, k)
		}
	}
	for k := 0; k < exKeys; k++ {
		kind := w.p[fmt.Sprintf("kind%d", k)]
		n := 0
		for _, c := range w.ex.ctls {
			if c.c.key() == k && c.closes == 0 {
				n++
			}
		}
		if wanted[k] && kind != exFails && n != 1 {
			h.FailLocked("C22", "not-applied", "%s: %d controllers of key %d are running", at, n, k)
		}
	}
}

// mustInfo calls GetBusInfo, which has to succeed.
func (w *apiworld) mustInfo(c *apiconn, at string) {
	h := w.h
	ctx, cancel := context.WithTimeout(w.ex.ctx, time.Minute)
	_, err := c.cl.GetBusInfo(ctx, &bus_api.GetBusInfoRequest{})
	cancel()
	if err != nil {
		h.Fail("C22", "unserved", "%s: GetBusInfo at %s fails: %v", at, c.name, err)
		return
	}
	w.info(c, at)
	args := &cli.ClientArgs{Interactive: w.p["salt"]&2 == 0}
	args.SetClient(c.cl)
	args.SetContext(w.ex.ctx)
	if err := args.RunBusInfo(nil); err != nil {
		h.Fail("C22", "unserved", "%s: the bus-info command fails: %v", at, err)
	}
}

func (BusAPI) Exec(h *sim.H, s *sim.Script) {
	h.NoPanics("C22")
	defer enterScratch()()
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	defer null.Close()
	os.Stdout = null
	net.Reset()
	net.Window = s.P["window"]
	rnd := sim.NewRand(uint64(s.P["salt"]))
	if d := s.P["delay"]; d != 0 {
		net.Delay = func() time.Duration {
			return time.Duration(rnd.Pick(0, 1, 5, 40)*d*d) * time.Millisecond
		}
	}
	if s.P["piece"] == 1 {
		net.Piece = func(n int) int { return 1 + rnd.N(n) }
	}
	ctx, cancel := context.WithCancel(context.Background())
	dc := dcontroller.NewController(ctx, h.Le)
	b := inmem.NewBus(dc)
	w := &apiworld{h: h, p: s.P, conns: map[int]*apiconn{}, slots: map[int]*apireq{}, ctls: map[int]*apispan{}, dirs: map[int]*apispan{}, ex: &exworld{
		h: h, ctx: ctx, b: b, tries: map[[2]int]int{}, ok: map[int]bool{},
	}}
	net.AcceptErr = func() error {
		h.Lock()
		defer h.Unlock()
		if w.noaccept == 0 {
			return nil
		}
		w.noaccept--
		h.FaultLocked("accept-fails")
		for a := range w.addrs {
			w.addrs[a].epoch++
		}
		return os.NewSyscallError("accept4", syscall.EMFILE)
	}
	lc, err := loader.NewController(h.Le, b)
	if err != nil {
		panic(err)
	}
	cc, err := configset_controller.NewController(h.Le, b)
	if err != nil {
		panic(err)
	}
	w.ex.cc = cc
	sr := static.NewResolver()
	sr.AddFactory(&exfac{w.ex})
	sr.AddFactory(bus_api_controller.NewFactory(b))
	rc := resolver.NewController(h.Le, b, sr)
	for _, c := range []controller.Controller{lc, rc, cc} {
		if _, err := b.AddController(ctx, c, nil); err != nil {
			panic(err)
		}
	}
	if s.P["first"] == 1 {
		w.start(0)
		h.Quiesce(10 * time.Second)
		for c := 0; c < 2; c++ {
			if conn, err := w.dial(0); err == nil {
				w.conns[c] = conn
			}
		}
	}
	for i, ops := range s.Tasks {
		h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
			for _, op := range ops {
				w.do(op, at)
			}
		})
	}
	if !h.MustJoin("C22", 10*time.Minute) {
		return
	}
	w.settle("after the run")

	h.Go("some", func(at func(string)) {
		for n := 0; n < 4; n++ {
			if s.P["salt"]>>n&1 == 1 {
				w.do(sim.Op{K: "cancel", A: []int{n}}, at)
			}
		}
		for a := range w.addrs {
			if s.P["salt"]>>(4+a)&1 == 1 {
				w.do(sim.Op{K: "stop", A: []int{a}}, at)
			} else if s.P["salt"]>>(6+a)&1 == 1 {
				w.do(sim.Op{K: "start", A: []int{a}}, at)
			}
		}
	})
	if !h.MustJoin("C22", 4*time.Minute) {
		return
	}
	w.settle("after some were canceled")

	h.Go("all", func(at func(string)) {
		for n := 0; n < 3; n++ {
			w.do(sim.Op{K: "relctl", A: []int{n}}, at)
			w.do(sim.Op{K: "reldir", A: []int{n}}, at)
		}
		if s.P["salt"]>>8&1 == 1 {
			for n := 0; n < 4; n++ {
				w.do(sim.Op{K: "cancel", A: []int{n}}, at)
			}
		}
		for a := range w.addrs {
			w.do(sim.Op{K: "stop", A: []int{a}}, at)
		}
	})
	if !h.MustJoin("C22", 4*time.Minute) {
		return
	}
	w.settle("after all were stopped")
	if n := net.Listening(); n != 0 {
		h.Fail("C22", "listening", "%d listeners are left after the API has stopped", n)
	}
	for _, e := range net.Conns() {
		_ = e.Close()
	}
	rc.Close()
	cancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C22"
}
