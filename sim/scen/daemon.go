package scen

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/ghodss/yaml"

	"github.com/aperturerobotics/controllerbus/bus"
	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	"github.com/aperturerobotics/controllerbus/cli"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	controller_exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/directive"
	boilerplate "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	cbus_plugin "github.com/aperturerobotics/controllerbus/plugin"
	"github.com/blang/semver/v4"

	"verifsim/daemon"
	shimctx "verifsim/shim/context"
	"verifsim/shim/fsnotify"
	"verifsim/shim/net"
	shimos "verifsim/shim/os"
	"verifsim/shim/plugin"
	"verifsim/sim"
)

// Daemon runs the command: lives of a daemon with one configuration file.
type Daemon struct{}

func (Daemon) Name() string { return "daemon" }

const (
	dmKeys  = 4
	dmPlugs = 3
	dmFile  = "controllerbus_daemon.yaml"
	dmDir   = "p"
	dmAddr  = "host:5110"
)

// Kinds of entries; up to dmPlugs it is the number of the plugin.
const (
	dmBoiler = dmPlugs + iota
	dmBad
	dmUnknown
)

// Variants of the file.
const (
	dmNormal = iota
	dmMissing
	dmBroken
	dmNull
	dmNoID
)

var dmKeyNames = [dmKeys]string{"k0", "web server", "1", "a: b #c"}

// dmFaults are the operations which may fail, and how.
var dmFaults = []struct{ fault, op string }{
	{"read-error", shimos.OpRead},
	{"write-error", shimos.OpWrite},
	{"open-error", shimos.OpOpen},
	{"sync-error", shimos.OpSync},
	{"rename-error", shimos.OpRename},
}

func (Daemon) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{"salt": r.N(1 << 20)}}
	for k := 0; k < dmKeys; k++ {
		s.P[fmt.Sprintf("kind%d", k)] = r.Pick(0, 0, 1, 1, 2, 2, dmBoiler, dmBoiler, dmBad, r.Pick(0, dmUnknown))
	}
	var ops []sim.Op
	add := func(k string, a ...int) { ops = append(ops, sim.Op{K: k, A: a}) }
	for i := 0; i < dmPlugs; i++ {
		if r.P(80) {
			add("plug", i, 1)
		}
	}
	conf := func() {
		add("conf", r.Pick(dmNormal, dmNormal, dmNormal, dmNormal, dmNormal, dmMissing, dmBroken, r.Pick(dmNull, dmNoID)), r.Pick(15, 15, r.N(16)), r.N(4))
	}
	conf()
	for n := 1 + r.N(4); n > 0; n-- {
		if r.P(35) {
			conf()
		}
		if r.P(30) {
			add("fault", r.Pick(0, 1, 1, 1, 2, 3, 4), r.N(6))
		}
		if r.P(35) {
			add("killat", r.Pick(1, 2, 3, 4, 5, 6, 1+r.N(40)), r.N(2))
		}
		if r.P(10) {
			add("squat", 1)
		}
		add("start", r.Pick(0, 1, 1), r.Pick(0, 1, 1, 1), r.Pick(0, 1, 1, 1, 1))
		for m := r.N(5); m > 0; m-- {
			switch x := r.N(10); {
			case x < 3:
				add("plug", r.N(dmPlugs), r.Pick(0, 1, 1))
			case x < 4:
				add("squat", r.N(2))
			case x < 7:
				add("sleep", r.Pick(1, 10, 500, 1000, 3000))
			default:
				add("settle")
			}
		}
		add("kill", r.N(2))
	}
	s.Tasks = append(s.Tasks, ops)
	return s
}

// dmconf is the configuration of a controller of a plugin.
type dmconf struct {
	*boilerplate.Config
	n int
}

func (c *dmconf) GetConfigID() string { return pgConfID(c.n) }
func (c *dmconf) Validate() error {
	if strings.HasPrefix(c.GetExampleField(), "bad") {
		return errors.New("bad config")
	}
	return nil
}
func (c *dmconf) EqualsConfig(o config.Config) bool {
	oc, ok := o.(*dmconf)
	return ok && oc.n == c.n && oc.GetExampleField() == c.GetExampleField()
}

type dmfac struct {
	w *dmworld
	n int
	// life loaded the plugin
	life *dmlife
}

func (f *dmfac) GetConfigID() string     { return pgConfID(f.n) }
func (f *dmfac) GetControllerID() string { return pgConfID(f.n) }
func (f *dmfac) ConstructConfig() config.Config {
	return &dmconf{Config: &boilerplate.Config{}, n: f.n}
}
func (f *dmfac) GetVersion() semver.Version { return semver.Version{Major: 1} }
func (f *dmfac) Construct(ctx context.Context, conf config.Config, opts controller.ConstructOpts) (controller.Controller, error) {
	sim.Yield()
	c, ok := conf.(*dmconf)
	if !ok {
		return nil, errors.New("wrong config")
	}
	return &dmctl{w: f.w, life: f.life, n: f.n, field: c.GetExampleField()}, nil
}

type dmctl struct {
	w     *dmworld
	life  *dmlife
	n     int
	field string
}

func (c *dmctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo("dmctl", semver.MustParse("1.0.0"), "")
}
func (c *dmctl) HandleDirective(context.Context, directive.Instance) ([]directive.Resolver, error) {
	return nil, nil
}
func (c *dmctl) Execute(ctx context.Context) error {
	h := c.w.h
	id := fmt.Sprintf("%s %s", pgConfID(c.n), c.field)
	h.Lock()
	c.life.active[id]++
	c.life.ran++
	h.LogLocked("controller %s starts", id)
	if h := c.life; h.ran == 1 && h.mustExit != "" {
		c.w.h.FailLocked("C23", "partial", "a controller of the config set runs although %s", h.mustExit)
	}
	h.Unlock()
	<-ctx.Done()
	h.Lock()
	if c.life.active[id]--; c.life.active[id] == 0 {
		delete(c.life.active, id)
	}
	h.LogLocked("controller %s stops", id)
	h.Unlock()
	return nil
}
func (c *dmctl) Close() error { return nil }

// dmentry is an entry of the file.
type dmentry struct {
	kind  int
	id    string
	rev   uint64
	field string
	// omit omits the config, which is empty
	omit bool
}

// dmlife is a life of the daemon.
type dmlife struct {
	// others: the other files when it was started
	others map[string]bool
	cancel context.CancelFunc
	done   chan struct{}
	// write, api, hot are the flags
	write, api, hot bool
	active          map[string]int
	ran             int
	// mustExit is why it must exit with an error
	mustExit string
	// entryErr: an entry cannot be resolved
	entryErr bool
	busy     bool // the address was in use
	syncErr  bool
	killed   bool
	exited   bool
	code     int
	up       bool
	extra    string // a controller which was added by a client
}

type dmworld struct {
	h    *sim.H
	ctx  context.Context
	p    map[string]int
	seq  int
	life *dmlife
	// the file: its variant, its content and what it denotes
	variant int
	raw     []byte
	want    map[string]*dmentry
	// wrote: a life was asked to write it since the last edit
	wrote bool
	plugs [dmPlugs]bool
	squat net.Listener
	// fault: the kind which will fail, after how many operations
	fault, faultIn int
	killIn, power  int
	nops           int
}

// special strings
var dmFields = [dmKeys][]string{
	{"yes", "~", "0x10", "a\nb\n"},
	{"no", "1e3", "2001-01-01", "- x"},
	{"null", "012", "\"'", "{}"},
	{"true", "1_000", "\u00e9\u2028", "<<"},
}

// edit writes the file as an administrator.
func (w *dmworld) edit(variant, mask, form int) {
	h := w.h
	h.Lock()
	defer h.Unlock()
	w.seq++
	r := sim.NewRand(uint64(w.p["salt"] + w.seq*1000))
	w.variant, w.want, w.wrote = variant, map[string]*dmentry{}, false
	obj := map[string]any{}
	for k := 0; k < dmKeys; k++ {
		if mask>>k&1 == 0 {
			continue
		}
		e := &dmentry{kind: w.p[fmt.Sprintf("kind%d", k)]}
		e.field = fmt.Sprintf("%d-%d %s", k, w.seq, strings.Repeat("x", r.Pick(0, 1, 20, 60, r.N(4000))))
		switch x := r.N(10); {
		case x < 3:
			e.field = dmFields[k][r.N(len(dmFields[k]))]
		case x == 3 && k == 0:
			e.field, e.omit = "", r.P(50)
		}
		switch e.kind {
		case dmBoiler:
			e.id = boilerplate.ConfigID
		case dmUnknown:
			e.id = "plug/unknown"
		case dmBad:
			e.id, e.field, e.omit = pgConfID(k%dmPlugs), "bad "+e.field, false
		default:
			e.id = pgConfID(e.kind)
		}
		e.rev = uint64([]int{0, 1, w.seq, 1<<53 + 1, 1<<62 + 1}[r.N(5)])
		m := map[string]any{"id": e.id}
		if e.rev != 0 {
			m["rev"] = e.rev
		}
		if !e.omit {
			c := map[string]any{}
			if e.field != "" {
				c["exampleField"] = e.field
			}
			m["config"] = c
		}
		w.want[dmKeyNames[k]] = e
		obj[dmKeyNames[k]] = m
	}
	switch variant {
	case dmNull:
		obj["null"] = nil
	case dmNoID:
		obj["noid"] = map[string]any{"rev": 1}
	}
	dat, err := json.Marshal(obj)
	if err == nil && form > 0 {
		dat, err = yaml.JSONToYAML(dat)
		if form > 1 {
			dat = append([]byte("# the daemon\n---\n"), append(dat, "# end\n"...)...)
		}
	}
	if err != nil {
		panic(err)
	}
	if variant == dmBroken {
		dat = append([]byte("[1, {\n"), dat...)
	}
	w.raw = dat
	if variant == dmMissing {
		w.raw, w.want = nil, map[string]*dmentry{}
		_ = os.Remove(dmFile)
	} else if err := os.WriteFile(dmFile, dat, 0o644); err != nil {
		panic(err)
	}
	shimos.Clear()
	h.LogLocked("the file: variant %d\n%s", variant, w.raw)
}

// denotes compares content with what it should denote.
func (w *dmworld) denotes(dat []byte) error {
	var got map[string]*struct {
		ID     string         `json:"id"`
		Rev    uint64         `json:"rev"`
		Config map[string]any `json:"config"`
	}
	if err := yaml.Unmarshal(dat, &got); err != nil {
		return fmt.Errorf("cannot be parsed: %v", err)
	}
	for k, e := range w.want {
		g := got[k]
		if g == nil {
			return fmt.Errorf("has no entry %q", k)
		}
		field, _ := g.Config["exampleField"].(string)
		if len(g.Config) > 1 || g.ID != e.id || g.Rev != e.rev || field != e.field {
			return fmt.Errorf("has entry %q = %+v instead of %+v", k, *g, *e)
		}
	}
	if len(got) != len(w.want) {
		return fmt.Errorf("has %d entries instead of %d", len(got), len(w.want))
	}
	return nil
}

// checkFile compares the file with what was written by the administrator.
func (w *dmworld) checkFile(at string) {
	h := w.h
	dat, err := os.ReadFile(dmFile)
	h.Lock()
	defer h.Unlock()
	switch {
	case w.variant == dmMissing && err != nil:
	case err != nil:
		h.FailLocked("C23", "file-lost", "%s: the config file is gone: %v", at, err)
	case w.variant == dmMissing && !w.wrote:
		h.FailLocked("C23", "file-changed", "%s: the config file was written without being asked to: %q", at, dat)
	case w.variant != dmNormal && w.variant != dmMissing || !w.wrote:
		if !bytes.Equal(dat, w.raw) {
			h.FailLocked("C23", "file-changed", "%s: the config file was changed from %q to %q", at, w.raw, dat)
		}
	default:
		if err := w.denotes(dat); err != nil {
			h.FailLocked("C23", "file-lost", "%s: the config file %v\nbefore:\n%s\nafter:\n%s", at, err, w.raw, dat)
		}
		if w.variant == dmMissing {
			w.variant = dmNormal
		}
		w.raw = dat
	}
}

// op is called before an operation of the daemon.
func (w *dmworld) op(kind, name string, n int) (int, error) {
	h := w.h
	h.Lock()
	w.nops++
	h.LogLocked("%s %s %d", kind, name, n)
	fail := false
	if w.fault >= 0 && dmFaults[w.fault].op == kind {
		if w.faultIn == 0 {
			fail = true
			h.FaultLocked(dmFaults[w.fault].fault)
		} else {
			w.faultIn--
		}
	}
	kill := false
	if w.killIn > 0 {
		w.killIn--
		kill = w.killIn == 0
	}
	life := w.life
	if fail && !kill {
		switch kind {
		case shimos.OpRead:
			life.mustExit = "the file could not be read"
		case shimos.OpSync:
			life.syncErr = true
		default:
			life.mustExit = "the file could not be written"
		}
	}
	power := w.power
	h.Unlock()
	if kill {
		h.Fault("crash-point")
		w.die(power == 1)
		return 0, shimos.ErrDead
	}
	if fail {
		if kind == shimos.OpWrite {
			return sim.NewRand(uint64(w.nops)).N(n), &os.PathError{Op: kind, Path: name, Err: syscall.ENOSPC}
		}
		return 0, &os.PathError{Op: kind, Path: name, Err: syscall.EIO}
	}
	return n, nil
}

// die ends the process of the daemon.
func (w *dmworld) die(power bool) {
	h := w.h
	shimos.Die()
	h.Lock()
	life := w.life
	life.killed = true
	h.LogLocked("killed, power loss %v", power)
	r := sim.NewRand(uint64(w.p["salt"] + w.nops))
	h.Unlock()
	if power {
		h.Fault("power-loss")
		if n := shimos.PowerLoss(r.N); n > 0 {
			h.Fault("content-lost")
		}
	}
	life.cancel()
}

// dmOthers lists the files next to the config file.
func dmOthers() map[string]bool {
	out := map[string]bool{}
	es, err := os.ReadDir(filepath.Dir(dmFile))
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if e.Name() != filepath.Base(dmFile) {
			out[e.Name()] = true
		}
	}
	return out
}

// start starts the daemon.
func (w *dmworld) start(write, api, hot bool) {
	h := w.h
	ctx, cancel := context.WithCancel(w.ctx)
	life := &dmlife{others: dmOthers(), cancel: cancel, done: make(chan struct{}), write: write, api: api, hot: hot, active: map[string]int{}}
	args := []string{"controllerbus", "daemon"}
	h.Lock()
	w.life = life
	w.wrote = w.wrote || write
	switch {
	case w.variant == dmMissing && !write:
		life.mustExit = "there is no config file"
	case w.variant == dmBroken:
		life.mustExit = "the config file cannot be parsed"
	case w.variant == dmNull, w.variant == dmNoID:
		life.entryErr = true
	}
	life.busy = api && w.squat != nil
	w.seq++
	h.LogLocked("start %+v", *life)
	if w.seq%2 == 0 {
		args = append(args, "--config", "./"+dmFile)
	}
	h.Unlock()
	if write {
		args = append(args, "--write-config")
	}
	addr := ""
	if api {
		addr = dmAddr
	}
	args = append(args, "--api-listen", addr)
	if hot {
		args = append(args, "--hot-load-dir", dmDir)
	}
	shimos.Reset()
	shimos.Args, shimos.Op = args, w.op
	shimos.Exited = func(code int) {
		shimos.Die()
		h.Lock()
		if !life.killed {
			life.exited, life.code = true, code
			h.LogLocked("exit %d", code)
		}
		h.Unlock()
		cancel()
	}
	shimctx.Process = ctx
	go func() {
		defer close(life.done)
		daemon.Main()
		h.Lock()
		if !life.killed {
			life.exited = true
			h.LogLocked("returned")
		}
		h.Unlock()
		shimos.Die()
		cancel()
	}()
}

// kill kills the daemon and waits until nothing is left of it.
func (w *dmworld) kill(power bool) {
	h := w.h
	h.Lock()
	life := w.life
	alive := life != nil && !life.killed && !life.exited
	h.Unlock()
	if life == nil {
		return
	}
	if alive {
		h.Fault("kill")
		w.die(power)
	}
	<-life.done
	for i := 0; i < 60; i++ {
		h.Lock()
		left := len(life.active) > 0
		n := net.Listening()
		if w.squat != nil {
			n--
		}
		h.Unlock()
		if !left && n == 0 && fsnotify.Open() == 0 {
			break
		}
		sim.Sleep(time.Second)
	}
	h.Lock()
	if life.exited && life.code == 0 {
		h.FailLocked("C23", "exit-code", "the daemon ended with exit code 0")
	}
	for name := range dmOthers() {
		if life.exited && !life.others[name] {
			h.FailLocked("C23", "file-left", "the daemon ended by itself and left the file %s", name)
		}
	}
	w.life, w.fault, w.killIn = nil, -1, 0
	h.Unlock()
	w.checkFile("after the daemon ended")
}

// load reads a plugin.
func (w *dmworld) load(path string) (map[string]plugin.Symbol, error) {
	n := int(filepath.Base(path)[0] - 'a')
	w.h.Lock()
	life := w.life
	w.h.Unlock()
	if life == nil {
		return nil, errors.New("the process ended")
	}
	var p cbus_plugin.Plugin = cbus_plugin.NewStaticPlugin(fmt.Sprintf("plug-%d", n), "v1", func(b bus.Bus) []controller.Factory {
		return []controller.Factory{&dmfac{w: w, n: n, life: life}}
	})
	return map[string]plugin.Symbol{cbus_plugin.PluginGlobalVar: &p}, nil
}

func (w *dmworld) plug(n int, on bool) {
	h := w.h
	name := filepath.Join(dmDir, string(rune('a'+n))+".cbus.so")
	h.Lock()
	if w.plugs[n] == on {
		h.Unlock()
		return
	}
	w.plugs[n] = on
	h.LogLocked("plugin %d: %v", n, on)
	ev := fsnotify.Remove
	if on {
		ev = fsnotify.Create
		if err := os.WriteFile(name, nil, 0o644); err != nil {
			panic(err)
		}
		w.seq++
		t := time.Unix(1700000000+int64(w.seq), 0)
		if err := os.Chtimes(name, t, t); err != nil {
			panic(err)
		}
	} else if err := os.Remove(name); err != nil {
		panic(err)
	}
	h.Unlock()
	fsnotify.Emit(name, ev)
	if on {
		fsnotify.Emit(name, fsnotify.Write)
	}
}

// avail tells if controllers of the kind can be constructed, h is locked.
func (w *dmworld) avail(kind int, field string) bool {
	switch kind {
	case dmBoiler:
		return true
	case dmUnknown:
		return false
	}
	return w.life.hot && w.plugs[kind]
}

// settle waits until nothing happens and compares what runs with the file.
func (w *dmworld) settle(at string) {
	h := w.h
	h.Quiesce(5 * time.Minute)
	h.Lock()
	life := w.life
	if life == nil || life.killed {
		h.Unlock()
		return
	}
	ready := true
	wantIDs := map[string]int{}
	boiler := 0
	for _, e := range w.want {
		kind := e.kind
		if kind == dmBad {
			kind = int(e.id[len(e.id)-1] - '0')
		}
		ok := w.avail(kind, e.field)
		ready = ready && ok
		if e.kind == dmBoiler {
			// without a field, the config is not valid
			boiler += b2i(e.field != "")
		} else if e.kind != dmBad && ok {
			wantIDs[e.id+" "+e.field]++
		}
	}
	if life.extra != "" {
		wantIDs[life.extra]++
	}
	// two entries with the same config share a controller
	for id := range wantIDs {
		wantIDs[id] = 1
	}
	must := life.mustExit
	if must == "" && life.entryErr && ready {
		must = "an entry of the file cannot be resolved"
	}
	mayExit := life.entryErr || life.busy || life.syncErr
	h.StateLocked(uint64(len(wantIDs))<<16 | uint64(w.variant)<<8 | uint64(b2i(life.exited))<<4 | uint64(b2i(ready)))
	var up bool
	switch {
	case life.exited && must == "" && !mayExit:
		h.FailLocked("C23", "exited", "%s: the daemon ended (exit code %d)", at, life.code)
	case life.exited && life.code == 0:
		h.FailLocked("C23", "exit-code", "%s: the daemon ended with exit code 0", at)
	case !life.exited && must != "":
		h.FailLocked("C23", "ran-anyway", "%s: the daemon runs although %s", at, must)
	case !life.exited && !life.entryErr:
		up = ready || life.up
	}
	if up && !life.up {
		life.up = true
		h.LogLocked("%s: up", at)
		if w.variant == dmMissing {
			if _, err := os.Stat(dmFile); err != nil {
				h.FailLocked("C23", "not-written", "%s: the config file was not written: %v", at, err)
			}
		}
	}
	if up {
		for _, id := range sim.SortedKeys(wantIDs) {
			if life.active[id] != 1 {
				h.FailLocked("C23", "not-running", "%s: %d controllers run with config %q of the file", at, life.active[id], id)
			}
		}
		for _, id := range sim.SortedKeys(life.active) {
			if wantIDs[id] == 0 {
				h.FailLocked("C23", "wrong-config", "%s: a controller runs with config %q, which it should not", at, id)
			}
		}
	}
	busy := life.busy
	h.Unlock()
	if !up || !life.api || busy {
		return
	}
	cl, err := w.client()
	if err != nil {
		h.Fail("C23", "no-api", "%s: the API does not listen: %v", at, err)
		return
	}
	ctx, cancel := context.WithTimeout(w.ctx, time.Minute)
	defer cancel()
	resp, err := cl.GetBusInfo(ctx, &bus_api.GetBusInfoRequest{})
	if err != nil {
		h.Fail("C23", "no-api", "%s: the API does not answer: %v", at, err)
		return
	}
	h.Count("info")
	got := map[string]int{}
	for _, i := range resp.GetRunningControllers() {
		got[i.GetId()]++
	}
	want := map[string]int{"controllerbus/loader": 1, "controllerbus/configset": 1, "controllerbus/bus/api": 1, "dmctl": len(wantIDs), boilerplate.ControllerID: boiler}
	for _, id := range sim.SortedKeys(want) {
		if got[id] != want[id] {
			h.Fail("C23", "wrong-info", "%s: the API lists %d controllers %s, expected %d", at, got[id], id, want[id])
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (w *dmworld) client() (bus_api.SRPCControllerBusServiceClient, error) {
	w.h.Lock()
	w.seq++
	args := &cli.ClientArgs{DialAddr: fmt.Sprintf("%s#%d", dmAddr, w.seq)}
	w.h.Unlock()
	return args.BuildClient()
}

// exec executes a controller through the API.
func (w *dmworld) exec() {
	h := w.h
	cl, err := w.client()
	if err != nil {
		h.Fail("C23", "no-api", "the API does not listen: %v", err)
		return
	}
	ctx, cancel := context.WithTimeout(w.ctx, 5*time.Minute)
	defer cancel()
	strm, err := cl.ExecController(ctx, &controller_exec.ExecControllerRequest{ConfigSet: &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{
		"extra": {Id: pgConfID(0), Rev: 1, Config: []byte(`{"exampleField":"extra"}`)},
	}}})
	for err == nil {
		var resp *controller_exec.ExecControllerResponse
		resp, err = strm.Recv()
		if err == nil && resp.GetStatus() == controller_exec.ControllerStatus_ControllerStatus_RUNNING {
			h.Count("exec")
			h.Lock()
			w.life.extra = pgConfID(0) + " extra"
			h.Unlock()
			w.settle("with a client")
			cancel()
			for err == nil {
				_, err = strm.Recv()
			}
			h.Lock()
			w.life.extra = ""
			h.Unlock()
			w.settle("after the client")
			return
		}
	}
	h.Fail("C23", "no-api", "a controller executed by the API does not run: %v", err)
}

func (w *dmworld) do(op sim.Op, at func(string)) {
	at(op.String())
	h := w.h
	h.Count(op.K)
	h.Lock()
	life := w.life
	h.Unlock()
	n := op.Arg(0)
	switch op.K {
	case "plug":
		w.plug(n, op.Arg(1) == 1)
	case "conf":
		if life == nil {
			w.edit(n, op.Arg(1), op.Arg(2))
		}
	case "fault":
		h.Lock()
		w.fault, w.faultIn = n, op.Arg(1)
		if n == 0 || n > 1 {
			w.faultIn = 0
		}
		h.Unlock()
	case "killat":
		h.Lock()
		w.killIn, w.power = n, op.Arg(1)
		h.Unlock()
	case "squat":
		h.Lock()
		old := w.squat
		h.Unlock()
		if old == nil && n == 1 {
			l, err := net.Listen("tcp", dmAddr)
			if err != nil {
				return
			}
			h.Fault("address-in-use")
			h.Lock()
			w.squat = l
			if life != nil {
				life.busy = life.api
			}
			h.Unlock()
		}
		if old != nil && n == 0 {
			h.Lock()
			w.squat = nil
			h.Unlock()
			_ = old.Close()
		}
	case "start":
		if life == nil {
			w.start(n == 1, op.Arg(1) == 1, op.Arg(2) == 1)
		}
	case "kill":
		w.kill(n == 1)
	case "settle":
		w.settle("while it runs")
	case "sleep":
		sim.Sleep(time.Duration(n) * time.Millisecond)
	}
}

func (Daemon) Exec(h *sim.H, s *sim.Script) {
	defer enterScratch()()
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	stdout, stderr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	defer func() {
		os.Stdout, os.Stderr = stdout, stderr
		_ = null.Close()
	}()
	ctx, cancel := context.WithCancel(context.Background())
	w := &dmworld{h: h, ctx: ctx, p: s.P, fault: -1, variant: dmMissing}
	plugin.Load = w.load
	fsnotify.Reset()
	net.Reset()
	shimos.Reset()
	shimos.Clear()
	if err := os.Mkdir(dmDir, 0o755); err != nil {
		panic(err)
	}
	at := func(string) {}
	for _, op := range s.Tasks[0] {
		w.do(op, at)
	}
	// Without faults.
	run := func(k string, a ...int) { w.do(sim.Op{K: k, A: a}, at) }
	run("kill")
	run("squat", 0)
	for i := 0; i < dmPlugs; i++ {
		run("plug", i, 1)
	}
	h.Lock()
	bad := w.variant != dmNormal
	for k := 0; k < dmKeys; k++ {
		key := fmt.Sprintf("kind%d", k)
		if w.p[key] == dmUnknown {
			w.p[key] = dmBoiler
			bad = true
		}
	}
	h.Unlock()
	if bad {
		run("conf", dmNormal, 15, 1)
	}
	run("start", 1, 1, 1)
	w.settle("after the faults")
	if !h.Failed() {
		w.exec()
		run("kill", 1)
		run("start", 0, 1, 1)
		w.settle("after a restart")
	}
	run("kill")
	cancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C23"
}
