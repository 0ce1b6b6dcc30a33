package scen

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	boilerplate "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	cbus_plugin "github.com/aperturerobotics/controllerbus/plugin"
	plugin_loader_filesystem "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/blang/semver/v4"

	"verifsim/shim/fsnotify"
	"verifsim/shim/plugin"
	"verifsim/sim"
)

// Plugins loads and unloads plugins while their directory changes.
type Plugins struct{}

func (Plugins) Name() string { return "plugins" }

const (
	pgDir   = "p"
	pgFiles = 3
	pgConfs = 3
)

// Kinds of files.
const (
	pgOk = iota
	pgOkPtr
	pgPartial
	pgNoSym
	pgBadType
	pgFunc
	pgNil
	pgNewErr
	pgKinds
)

func (Plugins) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{"salt": r.N(1 << 20)}}
	s.P["watch"] = r.Pick(1, 1, 1, 1, 1, 1, 0)
	s.P["limit"] = r.Pick(0, 0, 0, 0, 2, 5)
	s.P["slowev"] = r.Pick(0, 0, 1)
	s.P["adderr"] = r.Pick(0, 0, 0, 0, 0, 1, 2)
	s.P["ctlret"] = r.Pick(0, 0, 1)
	s.P["shared"] = r.Pick(0, 0, 1)
	s.P["slowctor"] = r.Pick(0, 0, 0, 1)
	kind := func() int { return r.Pick(pgOk, pgOk, pgOk, pgOk, pgOk, pgOk, pgOkPtr, pgOkPtr, r.N(pgKinds)) }
	write := func() sim.Op {
		return sim.Op{K: "write", A: []int{r.N(pgFiles), kind(), r.Pick(1, 3, 7, 7, r.N(8)), r.N(3)}}
	}
	var init []sim.Op
	if r.P(96) {
		init = append(init, sim.Op{K: "mkdir"})
		for n := r.N(4); n > 0; n-- {
			init = append(init, write())
		}
	}
	s.Tasks = append(s.Tasks, init)
	execs := 25
	if prop == "C21" {
		execs = 45
	}
	for t, nt := 0, 2*(1+r.N(3)); t < nt; t++ {
		var ops []sim.Op
		if t < 2 && r.P(90) {
			ops = append(ops, sim.Op{K: "start"})
		}
		for i, n := 0, 2+r.N(8); i < n; i++ {
			if r.P(execs) {
				switch x := r.N(10); {
				case x < 6:
					ops = append(ops, sim.Op{K: "exec", A: []int{r.N(4), r.N(pgConfs)}})
				case x < 8:
					ops = append(ops, sim.Op{K: "relx", A: []int{r.N(4)}})
				default:
					ops = append(ops, sim.Op{K: "lookup", A: []int{r.N(pgConfs)}})
				}
				continue
			}
			switch x := r.N(100); {
			case x < 28:
				ops = append(ops, write())
			case x < 38:
				ops = append(ops, sim.Op{K: "rm", A: []int{r.N(pgFiles)}})
			case x < 44:
				ops = append(ops, sim.Op{K: "mv", A: []int{r.N(pgFiles), r.N(pgFiles)}})
			case x < 48:
				f := r.N(pgFiles)
				ops = append(ops, sim.Op{K: "hide", A: []int{f}})
				if r.P(50) {
					ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 2500, 8000)}}, sim.Op{K: "unhide", A: []int{f}})
				}
			case x < 52:
				ops = append(ops, sim.Op{K: "unhide", A: []int{r.N(pgFiles)}})
			case x < 56:
				ops = append(ops, sim.Op{K: "other", A: []int{r.N(3)}})
			case x < 60:
				ops = append(ops, sim.Op{K: "rmdir", A: []int{r.N(2)}})
				if r.P(85) {
					if r.P(30) {
						ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 500, 1100)}})
					}
					ops = append(ops, sim.Op{K: "mkdir"})
					if r.P(70) {
						ops = append(ops, write())
					}
				}
			case x < 64:
				ops = append(ops, sim.Op{K: "mkdir"})
			case x < 70:
				ops = append(ops, sim.Op{K: "start"})
			case x < 75:
				ops = append(ops, sim.Op{K: "stop"})
			default:
				ops = append(ops, sim.Op{K: "sleep", A: []int{r.Pick(1, 20, 990, 1000, 1001, 1010, 3000)}})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

// pgconf is the configuration of a controller in plugins.
type pgconf struct {
	*boilerplate.Config
	n int
}

func pgConfID(n int) string { return fmt.Sprintf("plug/%d", n) }

func newPgConf(n int) *pgconf {
	return &pgconf{Config: &boilerplate.Config{ExampleField: fmt.Sprint(n)}, n: n}
}
func (c *pgconf) Validate() error     { return nil }
func (c *pgconf) GetConfigID() string { return pgConfID(max(c.n, 0)) }
func (c *pgconf) EqualsConfig(o config.Config) bool {
	oc, ok := o.(*pgconf)
	return ok && oc.n == c.n
}

// pginst is a plugin that was opened.
type pginst struct {
	*cbus_plugin.StaticPlugin
	w    *pgworld
	path string
	uid  int
	mask int
	kind int
	idx  int

	made   []*pgres
	unload int
}

// pgres is a resolver of a plugin: the plugin is loaded.
type pgres struct {
	cbus_plugin.PluginResolver
	in     *pginst
	idx    int
	ctx    context.Context
	unload int
	done   bool
}

type pgfac struct {
	in *pgres
	n  int
}

type pgctl struct {
	w      *pgworld
	in     *pgres
	n      int
	idx    int
	runs   int
	active int
	closes int
}

type pgfile struct{ uid, kind, mask int }

type pgref struct {
	n   int
	rel bool
	ref directive.Reference
}

type pgworld struct {
	h   *sim.H
	ctx context.Context
	p   map[string]int
	b   bus.Bus
	seq int
	dir bool
	// the directory changed after the first start
	started, dirty bool
	files          map[string]pgfile
	insts          []*pginst
	ress           []*pgres
	ctls           []*pgctl
	slots          map[int]*pgref
	ldref          directive.Reference
	lding          bool
	nadd           int
}

func pgName(i int) string { return filepath.Join(pgDir, string(rune('a'+i))+".cbus.so") }

// load reads a plugin file.
func (w *pgworld) load(path string) (map[string]plugin.Symbol, error) {
	dat, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var v [3]int
	for i, f := range strings.Fields(string(dat)) {
		v[i], _ = strconv.Atoi(f)
	}
	h := w.h
	if v[1] == pgPartial {
		h.Fault("partial-file")
		return nil, errors.New("plugin.Open: invalid file")
	}
	h.Lock()
	defer h.Unlock()
	in := &pginst{w: w, path: path, uid: v[0], kind: v[1], mask: v[2], idx: len(w.insts)}
	if w.p["shared"] == 0 {
		// each config is in one plugin
		in.mask &= 1 << (filepath.Base(path)[0] - 'a')
	}
	w.insts = append(w.insts, in)
	var cur *pgres
	in.StaticPlugin = cbus_plugin.NewStaticPlugin(fmt.Sprintf("plug-%d", in.uid), "v1", func(b bus.Bus) []controller.Factory {
		h.Lock()
		defer h.Unlock()
		var fs []controller.Factory
		cur = &pgres{in: in, idx: len(w.ress)}
		in.made = append(in.made, cur)
		for n := 0; n < pgConfs; n++ {
			if in.mask>>n&1 == 1 {
				fs = append(fs, &pgfac{in: cur, n: n})
			}
		}
		return fs
	})
	var sym plugin.Symbol
	switch in.kind {
	case pgOk, pgNewErr:
		var p cbus_plugin.Plugin = in
		sym = &p
	case pgOkPtr:
		sym = &in
	case pgNoSym:
		h.FaultLocked("plugin-without-symbol")
		return map[string]plugin.Symbol{"Other": new(int)}, nil
	case pgBadType:
		h.FaultLocked("plugin-wrong-type")
		sym = new(int)
	case pgFunc:
		h.FaultLocked("plugin-wrong-type")
		sym = func() {}
	case pgNil:
		h.FaultLocked("plugin-nil")
		sym = new(cbus_plugin.Plugin)
	}
	return map[string]plugin.Symbol{cbus_plugin.PluginGlobalVar: sym}, nil
}

// NewPluginResolver loads the plugin.
func (in *pginst) NewPluginResolver(ctx context.Context, b bus.Bus) (cbus_plugin.PluginResolver, error) {
	w, h := in.w, in.w.h
	sim.Yield()
	if in.kind == pgNewErr {
		h.Fault("plugin-fails")
		return nil, errors.New("plugin failed")
	}
	inner, err := in.StaticPlugin.NewPluginResolver(ctx, b)
	if err != nil {
		return nil, err
	}
	h.Lock()
	defer h.Unlock()
	r := in.made[len(in.made)-1]
	r.ctx, r.PluginResolver = ctx, inner
	w.ress = append(w.ress, r)
	h.LogLocked("loaded %s: content %d, %d", in.path, in.uid, r.idx)
	return r, nil
}

// onBus returns the controllers of the resolver which are on the bus.
func (w *pgworld) onBus(r *pgres) map[*pgctl]bool {
	out := map[*pgctl]bool{}
	for _, c := range w.b.GetControllers() {
		if pc, ok := c.(*pgctl); ok && pc.in == r {
			out[pc] = true
		}
	}
	return out
}

// PrePluginUnload is called just before the plugin is unloaded.
func (r *pgres) PrePluginUnload() {
	w, h := r.in.w, r.in.w.h
	h.Lock()
	r.unload++
	h.LogLocked("unload resolver %d of %s", r.idx, r.in.path)
	if r.ctx.Err() == nil {
		h.FailLocked("C21", "context-alive", "the context of plugin %s is not canceled when its resolver unloads", r.in.path)
	}
	if r.unload > 1 {
		h.FailLocked("C21", "unloaded-twice", "the resolver of %s was unloaded %d times", r.in.path, r.unload)
	}
	if r.in.unload > 0 {
		h.FailLocked("C21", "order", "the resolver of plugin %s unloads after the plugin", r.in.path)
	}
	h.Unlock()
	before := w.onBus(r)
	r.PluginResolver.PrePluginUnload()
	for c := range w.onBus(r) {
		if before[c] {
			h.Fail("C21", "controller-left", "controller %d of config %d of plugin %s is on the bus after its resolver unloaded", c.idx, c.n, r.in.path)
		}
	}
	h.Lock()
	r.done = true
	h.Unlock()
}

// PrePluginUnload is called just before the plugin is unloaded.
func (in *pginst) PrePluginUnload() {
	h := in.w.h
	h.Lock()
	defer h.Unlock()
	in.unload++
	if in.unload > 1 {
		h.FailLocked("C21", "unloaded-twice", "plugin %s was unloaded %d times", in.path, in.unload)
	}
	for _, r := range in.made {
		if r.ctx != nil && !r.done {
			h.FailLocked("C21", "order", "plugin %s unloads before its resolver did", in.path)
		}
	}
}

func (f *pgfac) GetConfigID() string            { return pgConfID(f.n) }
func (f *pgfac) GetControllerID() string        { return pgConfID(f.n) }
func (f *pgfac) ConstructConfig() config.Config { return newPgConf(f.n) }
func (f *pgfac) GetVersion() semver.Version     { return semver.Version{Major: 1} }
func (f *pgfac) Construct(ctx context.Context, conf config.Config, opts controller.ConstructOpts) (controller.Controller, error) {
	w, h := f.in.in.w, f.in.in.w.h
	sim.Yield()
	if c, ok := conf.(*pgconf); !ok || c.n != f.n {
		h.Fail("C21", "wrong-config", "a factory of config %d got %v", f.n, conf)
		return nil, errors.New("wrong config")
	}
	if w.p["slowctor"] == 1 {
		h.Fault("slow-construct")
		sim.Sleep(800 * time.Millisecond)
	}
	h.Lock()
	defer h.Unlock()
	c := &pgctl{w: w, in: f.in, n: f.n, idx: len(w.ctls)}
	w.ctls = append(w.ctls, c)
	h.LogLocked("constructed controller %d of config %d of %d", c.idx, c.n, f.in.idx)
	return c, nil
}

func (c *pgctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(fmt.Sprintf("pgctl/%d", c.idx), semver.Version{}, "")
}
func (c *pgctl) HandleDirective(context.Context, directive.Instance) ([]directive.Resolver, error) {
	return nil, nil
}
func (c *pgctl) Execute(ctx context.Context) error {
	h := c.w.h
	h.Lock()
	c.runs++
	c.active++
	h.Unlock()
	if c.w.p["ctlret"] == 0 {
		<-ctx.Done()
	}
	h.Lock()
	c.active--
	h.Unlock()
	return nil
}
func (c *pgctl) Close() error {
	c.w.h.Lock()
	c.closes++
	c.w.h.Unlock()
	return nil
}

// put writes a file and reports the events.
func (w *pgworld) put(name string, f pgfile) {
	h := w.h
	h.Lock()
	if !w.dir {
		h.Unlock()
		return
	}
	_, have := w.files[name]
	w.files[name] = f
	w.dirty = true
	if err := os.WriteFile(name, []byte(fmt.Sprintf("%d %d %d", f.uid, f.kind, f.mask)), 0o644); err != nil {
		panic(err)
	}
	w.touch(name)
	h.Unlock()
	if !have {
		fsnotify.Emit(name, fsnotify.Create)
	}
	fsnotify.Emit(name, fsnotify.Write)
	fsnotify.Emit(name, fsnotify.Chmod)
}

// touch sets another modification time.
func (w *pgworld) touch(name string) {
	w.seq++
	t := time.Unix(1700000000+int64(w.seq), 0)
	if err := os.Chtimes(name, t, t); err != nil {
		panic(err)
	}
}

func (w *pgworld) mv(from, to string) {
	h := w.h
	h.Lock()
	f, ok := w.files[from]
	if !ok || from == to {
		h.Unlock()
		return
	}
	if err := os.Rename(from, to); err != nil {
		panic(err)
	}
	w.dirty = true
	delete(w.files, from)
	w.files[to] = f
	h.LogLocked("%s -> %s", from, to)
	h.Unlock()
	fsnotify.Emit(from, fsnotify.Rename)
	fsnotify.Emit(to, fsnotify.Create)
}

func (w *pgworld) do(op sim.Op, at func(string)) {
	at(fmt.Sprintf("%s %v", op.K, op.A))
	h := w.h
	busy := w.p["watch"] == 0
	switch op.K {
	case "write", "rm", "mv", "hide", "unhide", "rmdir", "mkdir":
		// without a watch, the content is that of the start
		if busy {
			h.Lock()
			on := w.ldref != nil || w.lding
			h.Unlock()
			if on {
				return
			}
		}
	}
	switch op.K {
	case "mkdir":
		h.Lock()
		if !w.dir {
			if err := os.Mkdir(pgDir, 0o755); err != nil {
				panic(err)
			}
			w.dir, w.dirty = true, true
			h.LogLocked("mkdir")
		}
		h.Unlock()
	case "rmdir":
		h.Lock()
		if !w.dir {
			h.Unlock()
			return
		}
		h.FaultLocked("directory-replaced")
		var names []string
		for f := range w.files {
			names = append(names, f)
		}
		sort.Strings(names)
		w.dir, w.dirty = false, true
		w.files = map[string]pgfile{}
		if op.Arg(0) == 0 {
			if err := os.RemoveAll(pgDir); err != nil {
				panic(err)
			}
		} else {
			names = nil
			if err := os.Rename(pgDir, fmt.Sprintf("old%d", w.seq)); err != nil {
				panic(err)
			}
			w.seq++
		}
		h.LogLocked("rmdir")
		h.Unlock()
		for _, f := range names {
			fsnotify.Emit(f, fsnotify.Remove)
		}
		fsnotify.Removed(pgDir, []fsnotify.Op{fsnotify.Remove, fsnotify.Rename}[op.Arg(0)])
	case "write":
		name := pgName(op.Arg(0))
		h.Lock()
		w.seq++
		f := pgfile{uid: w.seq, kind: op.Arg(1), mask: op.Arg(2)}
		h.LogLocked("write %s: content %d kind %d", name, f.uid, f.kind)
		h.Unlock()
		for i := 0; i < op.Arg(3); i++ {
			w.put(name, pgfile{kind: pgPartial})
			if i == 1 {
				sim.Sleep(time.Duration(sim.NewRand(uint64(w.p["salt"]+f.uid)).Pick(5, 700, 1001, 2500)) * time.Millisecond)
			}
		}
		w.put(name, f)
	case "rm":
		name := pgName(op.Arg(0))
		h.Lock()
		_, ok := w.files[name]
		if ok {
			w.dirty = true
			delete(w.files, name)
			if err := os.Remove(name); err != nil {
				panic(err)
			}
			h.LogLocked("removed %s", name)
		}
		h.Unlock()
		if ok {
			fsnotify.Emit(name, fsnotify.Remove)
		}
	case "mv":
		w.mv(pgName(op.Arg(0)), pgName(op.Arg(1)))
	case "hide":
		w.mv(pgName(op.Arg(0)), pgName(op.Arg(0))+".off")
	case "unhide":
		w.mv(pgName(op.Arg(0))+".off", pgName(op.Arg(0)))
	case "other":
		// files which are no plugins
		name := filepath.Join(pgDir, []string{"notes.txt", "x.so", "d.cbus.so"}[op.Arg(0)])
		h.Lock()
		if !w.dir {
			h.Unlock()
			return
		}
		_, err := os.Lstat(name)
		ev := fsnotify.Write
		if err != nil {
			ev = fsnotify.Create
		}
		if op.Arg(0) == 2 {
			_ = os.Mkdir(name, 0o755)
		} else {
			_ = os.WriteFile(name, []byte("0 0 7"), 0o644)
		}
		h.Unlock()
		fsnotify.Emit(name, ev)
	case "start":
		h.Lock()
		if w.ldref != nil || w.lding {
			h.Unlock()
			return
		}
		w.lding = true
		if !w.started {
			w.started, w.dirty = true, false
		}
		h.Unlock()
		_, ref, err := w.b.AddDirective(resolver.NewLoadControllerWithConfig(&plugin_loader_filesystem.Config{Dir: "./" + pgDir, Watch: !busy}), nil)
		if err != nil {
			panic(err)
		}
		h.Lock()
		w.ldref, w.lding = ref, false
		h.Unlock()
	case "stop":
		h.Lock()
		ref := w.ldref
		w.ldref = nil
		if ref != nil {
			h.FaultLocked("loader-stopped")
		}
		h.Unlock()
		if ref != nil {
			ref.Release()
		}
		if busy {
			// no two loads at once: what is loaded depends on the time
			sim.Sleep(30 * time.Second)
		}
	case "exec":
		n := op.Arg(1)
		_, ref, err := w.b.AddDirective(resolver.NewLoadControllerWithConfig(newPgConf(n)), nil)
		if err != nil {
			panic(err)
		}
		h.Lock()
		old := w.slots[op.Arg(0)]
		w.slots[op.Arg(0)] = &pgref{n: n, ref: ref}
		h.Unlock()
		if old != nil {
			old.ref.Release()
		}
	case "relx":
		h.Lock()
		old := w.slots[op.Arg(0)]
		delete(w.slots, op.Arg(0))
		h.Unlock()
		if old != nil {
			old.ref.Release()
		}
	case "lookup":
		w.lookup(op.Arg(0))
	case "sleep":
		sim.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
	}
}

// lookup returns what resolves a config.
func (w *pgworld) lookup(n int) []*pgres {
	ctx, cancel := context.WithTimeout(w.ctx, 2*time.Second)
	defer cancel()
	vals, _, ref, err := bus.ExecCollectValues[resolver.LoadFactoryByConfigValue](ctx, w.b, resolver.NewLoadFactoryByConfig(newPgConf(n)), false, nil)
	if err != nil {
		return nil
	}
	var out []*pgres
	for _, v := range vals {
		sf, ok := v.(*cbus_plugin.StaticPluginFactory)
		if !ok {
			continue
		}
		if f, ok := sf.Factory.(*pgfac); ok {
			if f.n != n {
				w.h.Fail("C20", "wrong-factory", "a lookup of config %d returned a factory of %d", n, f.n)
			}
			out = append(out, f.in)
		}
	}
	if ref != nil {
		ref.Release()
	}
	return out
}

// check compares what is loaded with the directory.
func (w *pgworld) check(at string) {
	h := w.h
	var avail [pgConfs][]*pgres
	for n := range avail {
		avail[n] = w.lookup(n)
	}
	h.Quiesce(30 * time.Second)
	var on [pgConfs][]*pgctl
	for _, c := range w.b.GetControllers() {
		if pc, ok := c.(*pgctl); ok {
			on[pc.n] = append(on[pc.n], pc)
		}
	}
	h.Lock()
	defer h.Unlock()
	want, live := map[string]int{}, map[string]int{}
	if w.ldref != nil {
		for name, f := range w.files {
			if f.kind <= pgOkPtr && strings.HasSuffix(name, ".cbus.so") {
				want[name] = f.uid
			}
		}
	}
	var liveRes [pgConfs]int
	for _, r := range w.ress {
		if r.unload > 0 {
			if r.in.unload == 0 {
				h.FailLocked("C21", "not-unloaded", "%s: plugin %s was not unloaded although its resolver was", at, r.in.path)
			}
			continue
		}
		if r.ctx.Err() != nil {
			h.FailLocked("C21", "not-unloaded", "%s: the context of plugin %s is canceled but it was not told to unload", at, r.in.path)
		}
		if live[r.in.path] != 0 {
			h.FailLocked("C20", "loaded-twice", "%s: plugin %s is loaded twice", at, r.in.path)
		}
		live[r.in.path] = r.in.uid
		for n := range liveRes {
			liveRes[n] += r.in.mask >> n & 1
		}
	}
	h.StateLocked(uint64(len(want))<<8 | uint64(len(w.ress)))
	if w.p["watch"] == 0 && w.dirty && w.ldref != nil {
		want = live
	}
	for p, uid := range want {
		if live[p] == 0 {
			h.FailLocked("C20", "not-loaded", "%s: plugin %s is in the directory but not loaded", at, p)
		} else if live[p] != uid {
			h.FailLocked("C20", "outdated", "%s: plugin %s has content %d but %d is loaded", at, p, uid, live[p])
		}
	}
	for p, uid := range live {
		if want[p] == 0 {
			h.FailLocked("C20", "not-removed", "%s: plugin %s (content %d) is loaded but not wanted", at, p, uid)
		}
	}
	for n := range avail {
		seen := map[*pgres]bool{}
		for _, r := range avail[n] {
			if r.unload > 0 {
				h.FailLocked("C21", "factory-left", "%s: config %d resolves to a factory of unloaded plugin %s", at, n, r.in.path)
			} else if seen[r] {
				h.FailLocked("C20", "factory-twice", "%s: config %d resolves twice to plugin %s", at, n, r.in.path)
			}
			seen[r] = true
		}
		if len(avail[n]) < min(liveRes[n], 1) {
			h.FailLocked("C20", "no-factory", "%s: config %d is in %d loaded plugins, resolves to %d factories", at, n, liveRes[n], len(avail[n]))
		}
		wanted := 0
		for _, s := range w.slots {
			if s.n == n && liveRes[n] > 0 {
				wanted = 1
			}
		}
		for _, c := range on[n] {
			if c.in.unload > 0 {
				h.FailLocked("C21", "controller-left", "%s: controller %d of config %d is on the bus although plugin %s was unloaded", at, c.idx, n, c.in.in.path)
			}
		}
		if len(on[n]) != wanted {
			h.FailLocked("C21", "controllers", "%s: %d controllers of config %d are on the bus, expected %d (in %d loaded plugins)", at, len(on[n]), n, wanted, liveRes[n])
		}
	}
	for _, c := range w.ctls {
		if c.in.unload > 0 && (c.active > 0 || c.closes != 1) {
			h.FailLocked("C21", "controller-left", "%s: controller %d of config %d of unloaded plugin %s: running=%d closed %d times", at, c.idx, c.n, c.in.in.path, c.active, c.closes)
		}
	}
}

// unchanged checks that plugins which did not change stay loaded when the
// directory is scanned again.
func (w *pgworld) unchanged() {
	h := w.h
	h.Lock()
	loaded := len(w.ress)
	var live []*pgres
	for _, r := range w.ress {
		if r.unload == 0 {
			live = append(live, r)
		}
	}
	h.Unlock()
	w.do(sim.Op{K: "other", A: []int{0}}, func(string) {})
	h.Quiesce(30 * time.Second)
	h.Lock()
	defer h.Unlock()
	for _, r := range live {
		if r.unload > 0 {
			h.FailLocked("C20", "reloaded", "plugin %s (content %d) was unloaded although it did not change", r.in.path, r.in.uid)
		}
	}
	if n := len(w.ress) - loaded; n > 0 {
		h.FailLocked("C20", "reloaded", "%d plugins were loaded although no plugin changed", n)
	}
}

func (Plugins) Exec(h *sim.H, s *sim.Script) {
	h.NoPanics("C21")
	defer enterScratch()()
	ctx, cancel := context.WithCancel(context.Background())
	b := inmem.NewBus(dcontroller.NewController(ctx, h.Le))
	w := &pgworld{h: h, ctx: ctx, p: s.P, b: b, files: map[string]pgfile{}, slots: map[int]*pgref{}}
	plugin.Load = w.load
	fsnotify.Reset()
	if s.P["limit"] > 0 {
		fsnotify.Limit = s.P["limit"]
		fsnotify.Overflow = func() { h.Fault("event-queue-overflow") }
	}
	if s.P["slowev"] == 1 {
		ev := 0
		fsnotify.Delay = func() {
			h.Lock()
			ev++
			salt := s.P["salt"] + ev
			h.Unlock()
			sim.Sleep(time.Duration(sim.NewRand(uint64(salt)).Pick(0, 1, 100, 900)) * time.Millisecond)
		}
	}
	left := s.P["adderr"]
	fsnotify.AddErr = func(string) error {
		h.Lock()
		defer h.Unlock()
		if left > 0 {
			left--
			h.FaultLocked("watch-fails")
			return errors.New("no space left on device")
		}
		return nil
	}
	ld, err := loader.NewController(h.Le, b)
	if err != nil {
		panic(err)
	}
	for _, c := range []controller.Controller{ld, resolver.NewController(h.Le, b, static.NewResolver(plugin_loader_filesystem.NewFactory(b)))} {
		if _, err := b.AddController(ctx, c, nil); err != nil {
			panic(err)
		}
	}
	for _, op := range s.Tasks[0] {
		w.do(op, func(string) {})
	}
	for half := 0; half < 2; half++ {
		for i, ops := range s.Tasks[1:] {
			if i%2 != half {
				continue
			}
			h.Go(fmt.Sprintf("client%d", i), func(at func(string)) {
				for _, op := range ops {
					w.do(op, at)
				}
			})
		}
		if !h.MustJoin("C20", 6*time.Minute) {
			return
		}
		h.Quiesce(5 * time.Minute)
		w.check([]string{"after the first half", "after the run"}[half])
		w.unchanged()
	}
	h.Go("release", func(at func(string)) {
		if s.P["salt"]%2 == 0 {
			for n := 0; n < 4; n++ {
				w.do(sim.Op{K: "relx", A: []int{n}}, at)
			}
		}
		w.do(sim.Op{K: "stop"}, at)
	})
	if !h.MustJoin("C20", 4*time.Minute) {
		return
	}
	h.Quiesce(time.Minute)
	w.check("after the loader was stopped")
	h.Go("release", func(at func(string)) {
		for n := 0; n < 4; n++ {
			w.do(sim.Op{K: "relx", A: []int{n}}, at)
		}
	})
	if !h.MustJoin("C20", 4*time.Minute) {
		return
	}
	cancel()
	h.Quiesce(time.Minute)
	if n := fsnotify.Open(); n != 0 {
		h.Fail("C20", "watcher-left", "%d watchers are open", n)
	}
	h.LeakProp = "C20"
}

// homeDir is where the process was started.
var homeDir, _ = os.Getwd()

// enterScratch changes to an empty directory of this process.
func enterScratch() func() {
	base := os.TempDir()
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm" // in memory
	}
	dir := filepath.Join(base, fmt.Sprintf("vsimfs%07d", os.Getpid()))
	err := os.RemoveAll(dir)
	if err == nil {
		err = os.Mkdir(dir, 0o755)
	}
	if err == nil {
		err = os.Chdir(dir)
	}
	if err != nil {
		panic(err)
	}
	return func() {
		_ = os.Chdir(homeDir)
		_ = os.RemoveAll(dir)
	}
}
