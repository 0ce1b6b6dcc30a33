package scen

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/mod/modfile"
	"golang.org/x/tools/go/packages"

	"github.com/aperturerobotics/cli"
	plugin_cli "github.com/aperturerobotics/controllerbus/plugin/cli"
	plugin_compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"

	shimexec "verifsim/shim/exec"
	"verifsim/shim/fsnotify"
	shimos "verifsim/shim/os"
	shimpkgs "verifsim/shim/packages"
	"verifsim/sim"
)

// Compiler runs the watcher which compiles packages to a plugin.
type Compiler struct{}

func (Compiler) Name() string { return "compiler" }

const (
	cmPkgs  = 3
	cmFiles = 3
	cmID    = "demo-id"
	cmOut   = "out"
)

// Contents of a file of a package.
const (
	cmNone = iota
	cmGood
	cmBroken
	cmTorn
)

// cmFaults are the operations which may fail, and how.
var cmFaults = []struct{ fault, op string }{
	{"read-error", shimos.OpRead},
	{"write-error", shimos.OpWrite},
	{"open-error", shimos.OpOpen},
	{"sync-error", shimos.OpSync},
	{"rename-error", shimos.OpRename},
	{"stat-error", shimos.OpStat},
	{"remove-error", shimos.OpRemove},
	{"command-error", "exec"},
	{"list-error", "load"},
	{"watch-error", "watch"},
	{"callback-error", "callback"},
}

var cmDecoys = []string{"demo.dir.cbus.so/", "other-demo.abc.cbus.so", "demo.abc.cbus.so.bak", "demo.a-b.cbus.so", "demo.extra.v2.cbus.so", "demo.a_b.cbus.so", "xdemo.abc.cbus.so", "demo.abc.cbus.sock", "demoxabc.cbus.so", "notes.txt"}

func (Compiler) Gen(r *sim.Rand, prop string) *sim.Script {
	s := &sim.Script{P: map[string]int{
		"salt": r.N(1 << 20),
		// lib: the imported package is one of the plugin
		"lib": b2i(r.P(75)), "libfac": r.N(2),
		// two: how the module of the third package lies
		"two": r.N(3),
		"rel": r.N(2), "plain": b2i(r.P(20)), "cb": b2i(r.P(85)),
		"limit": r.Pick(1<<14, 1<<14, 1<<14, 1<<14, 3), "slow": r.N(3),
	}}
	var ops []sim.Op
	add := func(k string, a ...int) { ops = append(ops, sim.Op{K: k, A: a}) }
	file := func() (int, int) { return r.N(cmPkgs), r.Pick(0, 0, 1, 2) }
	for p := 0; p < cmPkgs; p++ {
		add("edit", p, 0, 0)
		if r.P(40) {
			add("edit", p, 1+r.N(2), 0)
		}
	}
	change := func() {
		p, f := file()
		switch x := r.N(20); {
		case x < 11:
			add("edit", p, f, r.Pick(0, 0, 0, 0, 1, 2))
		case x < 13:
			add("del", p, 1+r.N(2))
		case x < 16:
			add("revert", p, f)
		case x < 17:
			add("touch", p, f)
		case x < 18:
			add("swap", p)
		case x < 19:
			add("break", p, f)
		default:
			add("decoy", r.N(len(cmDecoys)))
		}
	}
	for n := 1 + r.N(3); n > 0; n-- {
		if r.P(50) {
			add("fault", r.Pick(0, 1, 1, 2, r.N(len(cmFaults)), 3+r.N(len(cmFaults)-3)), r.N(r.Pick(3, 12, 60)))
		}
		if r.P(35) {
			add("killat", 1+r.N(r.Pick(20, 100, 400)), r.N(2))
		}
		if r.P(25) {
			add("old", r.N(3))
		}
		if r.P(15) {
			add("once", r.N(4))
		}
		add("start")
		for m := r.N(7); m > 0; m-- {
			switch x := r.N(10); {
			case x < 4:
				change()
			case x < 8:
				add("sleep", r.Pick(1, 10, 100, 400, 600, 1000, 3000, 10000))
			default:
				add("settle")
			}
		}
		add("kill", r.N(3))
		if r.P(20) {
			add("del", r.N(cmPkgs), 1+r.N(2))
		}
		for r.P(30) {
			change()
		}
	}
	s.Tasks = append(s.Tasks, ops)
	return s
}

// cmpkg is a package.
type cmpkg struct {
	path, dir, name string
	mod             *packages.Module
	factory         bool
	imports         []string
	pattern         string
	in              bool // of the plugin
	rev             [cmFiles]int
	prev            [cmFiles]int
	state           [cmFiles]int
}

// cmout is what is written to a plugin.
type cmout struct {
	Prefix, ID, Version, UUID string
	Plugin                    bool
	Factories                 []string
	// Packages are the packages of the plugin with the files of each.
	Packages map[string]map[string]string
	End      string
}

// key identifies what a plugin was compiled from.
func (o *cmout) key() string {
	c := *o
	c.Prefix, c.Version, c.UUID = "", "", ""
	c.Factories = slices.Clone(c.Factories)
	sort.Strings(c.Factories)
	return sim.JSON(c)
}

type cmlife struct {
	cancel context.CancelFunc
	done   chan struct{}
	killed bool
	exited bool
	stop   bool
	err    error
	// mayExit is why it may return an error
	mayExit string
	cbs     int
	lastCb  string
	names   []string // outputs at its start
	litter  map[string]bool
	once    bool
	cbErr   bool
}

type cmworld struct {
	h    *sim.H
	ctx  context.Context
	p    map[string]int
	root string
	seq  int
	life *cmlife
	pkgs [cmPkgs]*cmpkg
	pats []string

	fault, faultIn int
	killIn, power  int
	nops           int
	decoys         map[string]bool
	olds           map[string]bool
	// undeleted: an old version could not be removed
	undeleted bool
	versions  map[string]string // key of the content to version
	prefixes  map[string]string // prefix to key
}

func (w *cmworld) target() string {
	if w.p["plain"] == 1 {
		return cmOut + "/demo.cbus.so"
	}
	return cmOut + "/demo.{buildHash}.cbus.so"
}

var cmOutRe = regexp.MustCompile(`^demo\.([a-zA-Z0-9]*)\.cbus\.so$`)

// isOut tells if a file has the name of an output.
func (w *cmworld) isOut(name string) bool {
	if w.p["plain"] == 1 {
		return name == "demo.cbus.so"
	}
	return cmOutRe.MatchString(name)
}

func (w *cmworld) fileName(p, f int) string {
	return filepath.Join(w.pkgs[p].dir, fmt.Sprintf("f%d.go", f))
}

// source returns the content of a file.
func (w *cmworld) source(p, f, rev int) []byte {
	pk := w.pkgs[p]
	var b strings.Builder
	r := sim.NewRand(uint64(w.p["salt"] + p*1000 + f*100 + rev))
	fmt.Fprintf(&b, "// Package %s is an example.\npackage %s\n\n", pk.name, pk.name)
	var imps []string
	if f == 0 && pk.factory {
		imps = append(imps, "github.com/aperturerobotics/controllerbus/bus", "github.com/aperturerobotics/controllerbus/controller")
	}
	if f < 2 {
		imps = append(imps, pk.imports...)
	}
	if r.P(50) {
		imps = append(imps, "context")
	}
	if r.P(50) {
		imps = append(imps, "github.com/x/y")
	}
	sort.Strings(imps)
	if len(imps) == 1 && r.P(50) {
		fmt.Fprintf(&b, "import %q\n\n", imps[0])
	} else if len(imps) > 0 {
		b.WriteString("import (\n")
		for _, i := range imps {
			fmt.Fprintf(&b, "\t%q\n", i)
		}
		b.WriteString(")\n\n")
	}
	for i := r.N(4); i > 0; i-- {
		fmt.Fprintf(&b, "// v%d_%d is a variable.\nvar v%d_%d = []string{\"x\", `y\n`}\n\n", f, i, f, i)
	}
	fmt.Fprintf(&b, "// Rev%d is the revision.\nconst Rev%d = %d\n", f, f, rev)
	if f == 0 && pk.factory {
		b.WriteString("\n// NewFactory constructs the factory.\nfunc NewFactory(b bus.Bus) controller.Factory {\n\treturn nil\n}\n")
	}
	return []byte(b.String())
}

// sameSpec is what of a file gets into a plugin.
func cmSpec(f *ast.File, imp func(string) string) string {
	var out []string
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range gd.Specs {
			switch s := s.(type) {
			case *ast.ImportSpec:
				p, _ := strconv.Unquote(s.Path.Value)
				out = append(out, "import "+imp(p))
			case *ast.ValueSpec:
				if gd.Tok == token.CONST && len(s.Values) == 1 {
					if l, ok := s.Values[0].(*ast.BasicLit); ok {
						out = append(out, s.Names[0].Name+"="+l.Value)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func relTo(from, to string) string {
	rel, err := filepath.Rel(from, to)
	if err != nil {
		panic(err)
	}
	return rel
}

func cmHasFactory(fs []*ast.File) bool {
	for _, f := range fs {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "NewFactory" {
				return true
			}
		}
	}
	return false
}

// expect returns what the plugin of the current files is, h is locked.
func (w *cmworld) expect() (*cmout, error) {
	o := &cmout{ID: cmID, Plugin: true, Packages: map[string]map[string]string{}, End: "end"}
	var broken error
	byPath := map[string]*cmpkg{}
	var todo []*cmpkg
	parsed := map[*cmpkg][]*ast.File{}
	for _, pk := range w.pkgs {
		if pk.in {
			byPath[pk.path] = pk
		}
		for _, name := range goFilesIn(pk.dir) {
			f, err := parser.ParseFile(token.NewFileSet(), name, nil, parser.AllErrors)
			if err != nil && (pk.in || broken == nil) {
				broken = err
			}
			parsed[pk] = append(parsed[pk], f)
		}
		if len(parsed[pk]) == 0 {
			broken = fmt.Errorf("no files in %s", pk.path)
		}
		if pk.in && cmHasFactory(parsed[pk]) {
			o.Factories = append(o.Factories, pk.name)
			todo = append(todo, pk)
		}
	}
	if broken != nil {
		return nil, broken
	}
	for len(todo) > 0 {
		pk := todo[0]
		todo = todo[1:]
		if o.Packages[pk.path] != nil {
			continue
		}
		m := map[string]string{}
		o.Packages[pk.path] = m
		for i, name := range goFilesIn(pk.dir) {
			m[filepath.Base(name)] = cmSpec(parsed[pk][i], func(p string) string {
				if q := byPath[p]; q != nil {
					todo = append(todo, q)
				}
				return p
			})
		}
	}
	return o, nil
}

func goFilesIn(dir string) []string {
	var out []string
	entries, _ := os.ReadDir(dir)
	for _, e := range entries {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			out = append(out, filepath.Join(dir, e.Name()))
		}
	}
	return out
}

// load lists and parses packages like the go command.
func (w *cmworld) load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	h := w.h
	sim.Yield()
	if _, err := w.op("load", "", 0); err != nil {
		return nil, err
	}
	var out []*packages.Package
	names := map[*packages.Package][]string{}
	for _, pat := range patterns {
		var pk *cmpkg
		for _, q := range w.pkgs {
			if q.path == pat || filepath.Join(cfg.Dir, pat) == q.dir {
				pk = q
			}
		}
		if pk == nil {
			return nil, fmt.Errorf("no package %q", pat)
		}
		m := *pk.mod
		res := &packages.Package{ID: pk.path, PkgPath: pk.path, Module: &m, Fset: cfg.Fset}
		names[res] = goFilesIn(pk.dir)
		out = append(out, res)
	}
	w.pause()
	for _, res := range out {
		for _, name := range names[res] {
			sim.Yield()
			src, err := os.ReadFile(name)
			if err != nil {
				// it was removed in between
				h.Lock()
				w.broken()
				h.Unlock()
				res.Errors = append(res.Errors, packages.Error{Pos: name + ":1", Msg: err.Error(), Kind: packages.ParseError})
				continue
			}
			res.GoFiles = append(res.GoFiles, name)
			res.CompiledGoFiles = append(res.CompiledGoFiles, name)
			var f *ast.File
			if cfg.ParseFile != nil {
				f, err = cfg.ParseFile(cfg.Fset, name, src)
			} else {
				f, err = parser.ParseFile(cfg.Fset, name, src, parser.AllErrors|parser.ParseComments)
			}
			if err != nil {
				res.Errors = append(res.Errors, packages.Error{Pos: name + ":1", Msg: err.Error(), Kind: packages.ParseError})
			}
			if f != nil {
				res.Syntax = append(res.Syntax, f)
			}
		}
		if len(names[res]) == 0 {
			res.Errors = append(res.Errors, packages.Error{Msg: "no Go files in " + res.PkgPath, Kind: packages.ListError})
		}
		res.IllTyped = len(res.Errors) > 0
		if len(res.Syntax) > 0 {
			res.Name = res.Syntax[0].Name.Name
		}
		res.Types = types.NewPackage(res.PkgPath, res.Name)
		if cmHasFactory(res.Syntax) {
			res.Types.Scope().Insert(types.NewFunc(token.NoPos, res.Types, "NewFactory", types.NewSignatureType(nil, nil, nil, nil, nil, false)))
		}
	}
	h.Log("packages listed")
	return out, cfg.Context.Err()
}

// pause lets a command take some time.
func (w *cmworld) pause() {
	h := w.h
	h.Lock()
	w.seq++
	r := sim.NewRand(uint64(w.p["salt"] + w.seq))
	slow := w.p["slow"]
	h.Unlock()
	switch slow {
	case 1:
		sim.Sleep(time.Duration(r.N(300)) * time.Millisecond)
	case 2:
		sim.Sleep(time.Duration(r.N(5000)) * time.Millisecond)
	}
}

// run runs a command.
func (w *cmworld) run(ctx context.Context, c *shimexec.Cmd) error {
	h := w.h
	h.Log("run %s", strings.ReplaceAll(strings.Join(c.Args, " "), w.root, ""))
	_, err := w.op("exec", c.Args[1], 0)
	if err == nil {
		w.pause()
		err = ctx.Err()
	}
	if err == nil && c.Args[1] == "build" {
		err = w.build(ctx, c)
	}
	if err != nil {
		h.Log("command failed: %s", strings.ReplaceAll(err.Error(), w.root, ""))
		if c.Stderr != nil && c.Stderr != os.Stderr {
			_, _ = c.Stderr.Write([]byte(err.Error() + "\n"))
		}
		return errors.New("exit status 1")
	}
	return nil
}

// build compiles the generated module.
func (w *cmworld) build(ctx context.Context, c *shimexec.Cmd) error {
	i := slices.Index(c.Args, "-o")
	if i < 0 || c.Args[len(c.Args)-1] != "." {
		return fmt.Errorf("unknown build %v", c.Args)
	}
	outName := c.Args[i+1]
	if !filepath.IsAbs(outName) {
		outName = filepath.Join(c.Dir, outName)
	}
	modDir := filepath.Dir(c.Dir)
	dat, err := os.ReadFile(filepath.Join(modDir, "go.mod"))
	if err != nil {
		return err
	}
	mod, err := modfile.Parse("go.mod", dat, nil)
	if err != nil {
		return err
	}
	prefix := strings.TrimSuffix(mod.Module.Mod.Path, "/plugin")
	o := &cmout{Prefix: prefix, Packages: map[string]map[string]string{}, Plugin: slices.Contains(c.Args, "-buildmode=plugin"), End: "end"}
	// resolve returns the directory of an import of a module which is replaced
	resolve := func(imp string) (string, error) {
		best := ""
		var to string
		for _, r := range mod.Replace {
			if (imp == r.Old.Path || strings.HasPrefix(imp, r.Old.Path+"/")) && len(r.Old.Path) > len(best) {
				best, to = r.Old.Path, r.New.Path
			}
		}
		if best == "" {
			if !strings.Contains(strings.Split(imp, "/")[0], ".") && imp != "context" {
				return "", fmt.Errorf("package %s is not in std", imp)
			}
			return "", nil
		}
		if !filepath.IsAbs(to) {
			to = filepath.Join(modDir, to)
		}
		dat, err := os.ReadFile(filepath.Join(to, "go.mod"))
		if err != nil {
			return "", fmt.Errorf("replacement directory for %s: %v", best, err)
		}
		if _, err := modfile.Parse("go.mod", dat, nil); err != nil {
			return "", err
		}
		if mp := modfile.ModulePath(dat); mp != best {
			return "", fmt.Errorf("replacement directory for %s has module %s", best, mp)
		}
		return filepath.Join(to, imp[len(best):]), nil
	}
	seen := map[string]bool{}
	var visit func(imp, dir string) ([]*ast.File, error)
	visit = func(imp, dir string) ([]*ast.File, error) {
		if seen[dir] {
			return nil, nil
		}
		seen[dir] = true
		var parsed []*ast.File
		m := map[string]string{}
		names := goFilesIn(dir)
		if len(names) == 0 {
			return nil, fmt.Errorf("no Go files in %s", dir)
		}
		for _, name := range names {
			sim.Yield()
			src, err := os.ReadFile(name)
			if err != nil {
				return nil, err
			}
			f, err := parser.ParseFile(token.NewFileSet(), name, src, parser.AllErrors)
			if err != nil {
				return nil, err
			}
			parsed = append(parsed, f)
			for _, im := range f.Imports {
				p, err := strconv.Unquote(im.Path.Value)
				if err != nil {
					return nil, err
				}
				to, err := resolve(p)
				if err == nil && to != "" {
					_, err = visit(p, to)
				}
				if err != nil {
					return nil, err
				}
			}
			m[filepath.Base(name)] = cmSpec(f, func(p string) string {
				if rest, ok := strings.CutPrefix(p, prefix+"/"); ok {
					return rest
				}
				for _, pk := range w.pkgs {
					if pk.in && pk.path == p {
						return "outside of the plugin: " + p
					}
				}
				return p
			})
		}
		if rest, ok := strings.CutPrefix(imp, prefix+"/"); ok {
			o.Packages[rest] = m
		}
		return parsed, nil
	}
	main, err := visit("", c.Dir)
	if err != nil {
		return err
	}
	for _, f := range main {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ValueSpec:
				for i, name := range n.Names {
					if i < len(n.Values) {
						if l, ok := n.Values[i].(*ast.BasicLit); ok && l.Kind == token.STRING {
							v, _ := strconv.Unquote(l.Value)
							switch name.Name {
							case "BinaryID":
								o.ID = v
							case "BinaryVersion":
								o.Version = v
							case "HotPluginBuildUUID":
								o.UUID = v
							}
						}
					}
				}
			case *ast.CallExpr:
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "NewFactory" {
					o.Factories = append(o.Factories, sel.X.(*ast.Ident).Name)
				}
			}
			return true
		})
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	f, err := shimos.OpenFile(outName, shimos.O_CREATE|shimos.O_TRUNC|shimos.O_WRONLY, 0o755)
	if err != nil {
		return err
	}
	_, err = f.WriteString(sim.JSON(o))
	_ = f.Close()
	return err
}

// op is called before an operation of the process.
func (w *cmworld) op(kind, name string, n int) (int, error) {
	h := w.h
	h.Lock()
	life := w.life
	if life == nil {
		h.Unlock()
		return n, nil
	}
	w.nops++
	nops := w.nops
	h.LogLocked("%s %s %d", kind, strings.TrimPrefix(name, w.root), n)
	fail := false
	if w.fault >= 0 && cmFaults[w.fault].op == kind {
		if w.faultIn == 0 {
			fail = true
			w.fault = -1
		} else {
			w.faultIn--
		}
	}
	kill := false
	if w.killIn > 0 {
		w.killIn--
		kill = w.killIn == 0
	}
	if fail && !kill {
		h.FaultLocked(kindOfFault(kind))
		life.mayExit = kind + " failed"
		if kind == shimos.OpRemove {
			w.undeleted = true
		}
	}
	power := w.power
	killed := life.killed
	h.Unlock()
	if !killed && (strings.HasPrefix(name, cmOut) || nops%64 == 0 || kind == shimos.OpRename) {
		w.complete("while it runs")
	}
	if kill {
		h.Fault("crash-point")
		w.die(power == 1)
		return 0, shimos.ErrDead
	}
	if killed {
		return 0, shimos.ErrDead
	}
	if fail {
		if kind == shimos.OpWrite {
			return sim.NewRand(uint64(nops)).N(n), &os.PathError{Op: kind, Path: name, Err: syscall.ENOSPC}
		}
		return 0, &os.PathError{Op: kind, Path: name, Err: syscall.EIO}
	}
	return n, nil
}

func kindOfFault(op string) string {
	for _, f := range cmFaults {
		if f.op == op {
			return f.fault
		}
	}
	return op
}

// parse reads a plugin.
func (w *cmworld) parse(dat []byte) (*cmout, error) {
	o := &cmout{}
	if err := json.Unmarshal(dat, o); err != nil {
		return nil, err
	}
	if o.End != "end" {
		return nil, errors.New("not a plugin")
	}
	return o, nil
}

// outs returns the names of the files which look like outputs.
func (w *cmworld) outs() []string {
	var out []string
	entries, err := os.ReadDir(cmOut)
	if err != nil {
		panic(err)
	}
	for _, e := range entries {
		if w.isOut(e.Name()) && e.Type().IsRegular() {
			out = append(out, e.Name())
		}
	}
	return out
}

// complete checks that outputs are complete and that other files are there.
func (w *cmworld) complete(at string) {
	h := w.h
	h.Lock()
	defer h.Unlock()
	for _, name := range w.outs() {
		if w.olds[name] {
			continue
		}
		dat, err := os.ReadFile(filepath.Join(cmOut, name))
		if err != nil {
			continue
		}
		o, err := w.parse(dat)
		if err != nil {
			h.FailLocked("C24", "torn", "%s: the output %s is not complete: %d bytes, %v", at, name, len(dat), err)
			return
		}
		key := o.key()
		version := strings.TrimPrefix(o.Version, "version-")
		if m := cmOutRe.FindStringSubmatch(name); w.p["plain"] == 0 && m[1] != version || version == o.Version || strings.Contains(version, "{") {
			h.FailLocked("C24", "version", "%s: the output %s has version %q", at, name, o.Version)
		}
		if o.ID != cmID {
			h.FailLocked("C24", "version", "%s: the output %s has id %q", at, name, o.ID)
		}
		if v := w.versions[key]; v != "" && v != version {
			h.FailLocked("C24", "hash", "%s: the same sources were compiled to version %s and to %s", at, v, version)
		}
		w.versions[key] = version
		if k := w.prefixes[o.Prefix]; k != "" && k != key {
			h.FailLocked("C24", "hash", "%s: different sources were compiled with the same import prefix %s:\n%s\n%s", at, o.Prefix, k, key)
		}
		w.prefixes[o.Prefix] = key
		if slices.Contains(o.Factories, "") {
			panic("factories")
		}
	}
	for _, name := range sim.SortedKeys(w.decoys) {
		file := name
		if name == "demo.dir.cbus.so" {
			file += "/file"
		}
		dat, err := os.ReadFile(filepath.Join(cmOut, file))
		if err != nil || string(dat) != name {
			h.FailLocked("C24", "touched", "%s: the file %s beside the output was removed or changed: %v", at, name, err)
		}
	}
}

// die ends the process.
func (w *cmworld) die(power bool) {
	h := w.h
	shimos.Die()
	h.Lock()
	life := w.life
	life.killed = true
	h.LogLocked("killed, power loss %v", power)
	r := sim.NewRand(uint64(w.p["salt"] + w.nops))
	h.Unlock()
	if power {
		h.Fault("power-loss")
		if n := shimos.PowerLoss(r.N); n > 0 {
			h.Fault("content-lost")
		}
	}
	w.complete("after a kill")
	life.cancel()
}

// start starts the process.
func (w *cmworld) start() {
	h := w.h
	ctx, cancel := context.WithCancel(w.ctx)
	life := &cmlife{cancel: cancel, done: make(chan struct{})}
	h.Lock()
	w.life = life
	life.names = w.outs()
	if _, err := w.expect(); err != nil {
		life.mayExit = "broken sources"
	}
	life.litter = w.litter()
	h.LogLocked("start %s", life.mayExit)
	h.Unlock()
	shimos.Reset()
	shimos.Op, shimos.Piece, shimos.Temp = w.op, 200, "tmp"
	fsnotify.AddErr = func(string) error {
		_, err := w.op("watch", "", 0)
		return err
	}
	var cb func([]string, string) error
	if w.p["cb"] == 1 {
		cb = w.callback
	}
	wt := plugin_compiler.NewWatcher(h.Le, filepath.Join(w.root, "src"), w.pats)
	target := w.target()
	go func() {
		defer close(life.done)
		err := wt.WatchCompilePlugin(ctx, filepath.Join(w.root, "codegen"), target, cmID, "version-{buildHash}", cb)
		h.Lock()
		if !life.killed {
			life.exited, life.err = true, err
			h.LogLocked("returned")
		}
		h.Unlock()
		shimos.Die()
		cancel()
	}()
}

// once compiles a plugin without watching.
func (w *cmworld) once(how int) {
	h := w.h
	ctx, cancel := context.WithCancel(w.ctx)
	defer cancel()
	life := &cmlife{cancel: cancel, once: true}
	h.Lock()
	w.life = life
	want, err := w.expect()
	if err != nil {
		life.mayExit = "the sources are broken"
	}
	life.litter = w.litter()
	h.Unlock()
	shimos.Reset()
	shimos.Op, shimos.Piece, shimos.Temp = w.op, 200, "tmp"
	out := "out2/once.cbus.so"
	_ = os.RemoveAll("out2")
	src := "src"
	if how >= 2 {
		src = "."
	}
	var pats []string
	for _, pk := range w.pkgs {
		if pk.in && w.p["rel"] == 1 {
			pats = append(pats, "./"+relTo(filepath.Join(w.root, src), pk.dir))
		} else if pk.in {
			pats = append(pats, pk.path)
		}
	}
	switch how {
	case 0, 1:
		codegen := ""
		if how == 1 {
			codegen = "codegen/once"
		}
		err = plugin_compiler.BuildPlugin(ctx, h.Le, src, out, codegen, pats)
	default:
		args := []string{"compile", "plugin", "--output", out}
		if how == 3 {
			args = append(args, "--build-prefix", "my-prefix", "--codegen-dir", "codegen/once")
		}
		var a plugin_cli.CompilerArgs
		cmd := a.BuildDevtoolCommand()
		app := cli.NewApp()
		app.Commands = []*cli.Command{cmd}
		args = append(append(args, "compile"), pats...)
		err = app.RunContext(ctx, args)
	}
	h.Lock()
	defer h.Unlock()
	if life.killed {
		w.life, w.fault, w.killIn = nil, -1, 0
		return
	}
	h.LogLocked("compiled: %v", err != nil)
	switch {
	case err != nil && life.mayExit == "":
		h.FailLocked("C24", "returned", "compiling once failed although nothing failed: %v", err)
	case err == nil && want == nil:
		h.FailLocked("C24", "silent", "compiling once reports no error although the sources are broken")
	case err == nil:
		h.CountLocked("compiled-once")
		dat, err := os.ReadFile(out)
		var o *cmout
		if err == nil {
			o, err = w.parse(dat)
		}
		if err != nil {
			h.FailLocked("C24", "torn", "compiling once reports no error, but the output is not complete: %v", err)
			break
		}
		o.ID = cmID
		if o.key() != want.key() {
			h.FailLocked("C24", "stale", "compiling once made another plugin than the one of the sources\nwant %s\nhave %s", want.key(), o.key())
		}
		_ = os.RemoveAll("codegen/once")
		w.checkLitter("after compiling once")
	}
	if err != nil {
		_ = os.RemoveAll("codegen/once")
	}
	w.life, w.fault, w.killIn = nil, -1, 0
}

// callback is called with a plugin.
func (w *cmworld) callback(pkgs []string, name string) error {
	h := w.h
	sim.Yield()
	h.Lock()
	life := w.life
	if life == nil || life.killed {
		h.Unlock()
		return nil
	}
	h.CountLocked("output")
	life.cbs++
	if !slices.Equal(pkgs, w.pats) {
		h.FailLocked("C24", "callback", "the callback got packages %v", pkgs)
	}
	name = filepath.Clean(name)
	if filepath.Dir(name) != cmOut || !w.isOut(filepath.Base(name)) {
		h.FailLocked("C24", "callback", "the callback got the output path %q", name)
	}
	if _, err := os.Stat(name); err != nil {
		h.FailLocked("C24", "callback", "the callback got the output path %q: %v", name, err)
	}
	if life.lastCb == name && w.p["plain"] == 0 {
		h.FailLocked("C24", "callback", "the callback was called again with %q", name)
	}
	life.lastCb = name
	h.Unlock()
	w.complete("at the callback")
	if _, err := w.op("callback", "", 0); err != nil {
		h.Lock()
		life.cbErr = true
		h.Unlock()
		return err
	}
	return nil
}

// end kills or stops the process and waits until nothing is left of it.
func (w *cmworld) end(how int) {
	h := w.h
	h.Lock()
	life := w.life
	alive := life != nil && !life.killed && !life.exited
	h.Unlock()
	if life == nil {
		return
	}
	if alive {
		if how == 2 {
			h.Lock()
			life.stop = true
			h.LogLocked("stop")
			h.Unlock()
			life.cancel()
		} else {
			h.Fault("kill")
			w.die(how == 1)
		}
	}
	h.Quiesce(5 * time.Minute)
	select {
	case <-life.done:
	default:
		h.Fail("C24", "stop", "the watcher does not return after its context was canceled")
		return
	}
	w.complete("after it ended")
	h.Lock()
	switch {
	case !life.exited:
	case life.err == nil:
		h.FailLocked("C24", "no-error", "the watcher returned without an error")
	case !life.stop && life.mayExit == "":
		h.FailLocked("C24", "returned", "the watcher returned although nothing failed: %v", life.err)
	}
	if n := fsnotify.Open(); n != 0 {
		h.FailLocked("C24", "leak", "%d file watchers left", n)
	}
	w.life, w.fault, w.killIn = nil, -1, 0
	h.Unlock()
}

// settle waits until nothing happens and compares the output with the files.
func (w *cmworld) settle(at string) {
	h := w.h
	h.Quiesce(5 * time.Minute)
	w.complete(at)
	h.Lock()
	defer h.Unlock()
	life := w.life
	if life == nil || life.killed {
		return
	}
	if life.exited {
		if life.mayExit == "" {
			h.FailLocked("C24", "returned", "%s: the watcher returned although nothing failed: %v", at, life.err)
		}
		return
	}
	if life.cbErr {
		h.FailLocked("C24", "callback", "%s: the watcher runs although the callback returned an error", at)
	}
	want, err := w.expect()
	if lib := w.pkgs[1]; err != nil && !lib.in && strings.Contains(err.Error(), lib.dir) {
		// compiled before, or it would not run
		return
	}
	if err != nil {
		h.FailLocked("C24", "silent", "%s: the watcher runs and reports no error although the sources are broken: %v", at, err)
		return
	}
	h.CountLocked("current")
	names := w.outs()
	cur := ""
	var have []string
	for _, name := range names {
		dat, err := os.ReadFile(filepath.Join(cmOut, name))
		if err != nil {
			continue
		}
		o, err := w.parse(dat)
		if err != nil || w.olds[name] {
			continue
		}
		have = append(have, name+" "+o.key())
		if o.key() == want.key() {
			cur = name
		}
	}
	files := 0
	for _, pk := range w.pkgs {
		for f := range pk.state {
			files = files<<1 | b2i(pk.state[f] != cmNone)
		}
	}
	h.StateLocked(uint64(files)<<40 | uint64(min(len(w.versions), 15))<<36 | uint64(len(names))<<32 | uint64(len(want.Factories))<<20 | uint64(len(want.Packages))<<16 | uint64(life.cbs)<<8 | uint64(w.p["two"])<<4 | uint64(b2i(w.undeleted))<<2 | uint64(w.p["plain"])<<1 | uint64(w.p["lib"]))
	if cur == "" {
		h.FailLocked("C24", "stale", "%s: there is no plugin of the current sources\nwant %s\nhave %s", at, want.key(), strings.Join(have, "\n     "))
		return
	}
	if w.p["cb"] == 1 && (!slices.Contains(life.names, cur) || life.cbs > 0) && life.lastCb != path.Join(cmOut, cur) {
		h.FailLocked("C24", "callback", "%s: the callback was not called with the current output %s but with %q", at, cur, life.lastCb)
	}
	w.checkLitter(at)
	if life.cbs > 0 && len(names) > 1 && !w.undeleted {
		h.FailLocked("C24", "old-version", "%s: old versions remain: %v, the current one is %s", at, names, cur)
	}
}

// litter returns the files which no one needs once the output is there.
func (w *cmworld) litter() map[string]bool {
	res := map[string]bool{}
	for _, dir := range []string{"codegen", "tmp", "tmp/cache", "tmp/cache/cbus/codegen", cmOut} {
		entries, _ := os.ReadDir(dir)
		for _, e := range entries {
			if n := e.Name(); n != "bin" && n != "cache" && n != "cbus" && (dir != cmOut || !w.isOut(n) && !w.decoys[n]) {
				res[filepath.Join(dir, n)] = true
			}
		}
	}
	return res
}

// checkLitter checks that nothing is left, h is locked.
func (w *cmworld) checkLitter(at string) {
	life := w.life
	if w.undeleted {
		return
	}
	for _, name := range sim.SortedKeys(w.litter()) {
		if !life.litter[name] || life.cbs > 0 && filepath.Dir(name) == cmOut {
			w.h.FailLocked("C24", "litter", "%s: %s remains", at, name)
		}
	}
}

// broken notes that the sources can not be compiled, h is locked.
func (w *cmworld) broken() {
	if w.life != nil {
		w.life.mayExit = "the sources are broken"
	}
}

// put writes a file of a package.
func (w *cmworld) put(p, f, how int, dat []byte) {
	h := w.h
	name := w.fileName(p, f)
	watched := name
	_, err := os.Stat(name)
	isNew := err != nil
	write := func(b []byte) {
		if err := os.WriteFile(name, b, 0o644); err != nil {
			panic(err)
		}
	}
	check := func() {
		h.Lock()
		if _, err := w.expect(); err != nil {
			w.broken()
		}
		h.Unlock()
	}
	switch how {
	case 1:
		// in two steps
		h.Fault("torn-edit")
		write(dat[:len(dat)/2])
		check()
		if isNew {
			fsnotify.Emit(watched, fsnotify.Create)
		}
		fsnotify.Emit(watched, fsnotify.Write)
		h.Lock()
		w.seq++
		d := sim.NewRand(uint64(w.p["salt"]+w.seq)).Pick(0, 1, 100, 450, 700)
		h.Unlock()
		sim.Sleep(time.Duration(d) * time.Millisecond)
		write(dat)
		fsnotify.Emit(watched, fsnotify.Write)
	case 2:
		// removed and created
		if !isNew {
			_ = os.Remove(name)
			check()
			fsnotify.Emit(watched, fsnotify.Remove)
			sim.Yields(3)
		}
		fallthrough
	default:
		tmp := filepath.Join(filepath.Dir(name), ".tmp-edit")
		if err := os.WriteFile(tmp, dat, 0o644); err != nil {
			panic(err)
		}
		dir := filepath.Dir(watched)
		fsnotify.Emit(filepath.Join(dir, ".tmp-edit"), fsnotify.Create)
		if err := os.Rename(tmp, name); err != nil {
			panic(err)
		}
		fsnotify.Emit(filepath.Join(dir, ".tmp-edit"), fsnotify.Rename)
		fsnotify.Emit(watched, fsnotify.Create)
	}
	check()
}

func (w *cmworld) do(op sim.Op, at func(string)) {
	at(op.String())
	h := w.h
	h.Count(op.K)
	h.Log("%s", op.String())
	life := w.life
	n := op.Arg(0)
	switch op.K {
	case "edit", "revert":
		pk, f := w.pkgs[n], op.Arg(1)
		rev := pk.prev[f]
		if op.K == "edit" {
			w.seq++
			rev = w.seq
		} else if rev == 0 {
			return
		}
		pk.prev[f], pk.rev[f], pk.state[f] = pk.rev[f], rev, cmGood
		w.put(n, f, op.Arg(2), w.source(n, f, rev))
	case "break":
		pk, f := w.pkgs[n], op.Arg(1)
		h.Fault("broken-source")
		pk.state[f] = cmBroken
		w.put(n, f, 0, append(w.source(n, f, 0), "func (\n"...))
	case "del":
		pk, f := w.pkgs[n], op.Arg(1)
		if pk.state[f] == cmNone {
			return
		}
		pk.state[f] = cmNone
		name := w.fileName(n, f)
		if err := os.Remove(name); err != nil {
			panic(err)
		}
		fsnotify.Emit(name, fsnotify.Remove)
	case "touch":
		name := w.fileName(n, op.Arg(1))
		if _, err := os.Stat(name); err == nil {
			fsnotify.Emit(name, fsnotify.Chmod)
			fsnotify.Emit(name, fsnotify.Write)
		}
	case "swap":
		// the directory is replaced, one file in it changed
		pk := w.pkgs[n]
		h.Fault("directory-replaced")
		w.seq++
		pk.prev[0], pk.rev[0], pk.state[0] = pk.rev[0], w.seq, cmGood
		tmp, old := pk.dir+".new", pk.dir+".old"
		if err := os.Mkdir(tmp, 0o755); err != nil {
			panic(err)
		}
		for f := 0; f < cmFiles; f++ {
			if dat, err := os.ReadFile(w.fileName(n, f)); err == nil {
				if f == 0 {
					dat = w.source(n, f, w.seq)
				}
				if err := os.WriteFile(filepath.Join(tmp, fmt.Sprintf("f%d.go", f)), dat, 0o644); err != nil {
					panic(err)
				}
			}
		}
		if dat, err := os.ReadFile(filepath.Join(pk.dir, "go.mod")); err == nil {
			_ = os.WriteFile(filepath.Join(tmp, "go.mod"), dat, 0o644)
		}
		if err := os.Rename(pk.dir, old); err != nil {
			panic(err)
		}
		h.Lock()
		w.broken() // for a moment
		h.Unlock()
		fsnotify.Removed(pk.dir, fsnotify.Rename)
		fsnotify.Emit(pk.dir, fsnotify.Rename)
		sim.Yields(2)
		if err := os.Rename(tmp, pk.dir); err != nil {
			panic(err)
		}
		fsnotify.Emit(pk.dir, fsnotify.Create)
		_ = os.RemoveAll(old)
	case "slowedit":
		// written with pauses below the quiet period while the watcher waits
		w.seq++
		pk := w.pkgs[0]
		dat := w.source(0, 0, w.seq)
		pk.prev[0], pk.rev[0] = pk.rev[0], w.seq
		h.Fault("torn-edit")
		name := w.fileName(0, 0)
		r := sim.NewRand(uint64(w.p["salt"]))
		for i, last := 0, sim.Now(); i < 3; i++ {
			b := dat
			if i < 2 {
				b = dat[:len(dat)*(i+1)/4]
			}
			if err := os.WriteFile(name, b, 0o644); err != nil {
				panic(err)
			}
			h.Lock()
			if sim.Now()-last > 450*time.Millisecond {
				w.broken()
			}
			last = sim.Now()
			h.Unlock()
			fsnotify.Emit(name, fsnotify.Write)
			sim.Sleep(time.Duration(r.N(400)) * time.Millisecond)
		}
	case "decoy":
		name, isDir := strings.CutSuffix(cmDecoys[n], "/")
		file := name
		if isDir {
			_ = os.Mkdir(filepath.Join(cmOut, name), 0o755)
			file += "/file"
		}
		if err := os.WriteFile(filepath.Join(cmOut, file), []byte(name), 0o644); err != nil {
			panic(err)
		}
		h.Lock()
		w.decoys[name] = true
		h.Unlock()
	case "old":
		if life == nil && w.p["plain"] == 0 {
			name := fmt.Sprintf("demo.old%d.cbus.so", n)
			if err := os.WriteFile(filepath.Join(cmOut, name), []byte("old"), 0o644); err != nil {
				panic(err)
			}
			h.Lock()
			w.olds[name] = true
			h.Unlock()
		}
	case "fault":
		h.Lock()
		w.fault, w.faultIn = n, op.Arg(1)
		if cmFaults[n].op != shimos.OpRead && cmFaults[n].op != shimos.OpWrite && cmFaults[n].op != shimos.OpOpen && cmFaults[n].op != shimos.OpRemove && cmFaults[n].op != shimos.OpStat {
			w.faultIn %= 4
		}
		h.Unlock()
	case "killat":
		h.Lock()
		w.killIn, w.power = n, op.Arg(1)
		h.Unlock()
	case "start":
		if life == nil {
			w.start()
		}
	case "once":
		if life == nil {
			w.once(n)
		}
	case "kill":
		w.end(n)
	case "settle":
		w.settle("while it runs")
	case "sleep":
		sim.Sleep(time.Duration(n) * time.Millisecond)
	}
}

func (Compiler) Exec(h *sim.H, s *sim.Script) {
	defer enterScratch()()
	root, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	w := &cmworld{h: h, ctx: ctx, p: s.P, root: root, fault: -1, decoys: map[string]bool{}, olds: map[string]bool{}, versions: map[string]string{}, prefixes: map[string]string{}}
	gopath := build.Default.GOPATH
	build.Default.GOPATH = filepath.Join(root, "gopath")
	defer func() { build.Default.GOPATH = gopath }()
	fsnotify.Reset()
	fsnotify.Limit = s.P["limit"]
	fsnotify.Overflow = func() {
		h.Fault("queue-overflow")
		h.Lock()
		if w.life != nil {
			w.life.mayExit = "the queue of events was full"
		}
		h.Unlock()
	}
	shimos.Reset()
	shimos.Clear()
	shimpkgs.Loader, shimexec.Runner = w.load, w.run
	mod := func(mp, dir string) *packages.Module {
		dir = filepath.Join(root, dir)
		name := filepath.Join(dir, "go.mod")
		var b bytes.Buffer
		y := relTo(dir, filepath.Join(root, "y"))
		fmt.Fprintf(&b, "module %s\n\ngo 1.24\n\nrequire github.com/aperturerobotics/controllerbus v0.0.0\n\nrequire github.com/x/y v1.0.0\n\nreplace github.com/x/y => %s\n", mp, y)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
			panic(err)
		}
		return &packages.Module{Path: mp, Dir: dir, GoMod: name, Main: true, GoVersion: "1.24"}
	}
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	stdout, stderr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	defer func() {
		os.Stdout, os.Stderr = stdout, stderr
		_ = null.Close()
	}()
	for _, dir := range []string{cmOut, "codegen", "gopath", "tmp", "src"} {
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
	}
	if err := os.Mkdir("y", 0o755); err != nil {
		panic(err)
	}
	for name, text := range map[string]string{"go.mod": "module github.com/x/y\n", "y.go": "package y\n"} {
		if err := os.WriteFile(filepath.Join("y", name), []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	m1 := mod("example.com/m", "src")
	m2, rel, mp := m1, "c", "example.com/m/c"
	switch s.P["two"] {
	case 1:
		m2 = mod("example.com/m/sub", "src/sub")
		rel, mp = "sub/c", "example.com/m/sub/c"
	case 2:
		m2 = mod("other.org/n", "n")
		rel, mp = "../n/c", "other.org/n/c"
	}
	w.pkgs = [cmPkgs]*cmpkg{
		{path: "example.com/m/a", name: "a", mod: m1, factory: true, imports: []string{"example.com/m/lib"}, pattern: "./a", in: true},
		{path: "example.com/m/lib", name: "lib", mod: m1, factory: s.P["libfac"] == 1, pattern: "./lib", in: s.P["lib"] == 1},
		{path: mp, name: "c", mod: m2, factory: true, imports: []string{"example.com/m/lib"}, pattern: "./" + rel, in: true},
	}
	for i, pk := range w.pkgs {
		pk.dir = filepath.Join(root, "src", []string{"a", "lib", rel}[i])
		if err := os.MkdirAll(pk.dir, 0o755); err != nil {
			panic(err)
		}
		if pk.in {
			if s.P["rel"] == 1 && i != 0 {
				w.pats = append(w.pats, pk.pattern)
			} else {
				w.pats = append(w.pats, pk.path)
			}
		}
	}
	at := func(string) {}
	for _, op := range s.Tasks[0] {
		w.do(op, at)
		if h.Failed() {
			break
		}
	}
	// Without faults.
	run := func(k string, a ...int) {
		if !h.Failed() {
			w.do(sim.Op{K: k, A: a}, at)
		}
	}
	run("kill", 0)
	fsnotify.Limit = 1 << 14
	for p, pk := range w.pkgs {
		for f := range pk.state {
			if pk.state[f] == cmBroken || f == 0 {
				run("edit", p, f, 0)
			}
		}
	}
	run("old", 0)
	run("start")
	run("settle")
	if !h.Failed() && (w.life == nil || w.life.exited) {
		h.Fail("C24", "returned", "the watcher does not run without faults")
	}
	run("edit", 0, 0, 0)
	run("sleep", 2000)
	run("edit", 2, 2, 0)
	run("edit", 1, 0, 0)
	run("settle")
	run("slowedit")
	run("settle")
	if !h.Failed() && (w.life == nil || w.life.exited) && w.life.mayExit == "" {
		h.Fail("C24", "returned", "the watcher does not run after an edit")
	}
	run("revert", 1, 0, 0)
	run("settle")
	if w.life != nil && w.life.exited {
		run("kill", 0)
	}
	run("once", s.P["salt"]%4)
	run("kill", 2)
	run("start")
	run("settle")
	run("kill", 2)
	if w.life != nil {
		w.life.cancel()
	}
	cancel()
	h.Quiesce(time.Minute)
	h.LeakProp = "C24"
}
