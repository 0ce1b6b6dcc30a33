package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strings"
)

// weaver inserts a scheduling point before every statement.
type weaver struct {
	sites []string // index is the site number minus one
	shims string   // directory of the stand-ins
	names map[string]map[string]bool
}

type insertion struct {
	off  int
	del  int
	text string
}

// weave returns the woven source, or nil if the file needs no change.
func (w *weaver) weave(name string, src []byte) ([]byte, error) {
	base := filepath.Base(name)
	if strings.HasSuffix(base, ".pb.go") || bytes.HasPrefix(src, []byte("// Code generated")) {
		return nil, nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var ins []insertion
	addList := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			pos := fset.Position(s.Pos())
			w.sites = append(w.sites, fmt.Sprintf("%s:%d", name, pos.Line))
			ins = append(ins, insertion{off: fset.File(s.Pos()).Offset(s.Pos()), text: fmt.Sprintf("__sim.SimYield(%d);", len(w.sites))})
		}
	}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				addList(n.List)
			case *ast.CaseClause:
				addList(n.Body)
			case *ast.CommClause:
				addList(n.Body)
			}
			return true
		})
	}
	imports := ""
	if len(ins) != 0 {
		imports = "; import __sim \"runtime\""
	}
	for _, im := range f.Imports {
		if to := shim(name, im.Path.Value); to != "" {
			// What the stand-in has not is used from the package itself.
			local := pathBase(im.Path.Value)
			if im.Name != nil {
				local = im.Name.Name
			}
			has, err := w.exports(to)
			if err != nil {
				return nil, err
			}
			var rest []insertion
			shimmed := false
			ast.Inspect(f, func(n ast.Node) bool {
				if sel, ok := n.(*ast.SelectorExpr); ok {
					if id, ok := sel.X.(*ast.Ident); ok && id.Name == local && id.Obj == nil {
						if has[sel.Sel.Name] {
							shimmed = true
						} else {
							rest = append(rest, insertion{off: fset.File(id.Pos()).Offset(id.Pos()), del: len(local), text: "__real_" + local})
						}
					}
				}
				return true
			})
			if !shimmed {
				continue
			}
			off := fset.File(im.Path.Pos()).Offset(im.Path.Pos())
			ins = append(ins, insertion{off: off, del: len(im.Path.Value), text: to})
			if len(rest) > 0 {
				ins = append(ins, rest...)
				imports += "; import __real_" + local + " " + im.Path.Value
			}
		}
	}
	if filepath.Dir(name) == "repo/cmd/controllerbus" {
		// The command becomes a package.
		ins = append(ins, insertion{off: fset.File(f.Name.Pos()).Offset(f.Name.Pos()), del: len(f.Name.Name), text: "daemon"})
	}
	if len(ins) == 0 {
		return nil, nil
	}
	if imports != "" {
		ins = append(ins, insertion{off: fset.File(f.Name.End()).Offset(f.Name.End()), text: imports})
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out bytes.Buffer
	last := 0
	for _, in := range ins {
		out.Write(src[last:in.off])
		out.WriteString(in.text)
		last = in.off + in.del
	}
	out.Write(src[last:])
	return out.Bytes(), nil
}

// shims are the packages which reach outside of the simulation, in which
// directories, and what stands in for them.
var shims = []struct{ dir, path, to string }{
	{"repo/plugin/", `"github.com/fsnotify/fsnotify"`, `"verifsim/shim/fsnotify"`},
	{"util/debounce-fswatcher/", `"github.com/fsnotify/fsnotify"`, `"verifsim/shim/fsnotify"`},
	{"repo/plugin/loader/", `"plugin"`, `"verifsim/shim/plugin"`},
	{"repo/bus/api/", `"net"`, `"verifsim/shim/net"`},
	{"repo/cli/", `"net"`, `"verifsim/shim/net"`},
	{"repo/plugin/compiler/", `"os"`, `"verifsim/shim/os"`},
	{"repo/plugin/compiler/", `"os/exec"`, `"verifsim/shim/exec"`},
	{"repo/plugin/compiler/", `"github.com/aperturerobotics/util/exec"`, `"verifsim/shim/exec"`},
	{"repo/plugin/compiler/", `"golang.org/x/tools/go/packages"`, `"verifsim/shim/packages"`},
	{"repo/plugin/cli/", `"os"`, `"verifsim/shim/os"`},
	{"repo/cmd/controllerbus/", `"os"`, `"verifsim/shim/os"`},
	{"repo/cmd/controllerbus/", `"context"`, `"verifsim/shim/context"`},
}

// shim returns the import which stands in for a package in the file, if any.
func shim(name, path string) string {
	for _, s := range shims {
		if s.path == path && strings.HasPrefix(name, s.dir) {
			return s.to
		}
	}
	return ""
}

// pathBase returns the last element of a quoted import path.
func pathBase(path string) string {
	path = strings.Trim(path, `"`)
	return path[strings.LastIndex(path, "/")+1:]
}

// exports returns what a stand-in declares.
func (w *weaver) exports(to string) (map[string]bool, error) {
	if m := w.names[to]; m != nil {
		return m, nil
	}
	m := map[string]bool{}
	files, err := filepath.Glob(filepath.Join(w.shims, pathBase(to), "*.go"))
	if err != nil {
		return nil, err
	}
	for _, name := range files {
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						m[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							m[n.Name] = true
						}
					}
				}
			}
		}
	}
	if w.names == nil {
		w.names = map[string]map[string]bool{}
	}
	w.names[to] = m
	return m, nil
}
