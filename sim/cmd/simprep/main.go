// Command simprep prepares a simulator build: it writes patched standard
// library files, weaves scheduling points into the code under test, and emits
// the overlay file for "go build -overlay" plus the table of woven sites.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	goroot := flag.String("goroot", "", "GOROOT of the Go 1.25 toolchain")
	repo := flag.String("repo", "/repo", "tree under test")
	util := flag.String("util", "", "module directory of aperturerobotics/util (read only)")
	out := flag.String("out", "", "output directory")
	sched := flag.String("sched", "", "simsched.go source")
	daemon := flag.String("daemon", "", "directory of the package which the command becomes")
	flag.Parse()
	if err := run(*goroot, *repo, *util, *out, *sched, *daemon); err != nil {
		fmt.Fprintln(os.Stderr, "simprep:", err)
		os.Exit(2)
	}
}

func run(goroot, repo, util, out, sched, daemon string) error {
	overlay := map[string]string{}
	if err := patchRuntime(goroot, out, sched, overlay); err != nil {
		return err
	}
	w := &weaver{shims: filepath.Join(filepath.Dir(daemon), "shim")}
	// The repository: overlay.
	files, err := goFiles(repo)
	if err != nil {
		return err
	}
	for _, f := range files {
		rel, _ := filepath.Rel(repo, f)
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		res, err := w.weave("repo/"+rel, src)
		if err != nil {
			// Leave files that do not parse to the compiler.
			continue
		}
		if res == nil {
			continue
		}
		dst := filepath.Join(out, "repo", rel)
		if err := writeIfChanged(dst, res); err != nil {
			return err
		}
		overlay[f] = dst
		if cmd := "cmd/controllerbus/"; daemon != "" && filepath.Dir(rel)+"/" == cmd {
			// The command, as a package.
			overlay[filepath.Join(daemon, rel[len(cmd):])] = dst
		}
	}
	// The util module: a woven copy used through a replace directive, because
	// overlays may not touch the module cache.
	if util != "" {
		files, err := goFiles(util)
		if err != nil {
			return err
		}
		for _, f := range files {
			rel, _ := filepath.Rel(util, f)
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			res, err := w.weave("util/"+rel, src)
			if err != nil || res == nil {
				res = src
			}
			if err := writeIfChanged(filepath.Join(out, "util", rel), res); err != nil {
				return err
			}
		}
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(util, f))
			if err != nil {
				return err
			}
			if err := writeIfChanged(filepath.Join(out, "util", f), b); err != nil {
				return err
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := writeIfChanged(filepath.Join(out, "overlay.json"), b); err != nil {
		return err
	}
	return writeIfChanged(filepath.Join(out, "sites.txt"), []byte(strings.Join(w.sites, "\n")+"\n"))
}

var skipDirs = map[string]bool{".git": true, "node_modules": true, "vendor": true, "testdata": true, ".build": true, ".tools": true, "js": true, "dist": true}

func goFiles(root string) ([]string, error) {
	var out []string
	err := filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if p != root && (skipDirs[d.Name()] || strings.HasPrefix(d.Name(), "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		n := d.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out, err
}
