// Package packages stands in for the go command which lists packages.
package packages

import (
	real "golang.org/x/tools/go/packages"
)

// Loader loads the packages.
var Loader func(cfg *real.Config, patterns ...string) ([]*real.Package, error)

// Load loads the packages.
func Load(cfg *real.Config, patterns ...string) ([]*real.Package, error) {
	return Loader(cfg, patterns...)
}
