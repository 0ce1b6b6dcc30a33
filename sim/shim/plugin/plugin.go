// Package plugin stands in for the Go plugin loader.
package plugin

import "errors"

// Symbol is a pointer to a variable or function.
type Symbol any

// Plugin is a loaded Go plugin.
type Plugin struct {
	syms map[string]Symbol
}

// Load reads the symbols of a file. Set by the scenario.
var Load func(path string) (map[string]Symbol, error)

// Open opens a Go plugin.
func Open(path string) (*Plugin, error) {
	if Load == nil {
		return nil, errors.New("plugin: not implemented")
	}
	syms, err := Load(path)
	if err != nil {
		return nil, err
	}
	return &Plugin{syms: syms}, nil
}

// Lookup searches for a symbol named symName in plugin p.
func (p *Plugin) Lookup(symName string) (Symbol, error) {
	if s, ok := p.syms[symName]; ok {
		return s, nil
	}
	return nil, errors.New("plugin: symbol " + symName + " not found in plugin")
}
