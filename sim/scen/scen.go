// Package scen holds the scenarios (workloads with oracles) and the table of
// properties they decide.
package scen

import "verifsim/sim"

// Entry is a weighted scenario of a property.
type Entry struct {
	S      sim.Scenario
	Weight int
}

// Prop is a checked property.
type Prop struct {
	ID        string
	Scenarios []Entry
	Real      []string
	Stub      []string
}

var props []*Prop
var scenarios = map[string]sim.Scenario{}

// reg registers a property with its scenarios.
func reg(p *Prop) {
	props = append(props, p)
	for _, e := range p.Scenarios {
		scenarios[e.S.Name()] = e.S
	}
}

// Find returns the property with the id.
func Find(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// Scenario returns the scenario with the name.
func Scenario(name string) sim.Scenario { return scenarios[name] }

// IDs lists the properties.
func IDs() []string {
	var out []string
	for _, p := range props {
		out = append(out, p.ID)
	}
	return out
}
