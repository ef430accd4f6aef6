package props

import "pgregory.net/rapid"

// Prop is one property: generator, oracle, classification.
type Prop struct {
	ID       string
	New      func() any
	Draw     func(t *rapid.T) any
	Check    func(e *Env, c any) error
	Classify func(c any) (labels []string, nontrivial bool)
	// Enum, if set, enumerates a finite part of the domain completely.
	Enum func(e *Env, yield func(c any) bool)
}

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.ID] = p }
