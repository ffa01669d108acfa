package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"

	"pgregory.net/rapid"
)

// Sub is one generator/oracle pair of a property.
type Sub struct {
	Name     string
	Quick    int // number of cases in the quick tier
	Thorough int
	Gen      func(t *rapid.T) any
	New      func() any                   // empty case for decoding
	Check    func(c any, st *Stats) error // nil: the property held
}

// Prop is a property with its sub-checks.
type Prop struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	Subs []*Sub
	Race bool
	// Assumptions are written to the evidence
	Assumptions []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Stats collects the classification of one worker's cases.
type Stats struct {
	Classes    map[string]int
	nontrivial bool
	extra      int // additional evaluations within the case
}

func (s *Stats) Class(names ...string) {
	for _, n := range names {
		s.Classes[n]++
	}
}

func (s *Stats) ClassIf(cond bool, name string) {
	if cond {
		s.Classes[name]++
	}
}

// NonTrivial marks the current case as non-trivial by the property's rule
func (s *Stats) NonTrivial() { s.nontrivial = true }

func (s *Stats) NonTrivialIf(c bool) {
	if c {
		s.nontrivial = true
	}
}

// sub is a typed helper to build a Sub
func sub[T any](name string, quick, thorough int, gen func(t *rapid.T) *T, check func(c *T, st *Stats) error) *Sub {
	return &Sub{
		Name: name, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) any { return gen(t) },
		New: func() any { return new(T) },
		Check: func(c any, st *Stats) error {
			return check(c.(*T), st)
		},
	}
}

// evaluate runs the oracle; a panic of the code under test is a violation.
func evaluate(s *Sub, c any, st *Stats) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			stack := string(debug.Stack())
			if i := strings.Index(stack, "panic("); i >= 0 {
				stack = stack[i:]
			}
			if len(stack) > 2500 {
				stack = stack[:2500] + "..."
			}
			err = fmt.Errorf("panic: %v\n%s", r, stack)
		}
	}()
	return s.Check(c, st)
}

// harnessError is a fault of the machinery itself, never a violation.
type harnessError struct{ msg string }

func (h harnessError) Error() string { return h.msg }

func harnessFail(format string, args ...any) {
	panic(harnessError{fmt.Sprintf(format, args...)})
}

func mustJSON(v any) []byte {
	bs, err := json.Marshal(v)
	if err != nil {
		harnessFail("marshal case: %v", err)
	}
	return bs
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Seed     int64           `json:"seed"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}
