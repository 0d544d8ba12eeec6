// Package eng runs properties: it shards generated cases over worker processes,
// shrinks failures, confirms them in a fresh process, and writes evidence.
package eng

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"

	"pgregory.net/rapid"
)

// Obs collects what a case exercised.
type Obs struct {
	labels map[string]int
	nontr  bool
	// Again is set when a case that has failed is run again: limits on what is
	// measured should be a little lower then, for a failure is shrunk right to the
	// limit.
	Again bool
}

// Label counts a class of cases.
func (o *Obs) Label(format string, args ...interface{}) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	o.labels[format]++
}

// LabelIf counts a class if ok.
func (o *Obs) LabelIf(ok bool, l string) {
	if ok {
		o.labels[l]++
	}
}

// NonTrivial marks the case non-trivial by the part's rule.
func (o *Obs) NonTrivial() { o.nontr = true }

// Part is one generator with its oracle.
type Part struct {
	Name string
	// Quick and Thorough are how many cases each tier generates.
	Quick, Thorough int
	// Shards limits the number of worker processes (0: no limit).
	Shards int
	// Race runs the part under the race detector.
	Race bool
	// Setup runs once per check, before the workers, with a scratch directory
	// that they find in Dir.
	Setup func(dir string) error
	// Rule says when a case counts as non-trivial.
	Rule string
	// CPULimit is the number of CPU seconds after which a case counts as hanging.
	CPULimit float64
	// External parts do their work in child processes, so that neither CPU time
	// nor memory of the worker mean anything.
	External bool

	draw func(t *rapid.T) interface{}
	run  func(c interface{}, o *Obs) error
	dec  func(b []byte) (interface{}, error)
}

// Opt changes a part.
type Opt func(*Part)

// NewPart makes a part from a generator and an oracle.
func NewPart[C any](name string, quick, thorough int, rule string, gen func(t *rapid.T) C, run func(c *C, o *Obs) error, opts ...Opt) *Part {
	p := &Part{Name: name, Quick: quick, Thorough: thorough, Rule: rule, CPULimit: 25,
		draw: func(t *rapid.T) interface{} { c := gen(t); return &c },
		run:  func(c interface{}, o *Obs) error { return run(c.(*C), o) },
		dec: func(b []byte) (interface{}, error) {
			c := new(C)
			err := json.Unmarshal(b, c)
			return c, err
		}}
	for _, o := range opts {
		o(p)
	}
	return p
}

// Known is a recorded finding: a specific case that fails. Check returns nil if
// it no longer does.
type Known struct {
	What  string
	Check func() error
}

// Prop is a property.
type Prop struct {
	ID          string
	Title       string
	Parts       []*Part
	Known       []Known
	Assumptions []string
}

var props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { props[p.ID] = p }

// Get returns a registered property.
func Get(id string) *Prop { return props[id] }

// IDs lists the registered properties.
func IDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Dir is the scratch directory of the check, prepared by Setup.
var Dir string

// Tier is quick or thorough.
var Tier = "quick"

// Inconclusive is an error of the environment (a tool that could not be
// started, ...), never a violation.
type Inconclusive struct{ Err error }

func (e Inconclusive) Error() string { return "inconclusive: " + e.Err.Error() }

// Narrowed is a failure that a smaller case is expected to show as well.
type Narrowed struct {
	Err  error
	Case interface{}
}

func (e Narrowed) Error() string { return e.Err.Error() }

// runCase runs the oracle on a case, turning panics into failures.
func (p *Part) runCase(c interface{}, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := debug.Stack()
			if len(st) > 6000 {
				st = st[:6000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return p.run(c, o)
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Failure is a failing case, the format of replay files.
type Failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	How      string          `json:"how"` // oracle, crash, hang or memory
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	// Shard reproduces a failure that needs the cases before it.
	Shard *Shard `json:"shard,omitempty"`
	// Measured says that the error is about a quantity that was measured.
	Measured bool `json:"measured,omitempty"`
}

type measured struct{ error }

// Measured is an error about a quantity that was measured, and that something else
// in the process or on the machine may have influenced.
func Measured(format string, a ...any) error { return measured{fmt.Errorf(format, a...)} }

func isMeasured(err error) bool { return errors.As(err, new(measured)) }

// Shard is one worker's share.
type Shard struct {
	Property string `json:"property"`
	Part     string `json:"part"`
	Index    int    `json:"index"`
	Seed     uint64 `json:"seed"`
	Checks   int    `json:"checks"`
	Tier     string `json:"tier"`
	Dir      string `json:"dir"`
	Out      string `json:"out"` // output prefix
	Deadline int64  `json:"deadline"`
}

// Result is what a worker reports.
type Result struct {
	Evals      int               `json:"evals"`
	NonTrivial int               `json:"nontrivial"`
	Cut        bool              `json:"cut"`
	Labels     map[string]int    `json:"labels"`
	Samples    []json.RawMessage `json:"samples"`
	Fail       *Failure          `json:"fail"`
	Err        string            `json:"err"`
}
