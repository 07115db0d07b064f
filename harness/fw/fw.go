// Package fw is the property-based testing framework of /verif: a property is a
// generator of JSON-able cases plus an interpreter that runs one case against the
// real code and compares it with an oracle. rapid (vendored) does generation and
// shrinking; a failure is saved as the case itself, so replays bypass rapid.
package fw

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Prop is one registered property.
type Prop struct {
	ID    string
	Title string
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Level is "exploration" or "fault_enumeration".
	Level       string
	Assumptions []string
	// Quick and Thorough are total numbers of generated cases over all workers.
	Quick, Thorough int
	// Race builds and runs the check with the race detector.
	Race bool
	// Workers limits the number of parallel worker processes (default 8).
	Workers int
	// HangSec is how long one case may take before it counts as hanging.
	HangSec int
	// Flaky marks properties whose cases contain real concurrency: the replay
	// runs the case several times.
	Flaky bool

	gen    func(t *rapid.T) any
	decode func(b []byte) (any, error)
	run    func(c any, o *Obs)
	small  []any
}

var registry = map[string]*Prop{}

// Register adds a property with its generator and interpreter.
func Register[C any](p Prop, gen func(t *rapid.T) C, run func(c C, o *Obs)) *Prop {
	pp := p
	if pp.Level == "" {
		pp.Level = "exploration"
	}
	if pp.Workers == 0 {
		pp.Workers = 8
	}
	if pp.HangSec == 0 {
		pp.HangSec = 90
	}
	pp.gen = func(t *rapid.T) any { return gen(t) }
	pp.decode = func(b []byte) (any, error) {
		var c C
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if err := d.Decode(&c); err != nil {
			return nil, err
		}
		return c, nil
	}
	pp.run = func(c any, o *Obs) { run(c.(C), o) }
	if _, dup := registry[pp.ID]; dup {
		panic("duplicate property " + pp.ID)
	}
	registry[pp.ID] = &pp
	return &pp
}

// Fixed adds hand-written cases that every run executes first.
func (p *Prop) Fixed(cs ...any) *Prop {
	p.small = append(p.small, cs...)
	return p
}

// IDs lists the registered properties.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Get returns a registered property, or nil.
func Get(id string) *Prop { return registry[id] }

// Obs observes the run of one case.
type Obs struct {
	labels     map[string]int
	nontrivial bool
	evals      int
	tmpRoot    string
	tmpN       int
	cleanups   []func()
	// Known is set when the case is replayed as a known finding: generators'
	// exclusions do not apply.
	Known bool
}

type failure struct{ msg string }

// Label counts an event of this case (once per case per call).
func (o *Obs) Label(format string, a ...any) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	o.labels[s]++
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Evals adds n oracle comparisons.
func (o *Obs) Evals(n int) { o.evals += n }

// Failf reports a violation and stops the case.
func (o *Obs) Failf(format string, a ...any) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// NoErr reports a violation if err is not nil.
func (o *Obs) NoErr(err error, format string, a ...any) {
	if err != nil {
		o.Failf("%s: unexpected error: %v", fmt.Sprintf(format, a...), err)
	}
}

// TempDir makes a directory that is removed after the case.
func (o *Obs) TempDir() string {
	o.tmpN++
	d := filepath.Join(o.tmpRoot, fmt.Sprintf("case-%d", o.tmpN))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(infraError{err})
	}
	o.cleanups = append(o.cleanups, func() { _ = os.RemoveAll(d) })
	return d
}

// Infra aborts the worker with an error exit (never a violation).
func (o *Obs) Infra(err error) {
	if err != nil {
		panic(infraError{err})
	}
}

// Cleanup runs f after the case.
func (o *Obs) Cleanup(f func()) { o.cleanups = append(o.cleanups, f) }

// Go runs the functions at the same time, each with its own observer, and waits
// for all of them. A violation in any of them is a violation of the case.
func (o *Obs) Go(fs ...func(o *Obs)) {
	type result struct {
		o *Obs
		p any
	}
	out := make(chan result, len(fs))
	start := make(chan struct{})
	for _, f := range fs {
		f := f
		sub := &Obs{labels: map[string]int{}, tmpRoot: o.tmpRoot, Known: o.Known}
		go func() {
			var p any
			defer func() { out <- result{sub, p} }()
			defer func() {
				switch r := recover().(type) {
				case nil:
				case failure, infraError:
					p = r
				default:
					p = failure{fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
				}
			}()
			<-start
			f(sub)
		}()
	}
	close(start)
	var fail any
	for range fs {
		r := <-out
		if r.p != nil && fail == nil {
			fail = r.p
		}
		o.evals += r.o.evals
		o.nontrivial = o.nontrivial || r.o.nontrivial
		for l, n := range r.o.labels {
			o.labels[l] += n
		}
	}
	if fail != nil {
		panic(fail)
	}
}

type infraError struct{ err error }

// runCase runs one case and returns the violation message, if any.
func (p *Prop) runCase(c any, tmpRoot string, known bool) (o *Obs, msg string) {
	o = &Obs{labels: map[string]int{}, tmpRoot: tmpRoot, Known: known}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch f := r.(type) {
				case failure:
					msg = f.msg
				case infraError:
					panic(f)
				default:
					msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
				}
			}
		}()
		p.run(c, o)
	}()
	for i := len(o.cleanups) - 1; i >= 0; i-- {
		func() {
			defer func() { _ = recover() }()
			o.cleanups[i]()
		}()
	}
	return o, msg
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/fw/") || strings.Contains(l, "verifbond/fw.") {
			break
		}
		keep = append(keep, l)
	}
	if len(keep) > 60 {
		keep = keep[:60]
	}
	return strings.Join(keep, "\n")
}

func hashOf(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}
