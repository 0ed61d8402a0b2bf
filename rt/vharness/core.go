// Command vharness runs simulated executions of the instrumented library. One
// seed (or one recorded choice list) is one exactly repeatable execution.
package main

import (
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"

	"MODULE_PATH/zz_verif/vos"
	"MODULE_PATH/zz_verif/vsim"
)

// ---------------------------------------------------------------- choices

func splitmix(s *uint64) uint64 {
	*s += 0x9E3779B97F4A7C15
	z := *s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

// Stream is one named sequence of choices. In generation mode the values come
// from the seed; in replay mode from the recorded list, 0 (always the simplest
// choice: no fault, no preemption) once it is exhausted.
type Stream struct {
	state  uint64
	rec    []uint32
	replay []uint32
	pos    int
	isRep  bool
}

func (s *Stream) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos] % uint32(n)
		}
		s.pos++
	} else {
		v = uint32(splitmix(&s.state) % uint64(n))
	}
	s.rec = append(s.rec, v)
	return int(v)
}

// Sub draws one value and returns a generator of identical streams derived from
// it, to take the same decisions several times.
func (s *Stream) Sub() func() *Stream {
	v := uint64(s.Intn(1 << 30))
	return func() *Stream {
		n := &Stream{state: mix(v, 0xABCDEF)}
		splitmix(&n.state)
		return n
	}
}

// Chance is true num times out of den (false is the simplest choice).
func (s *Stream) Chance(num, den int) bool { return s.Intn(den) >= den-num }

// Range returns a value in [lo, hi].
func (s *Stream) Range(lo, hi int) int { return lo + s.Intn(hi-lo+1) }

// Weighted returns an index chosen with the given weights.
func (s *Stream) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.Intn(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// ---------------------------------------------------------------- context

// Violation is what a run found.
type Violation struct {
	Sig string
	Msg string
}

type harnessError struct {
	msg string
	// the harness cannot work: nothing is said about the library. Otherwise,
	// the library did what none of its documentation allows and what the
	// harness relies on, such as refusing a fixture.
	fatal bool
}

// Ctx is one simulated run.
type Ctx struct {
	Prop    string
	Seed    uint64
	Tier    int // 0 quick, 1 thorough
	streams map[string]*Stream
	replay  map[string][]uint32

	Counters map[string]int64
	States   map[uint64]struct{}
	Inter    map[uint64]struct{}
	hash     uint64
	nontriv  bool
	op       string
	verbose  bool
	log      []string
	Tasks    int64
	faultN   int64
}

func newCtx(prop string, seed uint64, tier int) *Ctx {
	return &Ctx{Prop: prop, Seed: seed, Tier: tier, streams: map[string]*Stream{}, Counters: map[string]int64{}, States: map[uint64]struct{}{}, Inter: map[uint64]struct{}{}}
}

// S returns the named stream.
func (c *Ctx) S(name string) *Stream {
	s := c.streams[name]
	if s == nil {
		s = &Stream{state: mix(c.Seed, hashStr(name))}
		splitmix(&s.state)
		if c.replay != nil {
			s.isRep = true
			s.replay = c.replay[name]
		}
		c.streams[name] = s
	}
	return s
}

// Note adds a line to the history of the run.
func (c *Ctx) Note(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	c.hash = mix(c.hash, hashStr(s))
	if c.verbose {
		c.log = append(c.log, s)
	}
}

// Op names the operation under way, for reports.
func (c *Ctx) Op(format string, args ...interface{}) {
	c.op = fmt.Sprintf(format, args...)
	c.Note("op %s", c.op)
	c.Counters["operations"]++
}

// Count increments a counter of the evidence.
func (c *Ctx) Count(name string, n int64) { c.Counters[name] += n }

// State records a state reached.
func (c *Ctx) State(h uint64) { c.States[h] = struct{}{}; c.hash = mix(c.hash, h) }

// NonTrivial marks the run as having exercised what the property is about.
func (c *Ctx) NonTrivial() { c.nontriv = true }

// Fail ends the run with a violation.
func (c *Ctx) Fail(sig, format string, args ...interface{}) {
	panic(&Violation{Sig: sig, Msg: fmt.Sprintf(format, args...)})
}

// Check fails the run unless ok.
func (c *Ctx) Check(ok bool, sig, format string, args ...interface{}) {
	if !ok {
		c.Fail(sig, format, args...)
	}
}

func harnessBug(format string, args ...interface{}) {
	panic(harnessError{msg: fmt.Sprintf(format, args...)})
}

// World installs a new simulated machine; faults are counted in the evidence.
func (c *Ctx) World() *vos.World {
	w := vos.NewWorld()
	vos.Use(w)
	return w
}

// Faults adds the faults that fired in w to the counters, and tells how many.
func (c *Ctx) Faults(w *vos.World) int {
	if w == nil {
		return 0
	}
	n := 0
	names := make([]string, 0, len(w.Counts))
	for k := range w.Counts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		v := w.Counts[k]
		c.Counters["fault:"+k] += int64(v)
		n += v
	}
	for _, t := range w.Trace {
		c.Note("fault %s", t)
	}
	w.Counts = map[string]int{}
	w.Trace = nil
	c.faultN += int64(n)
	return n
}

// Try runs fn and returns the value it panicked with (a violation, crash or
// library panic), with the stack.
func Try(fn func()) (r interface{}, stack string) {
	defer func() {
		if r = recover(); r != nil {
			stack = string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

// Guard runs one library operation: a panic or a hang is a violation.
func (c *Ctx) Guard(op string, budget int64, fn func()) {
	c.Op("%s", op)
	vsim.Budget(budget)
	start := vsim.Steps()
	r, stack := Try(fn)
	if d := vsim.Steps() - start; d > c.Counters["max steps of one operation"] {
		c.Counters["max steps of one operation"] = d
	}
	vsim.Budget(0)
	if r != nil {
		c.rethrow(r, stack)
	}
}

// rethrow turns a recovered value into the violation it means.
func (c *Ctx) rethrow(r interface{}, stack string) {
	panic(c.classify(r, stack))
}

func (c *Ctx) classify(r interface{}, stack string) interface{} {
	switch r := r.(type) {
	case *Violation, harnessError, vsim.Crash:
		return r
	case vsim.Hang:
		return &Violation{Sig: "hang: " + opName(c.op), Msg: fmt.Sprintf("%s does not finish: %v\n%s", c.op, r, cutStack(stack))}
	}
	if _, ok := r.(vsim.Deadlock); ok {
		return &Violation{Sig: "deadlock", Msg: fmt.Sprintf("%s: %v\n%s", c.op, r, cutStack(stack))}
	}
	fn, own := panicSite(stack)
	if own {
		return harnessError{msg: fmt.Sprintf("%s (in %s): %v\n%s", opName(c.op), fn, r, cutStack(stack))}
	}
	msg := fmt.Sprint(r)
	return &Violation{Sig: "panic: " + panicClass(msg) + " in " + fn, Msg: fmt.Sprintf("%s panics: %s\n%s", c.op, msg, cutStack(stack))}
}

func opName(op string) string {
	if i := strings.IndexAny(op, " ("); i > 0 {
		return op[:i]
	}
	return op
}

var numRE = regexp.MustCompile(`[0-9]+`)

func panicClass(msg string) string {
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		msg = msg[:i]
	}
	msg = numRE.ReplaceAllString(msg, "N")
	if len(msg) > 80 {
		msg = msg[:80]
	}
	return msg
}

func stackFuncs(stack string) []string {
	lines := strings.Split(stack, "\n")
	// keep what lies below the last "panic(" line
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 2
		}
	}
	var out []string
	for _, l := range lines[start:] {
		if l == "" || l[0] == '\t' || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if i := strings.LastIndexByte(l, '('); i > 0 {
			l = l[:i]
		}
		out = append(out, l)
	}
	return out
}

// panicSite returns the innermost function of the library under test on the
// stack of a panic, and whether the harness itself is to blame.
func panicSite(stack string) (string, bool) {
	const mod = "MODULE_PATH/"
	for _, f := range stackFuncs(stack) {
		if strings.HasPrefix(f, mod+"zz_verif/vharness") || strings.HasPrefix(f, "main.") {
			return f, true
		}
		if strings.HasPrefix(f, mod) && !strings.HasPrefix(f, mod+"zz_verif/") {
			f = strings.TrimPrefix(f, mod)
			if i := strings.Index(f, ".func"); i > 0 { // closures are named after what encloses them
				f = f[:i]
			}
			return f, false
		}
	}
	return "?", true
}

func cutStack(stack string) string {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 2
		}
	}
	lines = lines[start:]
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// ---------------------------------------------------------------- properties

// Prop is one property of the library, decided by many simulated runs.
type Prop struct {
	ID    string
	Fresh bool // each run needs a process of its own
	// Concurrent runs may leave the process unusable when they fail. Some of
	// them are made in a new process, where everything happens for the first
	// time.
	Concurrent bool
	Run        func(c *Ctx)
	Warm       func() // does everything once
}

// isCold tells if a run is made in a new process.
func (p *Prop) isCold(index int) bool {
	return p.Concurrent && mix(uint64(index), 0x51ED270B)%48 == 0
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// runOne performs one run.
func runOne(p *Prop, c *Ctx) (v *Violation) {
	resetGlobals()
	vsim.Reset()
	defer vos.Use(nil)
	r, stack := Try(func() { p.Run(c) })
	vsim.Budget(0)
	if r == nil {
		return nil
	}
	x := c.classify(r, stack)
	if v, ok := x.(*Violation); ok {
		return v
	}
	if _, ok := x.(vsim.Crash); ok {
		x = harnessError{msg: "crash not handled: " + stack, fatal: true}
	}
	he := x.(harnessError)
	if !he.fatal {
		// no run does this on a library that behaves
		line := he.msg
		if i := strings.IndexByte(line, '\n'); i >= 0 {
			line = line[:i]
		}
		return &Violation{Sig: "unexpected: " + panicClass(line), Msg: he.msg}
	}
	fmt.Fprintf(os.Stderr, "HARNESS ERROR property=%s seed=%d: %s\n", p.ID, c.Seed, he.msg)
	os.Exit(3)
	return nil
}

func resetGlobals() {
	vsim.SetOrder(0, 0)
	vos.SeedRand(42)
	vos.Use(nil)
}
