// Package vsched is a deterministic cooperative scheduler: it runs a handful
// of goroutines ("threads") of the real code one at a time and decides, at
// every synchronisation operation, which one goes next.  A complete run is
// determined by the vector of decisions, which an explorer (explore.go)
// enumerates systematically.
//
// All bookkeeping is in go:norace functions and the hand-offs are hidden from
// the race detector, so that in a -race build the happens-before edges are
// exactly those of the code under test.
package vsched

import (
	"fmt"
	"runtime"
)

// Pending is implemented by the operation a thread is about to perform.
type Pending interface {
	// Enabled says whether the operation can proceed now.
	Enabled() bool
}

const (
	maxThreads = 32
	maxChoices = 1 << 14
)

type thread struct {
	id      int
	wake    chan struct{}
	pend    Pending
	yield   bool
	done    bool
	started bool
	name    string
}

// Choice is one recorded decision.
type Choice struct {
	N    uint8 // number of alternatives
	Cost uint8 // cost of taking a non-default alternative
	Kind uint8 // 0 = thread, 1 = data
	Got  uint8
}

type state struct {
	active   bool
	aborting bool
	threads  [maxThreads]thread
	n        int
	live     int
	cur      int
	prefix   []uint8
	ntrace   int
	steps    int
	maxSteps int
	diverged int
	overrun  bool
	deadlock bool
	panicked bool
	panicMsg string
	failMsg  string
	fin      chan struct{}
	clock    int64 // logical time, for call/return stamps
	quiet    int
}

var s state
var trace [maxChoices]Choice

//go:norace
func Active() bool { return s.active }

// Always is the always-enabled operation.
type always struct{}

func (always) Enabled() bool { return true }

var Always Pending = always{}

// Point is called before every visible operation.
//
//go:norace
func Point(p Pending) {
	if !s.active {
		return
	}
	if s.quiet > 0 && p.Enabled() {
		return
	}
	t := &s.threads[s.cur]
	t.pend = p
	sw(t)
	t.pend = nil
}

// Quiet suspends (true) or resumes (false) preemption: while quiet, a thread
// keeps running unless it has to block.  Used for set-up and final phases.
//
//go:norace
func Quiet(on bool) {
	if on {
		s.quiet++
	} else {
		s.quiet--
	}
}

// Yield is a point at which the thread wants others to make progress.
//
//go:norace
func Yield() {
	if !s.active {
		runtime.Gosched()
		return
	}
	t := &s.threads[s.cur]
	t.pend = Always
	t.yield = true
	sw(t)
	t.yield = false
	t.pend = nil
}

// Stamp returns a fresh logical time.
//
//go:norace
func Stamp() int64 {
	s.clock++
	return s.clock
}

// Me returns the id of the running thread, or -1.
//
//go:norace
func Me() int {
	if !s.active {
		return -1
	}
	return s.cur
}

//go:norace
func enabledOf(t *thread) bool {
	return !t.done && t.pend != nil && t.pend.Enabled()
}

//go:norace
func decide(n int, cost uint8, kind uint8) int {
	pos := s.ntrace
	if pos >= maxChoices {
		s.overrun = true
		return 0
	}
	c := 0
	if pos < len(s.prefix) {
		c = int(s.prefix[pos])
		if c >= n {
			s.diverged++
			c = 0
		}
	}
	trace[pos] = Choice{N: uint8(n), Cost: cost, Kind: kind, Got: uint8(c)}
	s.ntrace++
	return c
}

// Choose is an environment (data) choice among n alternatives.
//
//go:norace
func Choose(n int, cost uint8) int {
	if !s.active || n <= 1 {
		return 0
	}
	return decide(n, cost, 1)
}

// pick returns the next thread to run, or nil.
//
//go:norace
func pick(self *thread) *thread {
	s.steps++
	if s.steps > s.maxSteps {
		s.overrun = true
		return nil
	}
	var opts [maxThreads]*thread
	n := 0
	selfOK := false
	if self != nil && !self.done && !self.yield && enabledOf(self) {
		opts[0] = self
		n = 1
		selfOK = true
	}
	for i := 0; i < s.n; i++ {
		t := &s.threads[i]
		if t == self || t.yield || !enabledOf(t) {
			continue
		}
		opts[n] = t
		n++
	}
	if n == 0 {
		// Only yielding threads can go on.
		for i := 0; i < s.n; i++ {
			t := &s.threads[i]
			if t.yield && enabledOf(t) {
				opts[n] = t
				n++
			}
		}
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return opts[0]
	}
	var cost uint8
	if selfOK {
		cost = 1
	}
	return opts[decide(n, cost, 0)]
}

//go:norace
func sw(t *thread) {
	nt := pick(t)
	if nt == t {
		return
	}
	if nt == nil {
		stop()
		park(t)
		return
	}
	s.cur = nt.id
	raceOff()
	nt.wake <- struct{}{}
	<-t.wake
	raceOn()
}

//go:norace
func park(t *thread) {
	raceOff()
	<-t.wake // never
	raceOn()
}

// stop ends the execution early.
//
//go:norace
func stop() {
	if !s.overrun && !s.panicked && s.failMsg == "" {
		s.deadlock = true
	}
	s.active = false
	s.aborting = true
	raceOff()
	s.fin <- struct{}{}
	raceOn()
}

// Fail aborts the execution, recording a property violation seen by a thread.
//
//go:norace
func Fail(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if s.failMsg == "" {
		s.failMsg = msg
	}
}

//go:norace
func spawn(name string) *thread {
	if s.n >= maxThreads {
		panic("vsched: too many threads")
	}
	t := &s.threads[s.n]
	*t = thread{id: s.n, wake: make(chan struct{}), pend: Always, name: name}
	s.n++
	s.live++
	return t
}

// Go starts f as a new thread (or goroutine when no exploration is active).
//
//go:norace
func Go(f func()) {
	if !s.active {
		go f()
		return
	}
	t := spawn("go")
	go body(t, f)
	Point(Always)
}

// Handle allows waiting for a thread started by Start.
type Handle struct {
	t  *thread
	hb chan struct{}
}

// Enabled implements Pending.
//
//go:norace
func (h *Handle) Enabled() bool { return h.t.done }

// Start starts f as a named thread without a scheduling point.
//
//go:norace
func Start(name string, f func()) *Handle {
	h := &Handle{hb: make(chan struct{}, 1)}
	h.t = spawn(name)
	go body(h.t, func() {
		defer func() { h.hb <- struct{}{} }()
		f()
	})
	return h
}

// Join waits for the thread to end.
//
//go:norace
func (h *Handle) Join() {
	if h.t.done {
		<-h.hb
		return
	}
	t := &s.threads[s.cur]
	t.pend = h
	sw(t)
	t.pend = nil
	<-h.hb
}

//go:norace
func body(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	t.started = true
	t.pend = nil
	run(f)
	exit(t)
}

//go:norace
func notePanic(r interface{}) {
	buf := make([]byte, 8192)
	buf = buf[:runtime.Stack(buf, false)]
	s.panicked = true
	s.panicMsg = fmt.Sprintf("panic: %v\n%s", r, buf)
}

func run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			notePanic(r)
		}
	}()
	f()
}

// joined gives the happens-before edge from the end of every thread to the
// final oracle.
var joined = make(chan struct{}, maxThreads)

//go:norace
func exit(t *thread) {
	joined <- struct{}{}
	if s.aborting {
		return
	}
	t.done = true
	t.pend = nil
	s.live--
	if s.panicked || s.failMsg != "" {
		stop()
		return
	}
	if s.live == 0 {
		s.active = false
		raceOff()
		s.fin <- struct{}{}
		raceOn()
		return
	}
	nt := pick(t)
	if nt == nil {
		stop()
		return
	}
	s.cur = nt.id
	raceOff()
	nt.wake <- struct{}{}
	raceOn()
}

// Outcome describes one execution.
type Outcome struct {
	Deadlock bool
	Overrun  bool
	Panic    string
	Fail     string
	Steps    int
	Diverged int
	Trace    []Choice
	Blocked  string
}

var epoch int64

// Epoch numbers the executions.
//
//go:norace
func Epoch() int64 { return epoch }

// Run executes the threads under the decision vector prefix (default
// decisions afterwards).
//
//go:norace
func Run(prefix []uint8, maxSteps int, threads []func()) Outcome {
	for len(joined) > 0 {
		<-joined
	}
	epoch++
	s = state{prefix: prefix, maxSteps: maxSteps, fin: make(chan struct{}, 1)}
	for i := range threads {
		t := spawn(fmt.Sprint("T", i))
		go body(t, threads[i])
	}
	s.active = true
	nt := pick(nil)
	s.cur = nt.id
	raceOff()
	nt.wake <- struct{}{}
	<-s.fin
	raceOn()
	for i := 0; i < s.n && len(joined) > 0; i++ {
		<-joined
	}
	out := Outcome{
		Deadlock: s.deadlock,
		Overrun:  s.overrun,
		Panic:    s.panicMsg,
		Fail:     s.failMsg,
		Steps:    s.steps,
		Diverged: s.diverged,
		Trace:    trace[:s.ntrace],
	}
	if s.deadlock {
		for i := 0; i < s.n; i++ {
			t := &s.threads[i]
			if !t.done {
				out.Blocked += fmt.Sprintf(" %d:%s waits %T", t.id, t.name, t.pend)
			}
		}
	}
	return out
}
