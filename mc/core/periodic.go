package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	vtime "github.com/lightstep/otel-launcher-go/verifshim/vtime"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C13: the periodic reader under a controlled clock and a faulty exporter.

type pcall struct {
	method  byte // E, F, S
	in, out int64
	sum     int64
	err     error
}

type pushExp struct {
	r       *mc.R
	timeout time.Duration
	mu      sync.Mutex
	active  int
	calls   []*pcall
	total   int64
	done    int
	// outcomes is how many outcomes an export may have: 1 success, 2 or
	// failure, 3 or waiting for the context.
	outcomes int
	// jumps says that the clock may jump between the start of a
	// collection and its export.
	jumps bool
}

func (e *pushExp) String() string { return "push" }

func (e *pushExp) export(method byte, ctx context.Context, m data.Metrics) error {
	c := &pcall{method: method, in: vsched.Stamp()}
	e.mu.Lock()
	e.active++
	if e.active > 1 {
		e.r.Failf("C13", "two exports at once")
	}
	n := len(e.calls)
	e.calls = append(e.calls, c)
	for _, p := range pointsOf(m) {
		c.sum += int64(p.Val)
	}
	before := renderTimes(m)
	if method == 'E' {
		d, ok := ctx.Deadline()
		left := d.Sub(vtime.Peek())
		// Collecting takes a few readings of the clock.
		if !ok || left > e.timeout || (!e.jumps && left < e.timeout-time.Millisecond) {
			e.r.Failf("C13", "periodic export with deadline %v (%v), want %v", left, ok, e.timeout)
		}
	}
	if method != 'E' {
		// The context of the call that asked for it.
		k, ok := ctx.Value(callKey{}).(string)
		if !ok {
			e.r.Failf("C13", "%c export without the context of the call", method)
		}
		if _, has := ctx.Deadline(); has {
			e.r.Failf("C13", "%c export with a deadline its caller did not set", method)
		}
		if (ctx.Err() != nil) != (k == "ended") {
			e.r.Failf("C13", "%c export for a caller with a context %s: %v", method, k, ctx.Err())
		}
	}
	e.mu.Unlock()
	vsched.Point(vsched.Always)
	switch e.r.Fault(e.outcomes) {
	case 1:
		c.err = fmt.Errorf("failure %d", n)
	case 2:
		if method == 'E' {
			vsched.Recv(ctx.Done())
			c.err = fmt.Errorf("waited %d: %w", n, ctx.Err())
		} else {
			vsched.Point(vsched.Always)
		}
	}
	e.mu.Lock()
	e.active--
	if after := renderTimes(m); after != before {
		e.r.Failf("C13", "data changed during an export from\n%s\nto\n%s", before, after)
	}
	c.out = vsched.Stamp()
	e.done++
	e.mu.Unlock()
	return c.err
}

func renderTimes(m data.Metrics) string {
	var b strings.Builder
	for _, p := range pointsOf(m) {
		fmt.Fprintf(&b, "%v %v %v\n", p, p.Start, p.End)
	}
	return b.String()
}

func (e *pushExp) ExportMetrics(ctx context.Context, m data.Metrics) error {
	return e.export('E', ctx, m)
}
func (e *pushExp) ShutdownMetrics(ctx context.Context, m data.Metrics) error {
	return e.export('S', ctx, m)
}
func (e *pushExp) ForceFlushMetrics(ctx context.Context, m data.Metrics) error {
	return e.export('F', ctx, m)
}

type callKey struct{}

// callCtx is the context of a call.
func callCtx(ended bool) context.Context {
	if !ended {
		return context.WithValue(context.Background(), callKey{}, "live")
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), callKey{}, "ended"))
	cancel()
	return ctx
}

// until is an operation that waits for a condition.
type until func() bool

//go:norace
func (u until) Enabled() bool { return u() }

func waitFor(f func() bool) { vsched.Point(until(f)) }

type apiCall struct {
	op      byte
	in, out int64
	err     error
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "periodic", Props: []string{"C13"}, Bound: [2]int{2, 3}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			prog := pickT(r, 12, "rfs|F", "T|s", "T|S", "T|F|S", "r|T|S", "TT|S", "rF|T|S", "F|F|S", "S|S", "T|P", "rp|P", "rF|rF|S", "rSF|T", "TT|F|S", "TTT|rF|S", "T|F|P|P", "T|r|F|S", "rf|T|S", "r|T|s", "f|p|P")
			interval, timeout := 10*time.Second, 3*time.Second
			e := &pushExp{r: r, timeout: timeout, outcomes: 3}
			e.jumps = strings.Contains(prog, "TT")
			pr := metric.NewPeriodicReader(e, interval, metric.WithTimeout(timeout))
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(pr, tempoOpt(true)))
			c, _ := p.Meter("m").Int64Counter("c")
			sink.take()
			var mu sync.Mutex
			var calls []apiCall
			var recs []apiCall
			nrec := 0
			fired := 0
			call := func(op byte, f func() error) {
				ac := apiCall{op: op, in: vsched.Stamp()}
				ac.err = f()
				ac.out = vsched.Stamp()
				mu.Lock()
				calls = append(calls, ac)
				mu.Unlock()
			}
			do := func(ops string) {
				for _, o := range []byte(ops) {
					switch o {
					case 'T':
						vsched.Point(vsched.Always)
						if vtime.FireNext() {
							fired++
						}
					case 'F', 'f':
						call('F', func() error { return pr.ForceFlush(callCtx(o == 'f')) })
					case 'S', 's':
						call('S', func() error { return pr.Shutdown(callCtx(o == 's')) })
					case 'p':
						call('F', func() error { return p.ForceFlush(callCtx(false)) })
					case 'P':
						call('S', func() error { return p.Shutdown(callCtx(false)) })
					case 'r':
						mu.Lock()
						i := nrec
						nrec++
						mu.Unlock()
						ac := apiCall{op: 'r', in: vsched.Stamp()}
						c.Add(bg, pow4(i))
						ac.out = vsched.Stamp()
						mu.Lock()
						recs = append(recs, ac)
						mu.Unlock()
					}
				}
			}
			var fs []func()
			for _, ops := range strings.Split(prog, "|") {
				ops := ops
				fs = append(fs, func() { do(ops) })
			}
			r.Par(fs...)
			end := vsched.Stamp()
			nshut := 0
			// Nothing may happen any more.
			n := len(e.calls)
			for i := 0; i < 3; i++ {
				vtime.FireNext()
				vsched.Yield()
			}
			_ = pr.ForceFlush(callCtx(false))
			_ = p.ForceFlush(callCtx(false))
			_ = pr.Shutdown(callCtx(false))
			vsched.Yield()
			if len(e.calls) != n {
				r.Failf("C13", "%c export after Shutdown returned", e.calls[n].method)
			}
			var firstShut int64
			var handed int64
			var ticks int
			for _, x := range e.calls {
				handed += x.sum
				switch x.method {
				case 'S':
					nshut++
				case 'E':
					ticks++
				}
				if x.out == 0 {
					r.Failf("C13", "an export is still running after Shutdown")
				}
			}
			if nshut != 1 {
				r.Failf("C13", "final data exported %d times", nshut)
			}
			if ticks > fired {
				r.Failf("C13", "%d periodic exports for %d expirations", ticks, fired)
			}
			for _, ac := range calls {
				if ac.op == 'S' && (firstShut == 0 || ac.in < firstShut) {
					firstShut = ac.in
				}
			}
			shutErrOK := false
			for _, ac := range calls {
				if ac.op == 'F' {
					// The flush that ran within the call.
					ok, any := false, false
					for _, x := range e.calls {
						if x.method == 'F' && x.in > ac.in && x.out < ac.out {
							any = true
							ok = ok || (x.err == nil && ac.err == nil) || (x.err != nil && errors.Is(ac.err, x.err))
						}
					}
					if !any && ac.out < firstShut {
						r.Failf("C13", "ForceFlush exported nothing")
					}
					if !ok && (ac.err == nil || ac.out < firstShut) {
						r.Failf("C13", "ForceFlush returned %v, its export did not", ac.err)
					}
					// Everything recorded before has been handed over.
					var need, have int64
					for i, rc := range recs {
						_ = i
						if rc.out < ac.in {
							need++
						}
					}
					for _, x := range e.calls {
						if x.in < ac.out {
							have += x.sum
						}
					}
					cnt := int64(0)
					for i := 0; i < nrec; i++ {
						cnt += digit(have, i)
					}
					if ac.err == nil && cnt < need {
						r.Failf("C13", "ForceFlush returned with %d of %d earlier measurements exported", cnt, need)
					}
				}
				if ac.op == 'S' {
					for _, x := range e.calls {
						if x.method == 'S' && x.in > ac.in && x.out < ac.out {
							if (x.err == nil && ac.err == nil) || (x.err != nil && errors.Is(ac.err, x.err)) {
								shutErrOK = true
							}
						}
						if x.in > ac.out && ac.err == nil {
							r.Failf("C13", "%c export began after Shutdown returned", x.method)
						}
					}
				}
			}
			if !shutErrOK {
				r.Failf("C13", "no Shutdown call returned the result of the final export: %v", calls)
			}
			// Every measurement that completed before Shutdown began is
			// exported once, none twice.
			must := map[int]bool{}
			for _, rc := range recs {
				if rc.out < firstShut {
					must[len(must)] = true
				}
			}
			cnt := 0
			for i := 0; i < nrec; i++ {
				d := digit(handed, i)
				if d > 1 {
					r.Failf("C13", "measurement %d exported %d times", i, d)
				}
				cnt += int(d)
			}
			if cnt < len(must) {
				r.Failf("C13", "%d of %d measurements made before Shutdown were exported", cnt, len(must))
			}
			for _, x := range e.calls {
				back := x.err == nil || x.method != 'F'
				for _, ac := range calls {
					back = back || (ac.op == 'F' && errors.Is(ac.err, x.err))
				}
				if !back {
					r.Failf("C13", "the error of a flush did not come back: %v", x.err)
				}
			}
			// Errors of periodic exports were reported, once each.
			errs := sink.take()
			for _, x := range e.calls {
				if x.method != 'E' || x.err == nil {
					continue
				}
				k := 0
				for _, er := range errs {
					if errors.Is(er, x.err) {
						k++
					}
				}
				if k != 1 {
					r.Failf("C13", "periodic export error %v reported %d times", x.err, k)
				}
			}
			for _, er := range errs {
				of := false
				for _, x := range e.calls {
					of = of || (x.method == 'E' && x.err != nil && errors.Is(er, x.err))
				}
				if !of {
					r.Failf("C13", "error reported that no periodic export returned: %v", er)
				}
			}
			_ = end
		},
	})
	// Exactly one export per interval while nothing else happens.
	mc.Register(&mc.Scenario{
		Name: "periodic-ticks", Props: []string{"C13"}, Bound: [2]int{2, 4}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			delta := r.ChooseBool()
			var interval, timeout time.Duration
			var opts []metric.PeriodicReaderOption
			wantI, wantT := 30*time.Second, 30*time.Second
			switch r.Choose(4) {
			case 1:
				interval = 7 * time.Second
				wantI, wantT = interval, interval
			case 2:
				interval, timeout = 5*time.Second, 2*time.Second
				opts = append(opts, metric.WithTimeout(timeout))
				wantI, wantT = interval, timeout
			case 3:
				interval = -1
				opts = append(opts, metric.WithTimeout(-5))
			}
			if interval == 0 {
				// No interval: both defaults.
				opts = nil
			}
			e := &pushExp{r: r, timeout: wantT, outcomes: 2}
			pr := metric.NewPeriodicReader(e, interval, opts...)
			t0 := vtime.Peek()
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(pr, tempoOpt(delta)))
			// Also with nothing to export.
			var c apimetric.Int64Counter
			if !r.ChooseBool() {
				c, _ = p.Meter("m").Int64Counter("c")
			}
			last := t0
			var want int64
			fs := []func(){func() {
				for i := 0; i < 3; i++ {
					if i != 1 && c != nil {
						c.Add(bg, pow4(i))
						want += pow4(i)
					}
					waitFor(func() bool { return vtime.PendingTimers() > 0 })
					vtime.FireNext()
					waitFor(func() bool { return e.done == i+1 })
					// The clock moved by the interval, give or take
					// its readings.
					d := vtime.Peek().Sub(last)
					if d < wantI-time.Millisecond || d > wantI+time.Millisecond {
						r.Failf("C13", "export %d came %v after the previous, want %v", i, d, wantI)
					}
					last = vtime.Peek()
				}
			}}
			r.Par(fs...)
			if len(e.calls) != 3 {
				r.Failf("C13", "%d exports in 3 intervals", len(e.calls))
			}
			var got int64
			for i, x := range e.calls {
				if x.method != 'E' {
					r.Failf("C13", "method %c", x.method)
				}
				got += x.sum
				if !delta {
					got = x.sum
				}
				w := want
				if c != nil && i < 2 {
					w = 1
				}
				if got != w {
					r.Failf("C13", "after export %d the total exported is %d, want %d", i, got, w)
				}
			}
			// A flush of nothing new is an export too.
			if err := p.ForceFlush(callCtx(false)); err != nil && e.calls[len(e.calls)-1].err == nil {
				r.Failf("C13", "ForceFlush: %v", err)
			}
			if len(e.calls) != 4 || e.calls[3].method != 'F' {
				r.Failf("C13", "ForceFlush made %d exports", len(e.calls)-3)
			}
			if err := p.Shutdown(callCtx(false)); err != nil && e.calls[len(e.calls)-1].err == nil {
				r.Failf("C13", "Shutdown: %v", err)
			}
			if len(e.calls) != 5 || e.calls[4].method != 'S' {
				r.Failf("C13", "Shutdown made %d exports", len(e.calls)-4)
			}
		},
	})
}

var _ apimetric.Meter
