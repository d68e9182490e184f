package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	vtime "github.com/lightstep/otel-launcher-go/verifshim/vtime"
)

// plainExp keeps what it is given: method and total per metric name.
type plainExp struct {
	mu    sync.Mutex
	calls []string
}

func (e *plainExp) String() string { return "plain" }
func (e *plainExp) add(m string, d data.Metrics) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.calls = append(e.calls, m+" "+showMap(totals(d)))
	return nil
}
func (e *plainExp) ExportMetrics(_ context.Context, d data.Metrics) error     { return e.add("E", d) }
func (e *plainExp) ShutdownMetrics(_ context.Context, d data.Metrics) error   { return e.add("S", d) }
func (e *plainExp) ForceFlushMetrics(_ context.Context, d data.Metrics) error { return e.add("F", d) }
func (e *plainExp) take() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	s := fmt.Sprint(e.calls)
	e.calls = nil
	return s
}

func totals(d data.Metrics) map[string]float64 {
	m := map[string]float64{}
	for _, p := range pointsOf(d) {
		m[p.Name] += p.Val
	}
	return m
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "reader-twice", Props: []string{"C14"}, Bound: [2]int{1, 2}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Doc: "a reader registered a second time stays with the first provider, and that is reported once",
		Body: func(r *mc.R) {
			periodic := r.ChooseBool()
			way := r.Choose(4) // the second provider: alone, after another reader, before it; the same provider
			again := r.ChooseBool()
			var rd metric.Reader
			man := metric.NewManualReader("twice")
			exp := &plainExp{}
			rd = man
			if periodic {
				rd = metric.NewPeriodicReader(exp, 10*time.Second)
			}
			other := metric.NewManualReader("other")
			sink.take()
			dup := metric.WithReader(rd, tempoOpt(false))
			var p1, p2 *metric.MeterProvider
			regs := 1
			switch way {
			case 0:
				p1 = newProvider(sdkinstrument.Performance{}, dup)
				p2 = newProvider(sdkinstrument.Performance{}, dup)
			case 1:
				p1 = newProvider(sdkinstrument.Performance{}, dup)
				p2 = newProvider(sdkinstrument.Performance{}, metric.WithReader(other, tempoOpt(false)), dup)
			case 2:
				p1 = newProvider(sdkinstrument.Performance{}, dup)
				p2 = newProvider(sdkinstrument.Performance{}, dup, metric.WithReader(other, tempoOpt(false)))
			case 3:
				p1 = newProvider(sdkinstrument.Performance{}, dup, metric.WithReader(other, tempoOpt(false)), dup)
			}
			if again {
				regs++
				newProvider(sdkinstrument.Performance{}, dup)
			}
			errs := sink.take()
			n := 0
			for _, e := range errs {
				if errors.Is(e, metric.ErrMultipleReaderRegistration) {
					n++
				}
			}
			if n != regs || len(errs) != regs {
				r.Failf("C14", "%d further registrations reported as %v", regs, errs)
			}
			c1, err := p1.Meter("m").Int64Counter("one")
			if err != nil {
				r.Failf("C14", "counter: %v", err)
			}
			c1.Add(bg, 1)
			otherWant := map[string]float64{"one": 1}
			if p2 != nil {
				c2, err := p2.Meter("m").Int64Counter("two")
				if err != nil {
					r.Failf("C14", "counter of the second provider: %v", err)
				}
				c2.Add(bg, 16)
				otherWant = map[string]float64{"two": 16}
			}
			checkOther := func() {
				if way == 0 {
					return
				}
				if got := totals(other.Produce(nil)); showMap(got) != showMap(otherWant) {
					r.Failf("C14", "the other reader has %v, want %v", got, otherWant)
				}
			}
			checkOther()
			if !periodic {
				for i := 1; i < 3; i++ {
					if got := totals(man.Produce(nil)); showMap(got) != showMap(map[string]float64{"one": float64(i)}) {
						r.Failf("C14", "the reader has %v", got)
					}
					c1.Add(bg, 1)
				}
				return
			}
			tick := func(n int) {
				exp.take()
				r.Par(func() {
					waitFor(func() bool { return vtime.PendingTimers() > 0 })
					vtime.FireNext()
					waitFor(func() bool { exp.mu.Lock(); defer exp.mu.Unlock(); return len(exp.calls) >= n })
				})
			}
			if k := vtime.PendingTimers(); k > 1 {
				r.Failf("C14", "%d export loops run", k)
			}
			tick(1)
			if s := exp.take(); s != "[E one=1]" {
				r.Failf("C14", "a tick exported %s", s)
			}
			if k := vtime.PendingTimers(); k != 1 {
				r.Failf("C14", "%d export loops run", k)
			}
			ps := []*metric.MeterProvider{p1}
			if p2 != nil {
				ps = append(ps, p2)
			}
			// Whoever flushes or shuts down, it is the first provider's data.
			want := "[F one=1]"
			if way == 3 {
				want = "[F one=1 F one=1]"
			}
			if r.ChooseBool() {
				ps[0], ps[len(ps)-1] = ps[len(ps)-1], ps[0]
			}
			for _, p := range ps {
				if err := p.ForceFlush(bg); err != nil {
					r.Failf("C14", "ForceFlush: %v", err)
				}
				if s := exp.take(); s != want {
					r.Failf("C14", "a flush exported %s", s)
				}
			}
			shut := 0
			for _, p := range ps {
				_ = p.Shutdown(bg)
				s := exp.take()
				switch s {
				case "[S one=1]":
					shut++
				case "[]":
				default:
					r.Failf("C14", "a shutdown exported %s", s)
				}
			}
			if shut != 1 {
				r.Failf("C14", "final data exported %d times", shut)
			}
			for i := 0; i < 2; i++ {
				vtime.FireNext()
				vsched.Yield()
			}
			if s := exp.take(); s != "[]" {
				r.Failf("C14", "after shutdown: %s", s)
			}
			checkOther()
		},
	})
}
