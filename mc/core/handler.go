package main

import (
	"context"
	"errors"
	"math"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	vtime "github.com/lightstep/otel-launcher-go/verifshim/vtime"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// An error handler that uses the API itself, as one that counts the errors.

type funcHandler func(error)

func (f funcHandler) Handle(err error) { f(err) }

var handlerErrs = []string{"infinite", "NaN", "negative", "empty key", "observed infinite", "observed empty key", "late observation", "not declared", "registered twice", "export failed"}
var handlerOps = []string{"count on an existing counter", "count on the instrument", "count the error by name", "create and count", "new meter", "register a callback", "collect by another reader", "the same error again"}

type failExp struct{ plainExp }

func handlerBody(r *mc.R) {
	what, op := r.Choose(len(handlerErrs)), r.Choose(len(handlerOps))
	par := r.ChooseBool()
	r.Logf("%s: %s, concurrent %v", handlerErrs[what], handlerOps[op], par)
	if what == 3 && op == 7 || what == 5 && op == 7 {
		// A handler that uses an empty key itself waits for itself.
		return
	}
	vtime.Advance(10 * time.Minute)
	rd, rd2, rd3 := metric.NewManualReader("rd"), metric.NewManualReader("rd2"), metric.NewManualReader("rd3")
	p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(false)), metric.WithReader(rd2, tempoOpt(false)), metric.WithReader(rd3, tempoOpt(false)))
	m := p.Meter("m")
	fc, _ := m.Float64Counter("fc")
	errs, _ := m.Int64Counter("errors")
	og, _ := m.Float64ObservableGauge("og")
	undeclared, _ := m.Float64ObservableGauge("undeclared")

	var mu sync.Mutex
	handled := 0
	counted := map[string]float64{}
	count := func(name string, v float64) {
		mu.Lock()
		counted[name] += v
		mu.Unlock()
	}
	bad := func() { fc.Add(bg, math.Inf(1)) }
	switch what {
	case 1:
		bad = func() { fc.Add(bg, math.NaN()) }
	case 2:
		bad = func() { fc.Add(bg, -1) }
	case 3:
		bad = func() {
			fc.Add(bg, 1, apimetric.WithAttributes(attribute.Int("", 1), attribute.Int("a", 1)))
			count("fc", 1)
		}
	case 8:
		bad = func() { rd.Register(rd2) }
	}
	depth := 0
	handle := func(error) {
		mu.Lock()
		handled++
		depth++
		d := depth
		mu.Unlock()
		defer func() { mu.Lock(); depth--; mu.Unlock() }()
		if d > 3 {
			return
		}
		switch op {
		case 0:
			errs.Add(bg, 1)
			count("errors", 1)
		case 1:
			fc.Add(bg, 1)
			count("fc", 1)
		case 2:
			errs.Add(bg, 1, apimetric.WithAttributes(attribute.String("error", "x")))
			count("errors", 1)
		case 3:
			c, err := m.Int64Counter("new")
			if err != nil {
				r.Failf(r.Prop(), "%v", err)
			}
			c.Add(bg, 1)
			count("new", 1)
		case 4:
			c, err := p.Meter("n").Int64Counter("new")
			if err != nil {
				r.Failf(r.Prop(), "%v", err)
			}
			c.Add(bg, 1)
			count("new", 1)
		case 5:
			if _, err := m.RegisterCallback(func(context.Context, apimetric.Observer) error { return nil }, og); err != nil {
				r.Failf(r.Prop(), "%v", err)
			}
		case 6:
			if d == 1 {
				rd3.Produce(nil)
			}
		case 7:
			if what < 5 || what == 8 {
				bad()
			} else {
				fc.Add(bg, math.Inf(1))
			}
		}
	}
	var late apimetric.Observer
	reg, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		mu.Lock()
		late = o
		mu.Unlock()
		switch what {
		case 4:
			o.ObserveFloat64(og, math.Inf(-1))
		case 5:
			o.ObserveFloat64(og, 2, apimetric.WithAttributes(attribute.Int("", 1)))
		case 7:
			o.ObserveFloat64(undeclared, 2)
		}
		return nil
	}, og)
	if err != nil {
		r.Failf(r.Prop(), "%v", err)
	}
	var pr *metric.PeriodicReader
	exp := &failExp{}
	otel.SetErrorHandler(funcHandler(handle))
	defer otel.SetErrorHandler(sink)
	do := func() {
		switch what {
		case 4, 5, 7:
			rd.Produce(nil)
		case 6:
			rd.Produce(nil)
			mu.Lock()
			l := late
			mu.Unlock()
			l.ObserveFloat64(og, 1)
		case 9:
			pr = metric.NewPeriodicReader(exp, 10*time.Second)
			pp := newProvider(sdkinstrument.Performance{}, metric.WithReader(pr))
			waitFor(func() bool { return vtime.PendingTimers() > 0 })
			vtime.FireNext()
			waitFor(func() bool { mu.Lock(); defer mu.Unlock(); return handled > 0 })
			_ = pp.Shutdown(bg)
		default:
			bad()
		}
	}
	other := func() {
		if !par {
			return
		}
		fc.Add(bg, 1, apimetric.WithAttributes(attribute.Int("a", 2)))
		count("fc", 1)
		rd2.Produce(nil)
	}
	r.Par(do, other)
	if handled == 0 {
		r.Failf(r.Prop(), "not reported")
	}
	_ = reg.Unregister()
	got := totals(rd.Produce(nil))
	for _, n := range []string{"fc", "errors", "new"} {
		if got[n] != counted[n] {
			r.Failf(r.Prop(), "%s: %v reported, %v recorded", n, got[n], counted[n])
		}
	}
}

func (e *failExp) ExportMetrics(context.Context, data.Metrics) error {
	return errors.New("export failed")
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "handler-nested", Props: []string{"C22", "C24"}, Bound: [2]int{1, 2}, Race: [2]int{0, 1}, MapOffs: []uint64{0},
		Doc:  "an error handler that uses the API itself, alone and while others do",
		Body: handlerBody,
	})
}
