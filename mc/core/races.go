package main

import (
	"context"
	"fmt"
	"math"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	vtime "github.com/lightstep/otel-launcher-go/verifshim/vtime"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C24: all pairs and triples of API calls.  Nothing here takes a lock of its
// own: that would hide races from the detector.

type discard struct{}

func (discard) Handle(error) {}

type raceExp struct{}

func (raceExp) String() string { return "race" }
func (raceExp) read(m data.Metrics) error {
	touch(m)
	vsched.Point(vsched.Always)
	touch(m)
	return nil
}
func (e raceExp) ExportMetrics(_ context.Context, m data.Metrics) error     { return e.read(m) }
func (e raceExp) ShutdownMetrics(_ context.Context, m data.Metrics) error   { return e.read(m) }
func (e raceExp) ForceFlushMetrics(_ context.Context, m data.Metrics) error { return e.read(m) }

type raceRun struct {
	p       *metric.MeterProvider
	a, b    *metric.ManualReader
	m       apimetric.Meter
	c       apimetric.Int64Counter
	h       apimetric.Float64Histogram
	g       apimetric.Float64Gauge
	u       apimetric.Float64UpDownCounter
	oc      apimetric.Int64ObservableCounter
	regs    [2]apimetric.Registration
	err     error
	obs     apimetric.Observer
	outputs data.Metrics
}

const nRaceOps = 19

var raceNames = [nRaceOps]string{"add", "add-kv", "histogram", "gauge", "updown", "collect-A", "collect-B-reuse", "create", "create-conflict",
	"conflict-text", "register", "unregister", "meter", "flush", "shutdown", "create-longer-description", "tick", "invalid", "record-collect-B"}

var raceSetTab [4]apimetric.MeasurementOption

func init() {
	for k := range raceSetTab {
		raceSetTab[k] = apimetric.WithAttributeSet(attribute.NewSet(attribute.Int("k", k), attribute.String("long", fmt.Sprint("value", k))))
	}
}

func raceSets(k int) apimetric.MeasurementOption { return raceSetTab[k] }

// touch reads all that a collection returned.
func touch(m data.Metrics) (t uint64) {
	for i := range m.Scopes {
		s := &m.Scopes[i]
		t += uint64(len(s.Library.Name))
		for j := range s.Instruments {
			in := &s.Instruments[j]
			t += uint64(len(in.Descriptor.Name) + len(in.Descriptor.Description))
			for k := range in.Points {
				p := &in.Points[k]
				t += uint64(p.Attributes.Len()) + uint64(p.Start.Unix()) + uint64(p.End.Unix()) + uint64(p.Temporality)
				if v, ok := p.Attributes.Value("k"); ok {
					t += uint64(v.AsInt64())
				}
				switch a := p.Aggregation.(type) {
				case aggregation.Histogram:
					t += uint64(a.Sum()) + a.Count() + uint64(a.Min()) + uint64(a.Max()) + a.ZeroCount() + uint64(a.Scale())
					_, pos := buckets(a.Positive())
					_, neg := buckets(a.Negative())
					for _, c := range append(pos, neg...) {
						t += c
					}
				case aggregation.MinMaxSumCount:
					t += uint64(a.Sum()) + a.Count() + uint64(a.Min()) + uint64(a.Max())
				case aggregation.Sum:
					t += uint64(a.Sum())
				case aggregation.Gauge:
					t += uint64(a.Gauge())
				}
			}
		}
	}
	return t
}

func newRace(cfg int, ops ...int) *raceRun {
	periodic := false
	for _, o := range ops {
		periodic = periodic || o == 13 || o == 14 || o == 16
	}
	x := &raceRun{a: metric.NewManualReader("a"), b: metric.NewManualReader("b")}
	otel.SetErrorHandler(discard{})
	var perf sdkinstrument.Performance
	aopts := []view.Option{tempoOpt(true)}
	bopts := []view.Option{tempoOpt(false)}
	switch cfg {
	case 1:
		perf = sdkinstrument.Performance{IgnoreCollisions: true, InactiveCollectionPeriods: 1}
	case 2:
		aopts = append(aopts, view.WithClause(view.MatchInstrumentName("c"), view.WithName("renamed"), view.WithKeys([]attribute.Key{"k"})),
			view.WithClause(view.MatchInstrumentName("h"), view.WithAggregation(aggregation.MinMaxSumCountKind), view.WithKeys(nil)))
		bopts = append(bopts, view.WithClause(view.MatchInstrumentName("g"), view.WithAggregation(aggregation.DropKind)),
			view.WithClause(view.MatchInstrumentName("c")), view.WithClause(view.MatchInstrumentName("c"), view.WithName("c2")))
	case 3:
		perf = sdkinstrument.Performance{InactiveCollectionPeriods: 1, AttributeSizeLimit: 4, MeasurementProcessor: addingProcessor{}, InstrumentCardinalityLimit: 3, AggregatorCardinalityLimit: 3}
	case 4:
		// Every new series is beyond the limit.
		perf = sdkinstrument.Performance{InstrumentCardinalityLimit: 2}
	}
	opts := []metric.Option{metric.WithReader(x.a, aopts...), metric.WithReader(x.b, bopts...)}
	if periodic {
		opts = append(opts, metric.WithReader(metric.NewPeriodicReader(raceExp{}, 10*time.Second), tempoOpt(true)))
	}
	x.p = newProvider(perf, opts...)
	x.m = x.p.Meter("m")
	var need [nRaceOps]bool
	collects := 0
	for _, o := range ops {
		need[o] = true
		if o == 5 || o == 6 || o == 13 || o == 14 || o == 16 || o == 18 {
			collects++
		}
	}
	// Only the instruments that the operations touch.
	x.c, _ = x.m.Int64Counter("c")
	x.c.Add(bg, 1, raceSets(0))
	// Collections of several readers meet in every kind of aggregator.
	all := collects > 1
	if all || need[2] || need[15] || need[17] {
		x.h, _ = x.m.Float64Histogram("h", apimetric.WithDescription("d"))
		x.h.Record(bg, 1, raceSets(0))
	}
	if all || need[3] {
		x.g, _ = x.m.Float64Gauge("g")
	}
	if all || need[4] || need[17] {
		x.u, _ = x.m.Float64UpDownCounter("u")
	}
	if need[9] {
		_, x.err = x.m.Float64Counter("c", apimetric.WithUnit("x"))
	}
	if need[10] || need[11] || collects > 1 {
		x.oc, _ = x.m.Int64ObservableCounter("oc")
		for i := range x.regs {
			i := i
			x.regs[i], _ = x.m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				o.ObserveInt64(x.oc, int64(i+1), raceSets(i))
				return nil
			}, x.oc)
		}
	}
	// Some series exist, one is idle.
	x.a.Produce(nil)
	x.b.Produce(&x.outputs)
	if all {
		for k := 0; k < 2; k++ {
			x.c.Add(bg, 2, raceSets(k))
			x.h.Record(bg, 2, raceSets(k))
			x.g.Record(bg, 2, raceSets(k))
			x.u.Add(bg, 2, raceSets(k))
		}
	}
	return x
}

func (x *raceRun) do(op, th int) {
	switch op {
	case 0:
		x.c.Add(bg, 1, raceSets(0))
	case 1:
		ad, ok := x.c.(bypass.FastInt64Adder)
		if !ok {
			panic("no key-value path")
		}
		ad.AddWithKeyValues(bg, 1, attribute.Int("k", 0), attribute.String("long", "value0"))
		ad.AddWithKeyValues(bg, 1, attribute.Int("k", 5), attribute.String("", "x"))
	case 2:
		x.h.Record(bg, 2, raceSets(0))
		x.h.Record(bg, 3, raceSets(1))
	case 3:
		x.g.Record(bg, 3, raceSets(2))
		x.g.Record(bg, 4, raceSets(2))
	case 4:
		x.u.Add(bg, -1, raceSets(2))
	case 5:
		touch(x.a.Produce(nil))
	case 6:
		var own data.Metrics
		own = x.b.Produce(&own)
		touch(own)
		own = x.b.Produce(&own)
		touch(own)
	case 7:
		c, err := x.m.Int64Counter("new", apimetric.WithDescription("d"))
		if err == nil {
			c.Add(bg, 1, raceSets(0))
		}
		o, _ := x.m.Int64ObservableUpDownCounter("newobs")
		_ = o
	case 8:
		i, err := x.m.Int64Histogram("c")
		if err == nil || err.Error() == "" {
			panic("no conflict reported")
		}
		i.Record(bg, 1, raceSets(0))
	case 9:
		if x.err != nil {
			_ = x.err.Error()
		}
	case 10:
		reg, err := x.m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			o.ObserveInt64(x.oc, 100, raceSets(3))
			return nil
		}, x.oc)
		if err == nil && th%2 == 0 {
			_ = reg.Unregister()
		}
	case 11:
		_ = x.regs[0].Unregister()
		if th%2 == 1 {
			_ = x.regs[1].Unregister()
		}
	case 12:
		c, _ := x.p.Meter("m2").Int64Counter("c")
		c.Add(bg, 1)
	case 13:
		_ = x.p.ForceFlush(bg)
	case 14:
		_ = x.p.Shutdown(bg)
	case 15:
		h, _ := x.m.Float64Histogram("h", apimetric.WithDescription(fmt.Sprint("longer description ", th)))
		h.Record(bg, 1, raceSets(0))
	case 16:
		vtime.FireNext()
		vsched.Point(vsched.Always)
	case 17:
		x.h.Record(bg, math.NaN())
		x.u.Add(bg, math.Inf(1), raceSets(1))
		x.c.Add(bg, -1)
	case 18:
		x.c.Add(bg, 1, raceSets(1))
		if x.h != nil && x.g != nil && x.u != nil {
			x.h.Record(bg, 1, raceSets(1))
			x.g.Record(bg, 1, raceSets(1))
			x.u.Add(bg, 1, raceSets(1))
		}
		var own data.Metrics
		own = x.b.Produce(&own)
		touch(own)
	}
}

func (x *raceRun) run(r *mc.R, ops []int) {
	for _, o := range ops {
		r.Logf("%s", raceNames[o])
	}
	var fs []func()
	for th, o := range ops {
		th, o := th, o
		fs = append(fs, func() { x.do(o, th) })
	}
	r.Par(fs...)
	x.a.Produce(nil)
	x.b.Produce(&x.outputs)
	_ = x.p.Shutdown(bg)
	otel.SetErrorHandler(sink)
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "race-pairs", Props: []string{"C24"}, Bound: [2]int{1, 2}, Race: [2]int{1, 2}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			cfg := r.Choose(5)
			a := r.Choose(nRaceOps)
			b := a + r.Choose(nRaceOps-a)
			newRace(cfg, a, b).run(r, []int{a, b})
		},
	})
	mc.Register(&mc.Scenario{
		Name: "race-triples", Props: []string{"C24"}, Bound: [2]int{0, 1}, Race: [2]int{0, 1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			cfg := []int{1, 3, 4}[r.Choose(3)]
			a := r.Choose(nRaceOps)
			b := a + r.Choose(nRaceOps-a)
			c := b + r.Choose(nRaceOps-b)
			newRace(cfg, a, b, c).run(r, []int{a, b, c})
		},
	})
}
