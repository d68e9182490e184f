package main

import (
	"context"
	"fmt"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/trace"
)

// What a measurement is called with besides its value: the context and any
// number of options.

func measureContexts() []context.Context {
	canceled, cancel := context.WithCancel(context.Background())
	cancel()
	late, cancel2 := context.WithDeadline(context.Background(), time.Unix(1, 0))
	cancel2()
	span := func(f trace.TraceFlags, remote bool) context.Context {
		return trace.ContextWithSpanContext(context.Background(), trace.NewSpanContext(trace.SpanContextConfig{
			TraceID: trace.TraceID{1, 2}, SpanID: trace.SpanID{3}, TraceFlags: f, Remote: remote}))
	}
	return []context.Context{
		context.Background(), context.TODO(), canceled, late,
		context.WithValue(context.Background(), callKey{}, "x"),
		span(0, false), span(trace.FlagsSampled, false), span(trace.FlagsSampled, true),
		context.WithValue(canceled, callKey{}, 1),
	}
}

// optionTable holds the options of a call, as API options and as attributes.
type optionCase struct {
	set bool
	kvs []attribute.KeyValue
}

var optionCases = []optionCase{
	{false, []attribute.KeyValue{attribute.Int("a", 1)}},
	{true, []attribute.KeyValue{attribute.Int("a", 2), attribute.String("b", "x")}},
	{false, []attribute.KeyValue{attribute.String("b", "y"), attribute.Bool("c", true), attribute.Int("a", 3)}},
	{true, nil},
	{true, []attribute.KeyValue{attribute.Float64("d", 0.5)}},
	{false, nil},
	{false, []attribute.KeyValue{attribute.Int("c", 1), attribute.Int("c", 2)}},
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "contexts", Props: []string{"C01", "C05"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "every kind of instrument, path and context: each measurement counts",
		Body: func(r *mc.R) {
			kind := allKinds[r.Choose(4)]
			float := r.ChooseBool()
			np := 2
			if hasKV(kind) {
				np = 3
			}
			path := r.Choose(np)
			delta := r.ChooseBool()
			var perf sdkinstrument.Performance
			proc := r.ChooseBool()
			if proc {
				perf.MeasurementProcessor = plainProcessor{}
			}
			ctxs := measureContexts()
			first := r.Choose(len(ctxs))
			rd := metric.NewManualReader("rd")
			p := newProvider(perf, metric.WithReader(rd, tempoOpt(delta)))
			c, err := mkInst(p.Meter("m"), "i", kind, float, path, "", "")
			if err != nil {
				r.Failf(r.Prop(), "%v", err)
				return
			}
			r.Logf("%v float %v path %d delta %v processor %v first %d", kind, float, path, delta, proc, first)
			total, n := 0.0, 0.0
			for i := range ctxs {
				k := (first + i) % len(ctxs)
				c.rec(ctxs[k], float64(k+1), plainAttrs(0))
				total += float64(k + 1)
				n++
				pts := pointsOf(rd.Produce(nil))
				if len(pts) != 1 {
					r.Failf(r.Prop(), "%v: %d points after a measurement with context %d", kind, len(pts), k)
					return
				}
				got, want, cnt, wantN := pts[0].Val, total, float64(pts[0].Count), n
				if delta {
					want, wantN = float64(k+1), 1
				}
				if kind == sdkinstrument.SyncGauge {
					want = float64(k + 1)
				}
				if kind != sdkinstrument.SyncHistogram {
					cnt = wantN
				}
				if got != want || cnt != wantN {
					r.Failf(r.Prop(), "%v: after a measurement with context %d the point is %v (count %v), want %v (%v)", kind, k, got, cnt, want, wantN)
					return
				}
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "options", Props: []string{"C05"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "every sequence of up to three options on every kind of instrument: the attributes of all of them, the last of each key",
		Body: func(r *mc.R) {
			kind := allKinds[r.Choose(len(allKinds))]
			float := r.ChooseBool()
			twice := r.ChooseBool()
			n := r.Choose(4)
			var cs []optionCase
			for i := 0; i < n; i++ {
				cs = append(cs, optionCases[r.Choose(len(optionCases))])
			}
			rd, filtered := metric.NewManualReader("rd"), metric.NewManualReader("filtered")
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd), metric.WithReader(filtered, view.WithClause(view.WithKeys([]attribute.Key{"a", "c"}))))
			m := p.Meter("m")
			mk := func() []apimetric.MeasurementOption {
				var opts []apimetric.MeasurementOption
				for _, c := range cs {
					kvs := append([]attribute.KeyValue(nil), c.kvs...)
					if c.set {
						opts = append(opts, apimetric.WithAttributeSet(attribute.NewSet(kvs...)))
					} else {
						opts = append(opts, apimetric.WithAttributes(kvs...))
					}
				}
				return opts
			}
			// The value of each key given last.
			last := map[attribute.Key]attribute.Value{}
			for _, c := range cs {
				for _, kv := range c.kvs {
					last[kv.Key] = kv.Value
				}
			}
			k, err := mkInst(m, "i", kind, float, 0, "", "")
			if err != nil {
				r.Failf("C05", "%v", err)
				return
			}
			val := 5.0
			if kind.Synchronous() {
				times := 1
				if twice {
					times, val = 2, 10
				}
				if kind == sdkinstrument.SyncGauge {
					val = 5
				}
				for t := 0; t < times; t++ {
					recordWith(k, 5, mk())
				}
			} else {
				_, err = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
					if twice {
						observeWith(k, o, 3, mk())
					}
					observeWith(k, o, 5, mk())
					return nil
				}, k.obs)
				if err != nil {
					r.Failf("C05", "%v", err)
				}
			}
			for i, x := range []struct {
				rd   *metric.ManualReader
				only map[attribute.Key]bool
			}{{rd, nil}, {filtered, map[attribute.Key]bool{"a": true, "c": true}}} {
				pts := pointsOf(x.rd.Produce(nil))
				want := refKey(last, x.only)
				if len(pts) != 1 || pts[0].Attrs != want || pts[0].Val != val {
					r.Failf("C05", "%v with options %v: reader %d got %v, want {%s} %v", kind, cs, i, pts, want, val)
				}
			}
		},
	})
}

type plainProcessor struct{}

func (plainProcessor) Process(_ context.Context, attrs []attribute.KeyValue) []attribute.KeyValue {
	return attrs
}

func recordWith(k kinst, v float64, opts []apimetric.MeasurementOption) {
	var add []apimetric.AddOption
	var rec []apimetric.RecordOption
	for _, o := range opts {
		add, rec = append(add, o), append(rec, o)
	}
	switch i := k.any.(type) {
	case apimetric.Int64Counter:
		i.Add(bg, int64(v), add...)
	case apimetric.Float64Counter:
		i.Add(bg, v, add...)
	case apimetric.Int64UpDownCounter:
		i.Add(bg, int64(v), add...)
	case apimetric.Float64UpDownCounter:
		i.Add(bg, v, add...)
	case apimetric.Int64Gauge:
		i.Record(bg, int64(v), rec...)
	case apimetric.Float64Gauge:
		i.Record(bg, v, rec...)
	case apimetric.Int64Histogram:
		i.Record(bg, int64(v), rec...)
	case apimetric.Float64Histogram:
		i.Record(bg, v, rec...)
	default:
		panic(fmt.Sprintf("no such instrument %T", k.any))
	}
}

func observeWith(k kinst, o apimetric.Observer, v float64, opts []apimetric.MeasurementOption) {
	var obs []apimetric.ObserveOption
	for _, op := range opts {
		obs = append(obs, op)
	}
	if k.float {
		o.ObserveFloat64(k.obs.(apimetric.Float64Observable), v, obs...)
	} else {
		o.ObserveInt64(k.obs.(apimetric.Int64Observable), int64(v), obs...)
	}
}
