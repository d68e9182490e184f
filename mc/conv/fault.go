package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	otelcodes "go.opentelemetry.io/otel/codes"
	otelmetric "go.opentelemetry.io/otel/metric"
	otelsdk "go.opentelemetry.io/otel/sdk/metric"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	oteltrace "go.opentelemetry.io/otel/trace"
	"google.golang.org/grpc/codes"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	traceotel "github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
)

// signal is an exporter of either signal, items numbered from lo.
type signal struct {
	name     string
	export   func(ctx context.Context, lo, n int) error
	flush    func(ctx context.Context, lo, n int) error
	shutdown func(ctx context.Context, lo, n int) error
	// items lists the item numbers by request.
	items func(c *collector) [][]int64
	// final says shutdown hands over data.
	final bool
}

func metricSignal(c *collector, mp otelmetric.MeterProvider, tp oteltrace.TracerProvider) signal {
	otel.SetMeterProvider(mp)
	otel.SetTracerProvider(tp)
	e := newMetricExporter(c, func(cfg *otelcol.Config) { cfg.SelfMetrics, cfg.SelfSpans = true, true })
	mk := func(lo, n int) data.Metrics {
		d := largeData(n, 1, aggKinds[0])
		p := d.Scopes[0].Instruments[0].Points
		for i := range p {
			p[i].Attributes = attribute.NewSet(attribute.Int("i", lo+i))
		}
		return d
	}
	return signal{
		name:     "metrics",
		export:   func(ctx context.Context, lo, n int) error { return e.ExportMetrics(ctx, mk(lo, n)) },
		flush:    func(ctx context.Context, lo, n int) error { return e.ForceFlushMetrics(ctx, mk(lo, n)) },
		shutdown: func(ctx context.Context, lo, n int) error { return e.ShutdownMetrics(ctx, mk(lo, n)) },
		final:    true,
		items: func(c *collector) [][]int64 {
			var all [][]int64
			for _, m := range c.gotMetrics() {
				var l []int64
				for i := 0; i < m.ResourceMetrics().Len(); i++ {
					rm := m.ResourceMetrics().At(i)
					for j := 0; j < rm.ScopeMetrics().Len(); j++ {
						for k := 0; k < rm.ScopeMetrics().At(j).Metrics().Len(); k++ {
							dps := rm.ScopeMetrics().At(j).Metrics().At(k).Sum().DataPoints()
							for p := 0; p < dps.Len(); p++ {
								l = append(l, itemOf(dps.At(p).Attributes()))
							}
						}
					}
				}
				all = append(all, l)
			}
			return all
		},
	}
}

func itemOf(m pcommon.Map) int64 {
	v, _ := m.Get("i")
	return v.Int()
}

func traceSignal(c *collector, mp otelmetric.MeterProvider, tp oteltrace.TracerProvider) signal {
	otel.SetMeterProvider(mp)
	otel.SetTracerProvider(tp)
	e := newTraceExporter(c, func(cfg *traceotel.Config) { cfg.SelfMetrics, cfg.SelfSpans = true, true })
	exp := func(ctx context.Context, lo, n int) error {
		var in []sdktrace.ReadOnlySpan
		for i := lo; i < lo+n; i++ {
			in = append(in, tracetest.SpanStub{Name: "s", SpanContext: mkSC(1, "", false), StartTime: times[0][0], EndTime: times[0][1],
				InstrumentationScope: traceScopes[0], Resource: traceResources[0], Attributes: []attribute.KeyValue{attribute.Int("i", i)}}.Snapshot())
		}
		return e.ExportSpans(ctx, in)
	}
	return signal{
		name: "traces", export: exp, flush: exp,
		shutdown: func(ctx context.Context, lo, n int) error { return e.Shutdown(ctx) },
		items: func(c *collector) [][]int64 {
			var all [][]int64
			for _, t := range c.gotTraces() {
				var l []int64
				for i := 0; i < t.ResourceSpans().Len(); i++ {
					for j := 0; j < t.ResourceSpans().At(i).ScopeSpans().Len(); j++ {
						sp := t.ResourceSpans().At(i).ScopeSpans().At(j).Spans()
						for k := 0; k < sp.Len(); k++ {
							l = append(l, itemOf(sp.At(k).Attributes()))
						}
					}
				}
				all = append(all, l)
			}
			return all
		},
	}
}

// selfCounts reads the counter of exported items, by success and by state.
func selfCounts(rd *otelsdk.ManualReader) (ok, failed int64, states map[string]int64) {
	states = map[string]int64{}
	var rm metricdata.ResourceMetrics
	if err := rd.Collect(bg, &rm); err != nil {
		panic(err)
	}
	for _, s := range rm.ScopeMetrics {
		for _, m := range s.Metrics {
			if !strings.Contains(m.Name, "telemetry.items") {
				continue
			}
			sum, is := m.Data.(metricdata.Sum[int64])
			if !is {
				continue
			}
			for _, p := range sum.DataPoints {
				v, _ := p.Attributes.Value("success")
				if v.AsBool() {
					ok += p.Value
				} else {
					failed += p.Value
				}
				st, _ := p.Attributes.Value("state")
				states[st.AsString()] += p.Value
			}
		}
	}
	return
}

// selfSpan says what is wrong with the span about the last export.
func selfSpan(rec *tracetest.SpanRecorder, s signal, n int, err error, none bool) string {
	want := 1
	if none {
		want = 0
	}
	var mine []sdktrace.ReadOnlySpan
	for _, x := range rec.Ended() {
		if strings.HasPrefix(x.Name(), "otelsdk_export_") {
			mine = append(mine, x)
		}
	}
	open := 0
	for _, x := range rec.Started() {
		if strings.HasPrefix(x.Name(), "otelsdk_export_") {
			open++
		}
	}
	rec.Reset()
	if open != want || len(mine) != want {
		return fmt.Sprintf("%d spans about the call were started and %d ended, want %d", open, len(mine), want)
	}
	if none {
		return ""
	}
	x := mine[0]
	at := attribute.NewSet(x.Attributes()...)
	num, ok := at.Value(attribute.Key("num_" + map[string]string{"metrics": "points", "traces": "spans"}[s.name]))
	if !ok || num.AsInt64() != int64(n) {
		return fmt.Sprintf("the span about an export of %d items has %v", n, x.Attributes())
	}
	if v, ok := at.Value("success"); !ok || v.AsBool() != (err == nil) {
		return fmt.Sprintf("the span about an export that returned %v has %v", err, x.Attributes())
	}
	if (x.Status().Code == otelcodes.Ok) != (err == nil) || (x.Status().Code == otelcodes.Error) != (err != nil) {
		return fmt.Sprintf("the span about an export that returned %v has status %v", err, x.Status())
	}
	return ""
}

const hangTime = 8 * time.Second

var execution int

type outcome struct {
	name   string
	code   codes.Code
	hang   bool
	cancel bool
}

var outcomes = []outcome{
	{name: "accept"},
	{name: "unavailable", code: codes.Unavailable},
	{name: "hang past the deadline", hang: true},
	{name: "canceled before", cancel: true},
	{name: "invalid", code: codes.InvalidArgument},
	{name: "exhausted", code: codes.ResourceExhausted},
	{name: "internal", code: codes.Internal},
	{name: "canceled by the server", code: codes.Canceled},
}

func faultRun(r *mc.R, depth int, sizes []int, nOut int, parts bool) {
	c := coll()
	rd := otelsdk.NewManualReader()
	mp := otelsdk.NewMeterProvider(otelsdk.WithReader(rd))
	spans := tracetest.NewSpanRecorder()
	tp := sdktrace.NewTracerProvider(sdktrace.WithSpanProcessor(spans))
	var s signal
	conns := c.openConns()
	if r.Choose(2) == 0 {
		s = metricSignal(c, mp, tp)
	} else {
		s = traceSignal(c, mp, tp)
	}
	down := false
	defer func() {
		if !down {
			c.reset()
			_ = s.shutdown(bg, 0, 0)
		}
	}()
	// Items are numbered over all executions: a request given up in an earlier
	// one may arrive late.
	execution++
	base := execution * 1000000
	lo := base
	var okItems, badItems int64
	seen := map[int64]int{}
	wantStates := map[string]int64{}
	for op := 0; op <= depth; op++ {
		last := op == depth
		n := 2
		var o outcome
		if last {
			o = outcomes[r.Choose(2)]
		} else {
			n = sizes[r.Choose(len(sizes))]
			if !parts {
				o = outcomes[r.Choose(nOut)]
			}
		}
		if last && !s.final {
			n = 0
		}
		ctx, cancel := context.WithCancel(bg)
		if o.hang {
			ctx, cancel = context.WithTimeout(bg, 20*time.Millisecond)
		}
		if o.cancel {
			cancel()
		}
		a := answer{code: o.code}
		if o.hang {
			a.hang = hangTime
		}
		if parts && !last {
			// One of the requests the data may be split into fails, or some do.
			mask := r.Choose(8)
			var plan []answer
			for i := 0; i < 3; i++ {
				var a answer
				if mask>>i&1 == 1 {
					a.code = codes.Unavailable
				}
				plan = append(plan, a)
			}
			c.reset(plan...)
			o.name = fmt.Sprintf("refuse parts %03b", mask)
		} else {
			c.reset(a, a, a, a, a, a)
		}
		call, what := s.export, "export"
		if last {
			call, what = s.shutdown, "shutdown"
		} else if op == 0 && s.final && r.Choose(2) == 1 {
			call, what = s.flush, "flush"
		}
		began := time.Now()
		err := call(ctx, lo, n)
		took := time.Since(began)
		cancel()
		if what := selfSpan(spans, s, n, err, last && !s.final); what != "" {
			r.Failf("C17", "%s: %s", s.name, what)
			return
		}
		r.Logf("%s: %s of %d items, collector: %s: %v", s.name, what, n, o.name, err)
		if last {
			down = true
		}
		if took > hangTime-time.Second {
			r.Failf("C17", "%s of %d items did not return when its context ended", what, n)
			return
		}
		// Every item at most once, and not after success was reported; accepted
		// items; refused requests. A request of an earlier call that was given up
		// may arrive late.
		accepted := 0
		refused := 0
		reqs := s.items(c)
		acc := c.gotAccepted()
		for i, req := range reqs {
			mine := false
			for _, it := range req {
				if it < int64(base) {
					continue
				}
				if seen[it]++; seen[it] > 1 {
					r.Failf("C17", "item %d was sent %d times", it, seen[it])
					return
				}
				if it >= int64(lo+n) {
					r.Failf("C17", "item %d arrived with %s of items %d to %d", it, what, lo, lo+n-1)
					return
				}
				if it < int64(lo) {
					continue
				}
				mine = true
				if acc[i] {
					accepted++
				}
			}
			if mine && !acc[i] {
				refused++
			}
		}
		if err == nil && accepted != n {
			r.Failf("C17", "%s of %d items reports success, %d items were accepted (%s)", what, n, accepted, o.name)
			return
		}
		if err == nil && refused > 0 {
			r.Failf("C17", "%s reports success though %d requests were refused", what, refused)
			return
		}
		if err != nil && refused == 0 && accepted == n && !o.cancel && !o.hang {
			r.Failf("C17", "%s of %d items was accepted whole and reports %v", what, n, err)
			return
		}
		if err == nil {
			okItems += int64(n)
		} else {
			badItems += int64(n)
		}
		if n > 0 {
			switch {
			case err == nil:
				wantStates["ok"] += int64(n)
			case errors.Is(err, context.Canceled):
				wantStates["canceled"] += int64(n)
			case errors.Is(err, context.DeadlineExceeded):
				wantStates["timeout"] += int64(n)
			default:
				wantStates["error"] += int64(n)
			}
		}
		lo += n
	}
	if !c.closed(conns) {
		r.Failf("C17", "%s: the shutdown has returned, and the connection to the collector is still open", s.name)
		return
	}
	ok, failed, states := selfCounts(rd)
	if ok != okItems || failed != badItems {
		r.Failf("C17", "of %d items exported and %d failed the counter has %d and %d", okItems, badItems, ok, failed)
		return
	}
	for k, v := range wantStates {
		if states[k] != v {
			r.Failf("C17", "items by state: counted %v, want %v", states, wantStates)
			return
		}
	}
}

var errNotReturned = errors.New("the export has not returned after 40 s")

func within[T any](f func(context.Context, T) error, x T) error {
	done := make(chan error, 1)
	go func() { done <- f(bg, x) }()
	select {
	case err := <-done:
		return err
	case <-time.After(40 * time.Second):
		return errNotReturned
	}
}

// selfPlace is where telemetry about exports may go.
type selfPlace struct {
	rd    *otelsdk.ManualReader
	mp    *otelsdk.MeterProvider
	spans *tracetest.SpanRecorder
	tp    *sdktrace.TracerProvider
}

func newSelfPlace() selfPlace {
	var p selfPlace
	p.rd = otelsdk.NewManualReader()
	p.mp = otelsdk.NewMeterProvider(otelsdk.WithReader(p.rd))
	p.spans = tracetest.NewSpanRecorder()
	p.tp = sdktrace.NewTracerProvider(sdktrace.WithSpanProcessor(p.spans))
	return p
}

func (p selfPlace) counted() (int64, int) {
	ok, failed, _ := selfCounts(p.rd)
	n := 0
	for _, x := range p.spans.Ended() {
		if strings.HasPrefix(x.Name(), "otelsdk_export_") {
			n++
		}
	}
	return ok + failed, n
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "self-where", Props: []string{"C17"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "telemetry about exports of either signal: on or off, metrics and spans, providers given with the exporter or global, export accepted or refused",
		Body: func(r *mc.R) {
			c := coll()
			global, given := newSelfPlace(), newSelfPlace()
			otel.SetMeterProvider(global.mp)
			otel.SetTracerProvider(global.tp)
			isTrace := r.Choose(2) == 1
			sm, ss := r.Choose(2) == 1, r.Choose(2) == 1
			gm, gs := false, false
			n := []int{0, 3}[r.Choose(2)]
			a := answer{code: outcomes[r.Choose(2)].code}
			c.reset(a, a)
			var err error
			if isTrace {
				gm, gs = r.Choose(2) == 1, r.Choose(2) == 1
				var opts []func(*traceotel.ExporterOptions)
				if gm {
					opts = append(opts, traceotel.WithMeterProvider(given.mp))
				}
				if gs {
					opts = append(opts, traceotel.WithTracerProvider(given.tp))
				}
				cfg := traceotel.NewConfig(traceotel.WithInsecure(), nil, traceotel.WithEndpoint(c.addr), traceotel.WithCompressor("none"))
				cfg.Batcher.Timeout = 0
				cfg.SelfMetrics, cfg.SelfSpans = sm, ss
				e, err1 := traceotel.NewExporter(bg, cfg, opts...)
				if err1 != nil {
					panic(err1)
				}
				var in []sdktrace.ReadOnlySpan
				for i := 0; i < n; i++ {
					in = append(in, tracetest.SpanStub{Name: "s", SpanContext: mkSC(1, "", false), Resource: traceResources[0]}.Snapshot())
				}
				err = e.ExportSpans(bg, in)
				_ = e.Shutdown(bg)
			} else {
				cfg := otelcol.NewConfig(otelcol.WithInsecure(), nil, otelcol.WithEndpoint(c.addr), otelcol.WithCompressor("none"))
				cfg.SelfMetrics, cfg.SelfSpans = sm, ss
				e, err1 := otelcol.NewExporter(bg, cfg)
				if err1 != nil {
					panic(err1)
				}
				err = e.ExportMetrics(bg, largeData(n, 1, aggKinds[0]))
				_ = e.ShutdownMetrics(bg, data.Metrics{})
			}
			num := func(on bool, k int) int {
				if on {
					return k
				}
				return 0
			}
			exports := 2 // with the empty one at the shutdown
			if isTrace {
				exports = 1
			}
			gotM, gotS := given.counted()
			glM, glS := global.counted()
			r.Logf("traces=%v metrics on=%v given=%v, spans on=%v given=%v: %d items, %v: %d and %d counted, %d and %d spans", isTrace, sm, gm, ss, gs, n, err, gotM, glM, gotS, glS)
			if w := num(gm, n); gotM != int64(w) {
				r.Failf("C17", "%d items counted with the provider given, want %d", gotM, w)
			}
			if w := num(sm && !gm, n); glM != int64(w) {
				r.Failf("C17", "%d items counted with the global provider, want %d", glM, w)
			}
			if w := num(gs, exports); gotS != w {
				r.Failf("C17", "%d spans with the provider given, want %d", gotS, w)
			}
			if w := num(ss && !gs, exports); glS != w {
				r.Failf("C17", "%d spans with the global provider, want %d", glS, w)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "fault-seq", Props: []string{"C17"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "sequences of two (three) exports and a shutdown of either signal, each accepted, refused, cancelled or hung",
		Body: func(r *mc.R) {
			if r.Thorough {
				faultRun(r, 3, []int{2, 0, 1600}, 5, false)
			} else {
				faultRun(r, 2, []int{2, 0, 1600}, 5, false)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "fault-timeout", Props: []string{"C17"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc:  "exports of either signal without a deadline to a collector that never answers, with the default timeout and with a configured one",
		Flat: func(bool) int { return 4 },
		Body: func(r *mc.R) {
			which := r.Choose(4)
			c := coll()
			a := answer{hang: time.Minute}
			c.reset(a, a)
			def := which >= 2
			tm := 15 * time.Second
			if !def {
				tm = 300 * time.Millisecond
			}
			var err error
			var began time.Time
			name := "metrics"
			if which%2 == 0 {
				e := newMetricExporter(c, func(cfg *otelcol.Config) {
					if !def {
						cfg.Exporter.TimeoutSettings.Timeout = tm
					}
				})
				began = time.Now()
				err = within(e.ExportMetrics, largeData(1, 1, aggKinds[0]))
				c.reset()
				_ = e.ShutdownMetrics(bg, data.Metrics{})
			} else {
				name = "traces"
				e := newTraceExporter(c, func(cfg *traceotel.Config) {
					if !def {
						cfg.Exporter.TimeoutSettings.Timeout = tm
					}
				})
				began = time.Now()
				err = within(e.ExportSpans, []sdktrace.ReadOnlySpan{tracetest.SpanStub{Name: "s", SpanContext: mkSC(1, "", false), Resource: traceResources[0]}.Snapshot()})
				c.reset()
				_ = e.Shutdown(bg)
			}
			took := time.Since(began)
			r.Logf("%s, default=%v: %v", name, def, err)
			if err == nil {
				r.Failf("C17", "an export of %s reports success, and the collector never answered", name)
			} else if took < tm*9/10 || took > tm+20*time.Second {
				r.Failf("C17", "an export of %s without an answer ended after %v, the timeout is %v: %v", name, took, tm, err)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "fault-codes", Props: []string{"C17"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc:  "every refusal, one export",
		Body: func(r *mc.R) { faultRun(r, 1, []int{1, 1499, 1501, 3001}, len(outcomes), false) },
	})
	mc.Register(&mc.Scenario{
		Name: "fault-parts", Props: []string{"C17"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "exports that are split, every subset of the parts refused",
		Body: func(r *mc.R) {
			d := 1
			if r.Thorough {
				d = 2
			}
			faultRun(r, d, []int{3000, 3100, 4500}, 1, true)
		},
	})
}
