package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel"
	otelmetric "go.opentelemetry.io/otel/metric"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/pipelines"
)

// C19: the metrics pipeline.

// letterCases gives spellings of a preference.
func letterCases(s string) []string {
	if s == "" {
		return []string{""}
	}
	mixed := ""
	for i, c := range s {
		if i%2 == 0 {
			mixed += strings.ToUpper(string(c))
		} else {
			mixed += string(c)
		}
	}
	return []string{s, strings.ToUpper(s), strings.ToUpper(s[:1]) + s[1:], mixed}
}

var prefs = []string{"", "cumulative", "delta", "stateless", "lowmemory"}

// The documented temporality.
func wantDelta(pref string, kind string) bool {
	switch kind {
	case "counter", "histogram":
		return pref == "delta" || pref == "stateless" || pref == "lowmemory"
	case "async counter":
		return pref == "delta"
	}
	return false
}

type flusher interface{ ForceFlush(context.Context) error }

func pipeConfig(c *collector) pipelines.PipelineConfig {
	return pipelines.PipelineConfig{Endpoint: c.addr, Insecure: true, ReportingPeriod: "1h", Resource: resources[0]}
}

// tempoOf tells the temporality of an arrived metric, "gauge" for gauges.
func tempoOf(m pmetric.Metric) string {
	t := pmetric.AggregationTemporalityUnspecified
	switch m.Type() {
	case pmetric.MetricTypeGauge:
		return "gauge"
	case pmetric.MetricTypeSum:
		t = m.Sum().AggregationTemporality()
	case pmetric.MetricTypeHistogram:
		t = m.Histogram().AggregationTemporality()
	case pmetric.MetricTypeExponentialHistogram:
		t = m.ExponentialHistogram().AggregationTemporality()
	}
	return strings.ToLower(t.String())
}

// valueOf gives the value of a metric with one point: the sum.
func valueOf(m pmetric.Metric) (float64, int) {
	num := func(p pmetric.NumberDataPoint) float64 {
		if p.ValueType() == pmetric.NumberDataPointValueTypeInt {
			return float64(p.IntValue())
		}
		return p.DoubleValue()
	}
	switch m.Type() {
	case pmetric.MetricTypeGauge:
		return num(m.Gauge().DataPoints().At(0)), m.Gauge().DataPoints().Len()
	case pmetric.MetricTypeSum:
		return num(m.Sum().DataPoints().At(0)), m.Sum().DataPoints().Len()
	case pmetric.MetricTypeExponentialHistogram:
		return m.ExponentialHistogram().DataPoints().At(0).Sum(), m.ExponentialHistogram().DataPoints().Len()
	case pmetric.MetricTypeHistogram:
		return m.Histogram().DataPoints().At(0).Sum(), m.Histogram().DataPoints().Len()
	}
	return 0, 0
}

var pipeKinds = []string{"counter", "updowncounter", "histogram", "gauge", "async counter", "async updowncounter", "async gauge"}

// builtin metric names by library, as documented.
var builtinPrefixes = map[string][]string{
	"host":    {"system.cpu.time", "system.memory.usage", "system.memory.utilization", "system.network.io"},
	"cputime": {"process.cpu.time", "process.uptime"},
	"runtime": {"process.runtime.go."},
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "pipe-temporality", Props: []string{"C19"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "every preference and spelling, instrument kind, number kind and history of up to three collections, each preceded by a measurement or not; temporality and values as they arrive",
		Body: func(r *mc.R) {
			pref := prefs[r.Choose(len(prefs))]
			cs := letterCases(pref)
			spelled := cs[r.Choose(len(cs))]
			kind := pipeKinds[r.Choose(len(pipeKinds))]
			isFloat := r.Choose(2) == 1
			c := coll()
			defer resetGlobals()
			cfg := pipeConfig(c)
			cfg.TemporalityPreference = spelled
			stop, err := pipelines.NewMetricsPipeline(cfg)
			if err != nil {
				r.Failf("C19", "preference %q: %v", spelled, err)
				return
			}
			stopped := false
			defer func() {
				if !stopped {
					_ = stop()
				}
			}()
			meter := otel.Meter("app")
			var rec func(v int64)
			cur := int64(0)
			total := int64(0) // for asynchronous ones
			must := func(err error) {
				if err != nil {
					panic(err)
				}
			}
			switch kind {
			case "counter":
				if isFloat {
					i, err := meter.Float64Counter("x")
					must(err)
					rec = func(v int64) { i.Add(bg, float64(v)) }
				} else {
					i, err := meter.Int64Counter("x")
					must(err)
					rec = func(v int64) { i.Add(bg, v) }
				}
			case "updowncounter":
				if isFloat {
					i, err := meter.Float64UpDownCounter("x")
					must(err)
					rec = func(v int64) { i.Add(bg, float64(v)) }
				} else {
					i, err := meter.Int64UpDownCounter("x")
					must(err)
					rec = func(v int64) { i.Add(bg, v) }
				}
			case "histogram":
				if isFloat {
					i, err := meter.Float64Histogram("x")
					must(err)
					rec = func(v int64) { i.Record(bg, float64(v)) }
				} else {
					i, err := meter.Int64Histogram("x")
					must(err)
					rec = func(v int64) { i.Record(bg, v) }
				}
			case "gauge":
				if isFloat {
					i, err := meter.Float64Gauge("x")
					must(err)
					rec = func(v int64) { i.Record(bg, float64(v)) }
				} else {
					i, err := meter.Int64Gauge("x")
					must(err)
					rec = func(v int64) { i.Record(bg, v) }
				}
			default:
				rec = func(v int64) { total += v }
				fi := func(_ context.Context, o otelmetric.Int64Observer) error { o.Observe(total); return nil }
				ff := func(_ context.Context, o otelmetric.Float64Observer) error { o.Observe(float64(total)); return nil }
				var err error
				switch {
				case kind == "async counter" && isFloat:
					_, err = meter.Float64ObservableCounter("x", otelmetric.WithFloat64Callback(ff))
				case kind == "async counter":
					_, err = meter.Int64ObservableCounter("x", otelmetric.WithInt64Callback(fi))
				case kind == "async updowncounter" && isFloat:
					_, err = meter.Float64ObservableUpDownCounter("x", otelmetric.WithFloat64Callback(ff))
				case kind == "async updowncounter":
					_, err = meter.Int64ObservableUpDownCounter("x", otelmetric.WithInt64Callback(fi))
				case isFloat:
					_, err = meter.Float64ObservableGauge("x", otelmetric.WithFloat64Callback(ff))
				default:
					_, err = meter.Int64ObservableGauge("x", otelmetric.WithInt64Callback(fi))
				}
				must(err)
			}
			async := strings.HasPrefix(kind, "async")
			wantT := "cumulative"
			if wantDelta(pref, kind) {
				wantT = "delta"
			}
			if strings.HasSuffix(kind, "gauge") {
				wantT = "gauge"
			}
			what := fmt.Sprintf("preference %q, %s", spelled, kind)
			period := int64(0)
			last := int64(0)
			// The last collection is the one of the shutdown.
			for i := 0; i < 3; i++ {
				did := i == 0 || r.Choose(2) == 0
				period = 0
				if did {
					last = int64(i + 2)
					period = last
					rec(last)
					cur += last
				}
				c.reset()
				if i == 2 {
					stopped = true
					err = stop()
				} else {
					err = otel.GetMeterProvider().(flusher).ForceFlush(bg)
				}
				if err != nil {
					r.Failf("C19", "%s: %v", what, err)
					return
				}
				var got []pmetric.Metric
				allMetrics(c.gotMetrics(), func(_ pcommon.Map, scope string, m pmetric.Metric) {
					if scope == "app" && m.Name() == "x" {
						got = append(got, m)
					}
				})
				if len(got) == 0 && !did && (wantT == "delta" || kind == "gauge") {
					// Nothing to report.
					continue
				}
				if len(got) != 1 {
					r.Failf("C19", "%s: collection %d brought %d metrics", what, i, len(got))
					return
				}
				if t := tempoOf(got[0]); t != wantT {
					r.Failf("C19", "%s: temporality %s, want %s", what, t, wantT)
					return
				}
				want := cur
				switch {
				case wantT == "delta":
					want = period
				case wantT == "gauge" && !async:
					want = last
				}
				if v, n := valueOf(got[0]); n != 1 || v != float64(want) {
					r.Failf("C19", "%s: collection %d brought %v (%d points), want %d", what, i, v, n, want)
					return
				}
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "pipe-invalid", Props: []string{"C19"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "unknown preferences and unusable periods are errors and set up nothing",
		Body: func(r *mc.R) {
			c := coll()
			defer resetGlobals()
			resetGlobals()
			before := otel.GetMeterProvider()
			cfg := pipeConfig(c)
			if r.Choose(2) == 0 {
				bad := []string{"x", "cumulative ", "deltas", "low memory", "low_memory", "stateles", "none"}
				cfg.TemporalityPreference = bad[r.Choose(len(bad))]
			} else {
				bad := []string{"0s", "-1s", "1", "x", "10", "1 s", "-0.5h", "0"}
				cfg.ReportingPeriod = bad[r.Choose(len(bad))]
			}
			stop, err := pipelines.NewMetricsPipeline(cfg)
			if err == nil {
				_ = stop()
				r.Failf("C19", "preference %q, period %q: no error", cfg.TemporalityPreference, cfg.ReportingPeriod)
				return
			}
			if otel.GetMeterProvider() != before {
				r.Failf("C19", "preference %q, period %q: %v, and a provider was installed", cfg.TemporalityPreference, cfg.ReportingPeriod, err)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "pipe-builtins", Props: []string{"C19"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "every list of up to two (three) builtin selections, enabled or not: exactly the metrics of the selected libraries arrive, unknown ones are reported",
		Body: func(r *mc.R) {
			names := []string{"host", "cputime", "runtime", "all", "nosuch"}
			versions := []string{"", ":stable", ":v9", ":prestable-v12"}
			max := 2
			if r.Thorough {
				max = 3
			}
			on := r.Choose(4) != 3
			n := r.Choose(max + 1)
			var list []string
			want := map[string]bool{}
			errs := 0
			for i := 0; i < n; i++ {
				a, v := names[r.Choose(len(names))], versions[r.Choose(len(versions))]
				list = append(list, a+v)
				switch {
				case a == "nosuch" || len(v) != 0 && v != ":stable":
					errs++
				case a == "all":
					want["host"], want["cputime"], want["runtime"] = true, true, true
				default:
					want[a] = true
				}
			}
			if !on {
				want, errs = map[string]bool{}, 0
			}
			c := coll()
			defer resetGlobals()
			sink.take()
			cfg := pipeConfig(c)
			cfg.MetricsBuiltinsEnabled = on
			cfg.MetricsBuiltinLibraries = list
			stop, err := pipelines.NewMetricsPipeline(cfg)
			if err != nil {
				r.Failf("C19", "builtins %q: %v", list, err)
				return
			}
			got := sink.take()
			rep := 0
			for _, e := range got {
				if strings.Contains(e.Error(), "builtin") {
					rep++
				}
			}
			ctr, _ := otel.Meter("app").Int64Counter("x")
			ctr.Add(bg, 1)
			if err := stop(); err != nil {
				r.Failf("C19", "builtins %q: shutdown: %v", list, err)
				return
			}
			if rep != errs {
				r.Failf("C19", "builtins %q, enabled %v: %d reported, want %d: %v", list, on, rep, errs, got)
				return
			}
			arrived := map[string]bool{}
			allMetrics(c.gotMetrics(), func(_ pcommon.Map, _ string, m pmetric.Metric) { arrived[m.Name()] = true })
			libs := map[string]bool{}
			var other []string
			for name := range arrived {
				found := name == "x"
				for lib, ps := range builtinPrefixes {
					for _, p := range ps {
						if strings.HasPrefix(name, p) {
							libs[lib] = true
							found = true
						}
					}
				}
				if !found && !strings.HasPrefix(name, "otelsdk") {
					other = append(other, name)
				}
			}
			sort.Strings(other)
			if !arrived["x"] {
				r.Failf("C19", "builtins %q: the application's metric did not arrive", list)
				return
			}
			for _, lib := range []string{"host", "cputime", "runtime"} {
				if libs[lib] != want[lib] {
					r.Failf("C19", "builtins %q, enabled %v: metrics of %s arrived: %v", list, on, lib, libs[lib])
					return
				}
			}
			if len(other) > 0 {
				r.Failf("C19", "builtins %q: unknown metrics %v", list, other)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "pipe-period", Props: []string{"C19"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "the reporting period reaches the reader: a short one exports by itself, a long one does not",
		Body: func(r *mc.R) {
			k := r.Choose(3)
			period := []string{"20ms", "1h", ""}[k]
			c := coll()
			defer resetGlobals()
			cfg := pipeConfig(c)
			cfg.ReportingPeriod = period
			stop, err := pipelines.NewMetricsPipeline(cfg)
			if err != nil {
				r.Failf("C19", "%v", err)
				return
			}
			defer func() { _ = stop() }()
			ctr, _ := otel.Meter("app").Int64Counter("x")
			ctr.Add(bg, 1)
			wait := 400 * time.Millisecond
			if k == 0 {
				wait = 20 * time.Second
			}
			seen := false
			for end := time.Now().Add(wait); !seen && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
				seen = len(c.gotMetrics()) > 0
			}
			if seen != (k == 0) {
				r.Failf("C19", "period %q: exported within %v: %v", period, wait, seen)
			}
		},
	})
}
