package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/minmaxsumcount"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
)

// C15: what arrives is what was handed in.

func tempoIn(t aggregation.Temporality) string {
	switch t {
	case aggregation.CumulativeTemporality:
		return "Cumulative"
	case aggregation.DeltaTemporality:
		return "Delta"
	}
	return "Unspecified"
}

func bucketsIn(b aggregation.Buckets) string {
	if b.Len() == 0 {
		return "none"
	}
	s := fmt.Sprint(b.Offset(), ":")
	for i := uint32(0); i < b.Len(); i++ {
		s += fmt.Sprint(b.At(i), ",")
	}
	return s
}

func bucketsOut(b pmetric.ExponentialHistogramDataPointBuckets) string {
	if b.BucketCounts().Len() == 0 {
		return "none"
	}
	s := fmt.Sprint(b.Offset(), ":")
	for i := 0; i < b.BucketCounts().Len(); i++ {
		s += fmt.Sprint(b.BucketCounts().At(i), ",")
	}
	return s
}

func extremes(n uint64, min, max float64) string {
	if n == 0 {
		return "no min max"
	}
	return "min " + fl(min) + " max " + fl(max)
}

func numIn(n number.Number, k number.Kind) float64 {
	if k == number.Int64Kind {
		return float64(number.ToInt64(n))
	}
	return number.ToFloat64(n)
}

// metricsIn lists what was handed in: a line per scope, metric and point that
// carries points, in order.
func metricsIn(d data.Metrics) []string {
	var out []string
	res := "resource{" + attrsIn(d.Resource.Attributes()) + "}"
	for _, s := range d.Scopes {
		scope := fmt.Sprintf("%s scope{%q %q %q}", res, s.Library.Name, s.Library.Version, s.Library.SchemaURL)
		for _, in := range s.Instruments {
			if len(in.Points) == 0 {
				continue
			}
			nk := in.Descriptor.NumberKind
			for i, p := range in.Points {
				var kind, val string
				start := fmt.Sprint(p.Start.UnixNano())
				switch a := p.Aggregation.(type) {
				case aggregation.Histogram:
					kind = "exponential " + tempoIn(p.Temporality)
					val = fmt.Sprintf("n %d sum %s %s zero %d scale %d + %s - %s", a.Count(), fl(numIn(a.Sum(), nk)),
						extremes(a.Count(), numIn(a.Min(), nk), numIn(a.Max(), nk)), a.ZeroCount(), a.Scale(), bucketsIn(a.Positive()), bucketsIn(a.Negative()))
				case aggregation.MinMaxSumCount:
					kind = "histogram " + tempoIn(p.Temporality)
					val = fmt.Sprintf("n %d sum %s %s buckets 0 0", a.Count(), fl(numIn(a.Sum(), nk)),
						extremes(a.Count(), numIn(a.Min(), nk), numIn(a.Max(), nk)))
				case aggregation.Sum:
					kind = fmt.Sprint("sum ", tempoIn(p.Temporality), " mono ", a.IsMonotonic())
					if nk == number.Int64Kind {
						val = fmt.Sprint("int ", number.ToInt64(a.Sum()))
					} else {
						val = "dbl " + fl(number.ToFloat64(a.Sum()))
					}
				case aggregation.Gauge:
					kind, start = "gauge", "any"
					if nk == number.Int64Kind {
						val = fmt.Sprint("int ", number.ToInt64(a.Gauge()))
					} else {
						val = "dbl " + fl(number.ToFloat64(a.Gauge()))
					}
				}
				_ = i
				out = append(out, fmt.Sprintf("%s metric{%q %q %q %s} point{%s} %s-%d: %s", scope, in.Descriptor.Name, in.Descriptor.Description, in.Descriptor.Unit, kind,
					attrsIn(p.Attributes.ToSlice()), start, p.End.UnixNano(), val))
			}
			out = append(out, "end of metric")
		}
		if n := len(out); n > 0 && out[n-1] == "end of metric" {
			out = append(out, "end of scope")
		}
	}
	return out
}

// metricsOut lists what arrived.
func metricsOut(m pmetric.Metrics) []string {
	var out []string
	for i := 0; i < m.ResourceMetrics().Len(); i++ {
		rm := m.ResourceMetrics().At(i)
		res := "resource{" + attrsOut(rm.Resource().Attributes()) + "}"
		for j := 0; j < rm.ScopeMetrics().Len(); j++ {
			sm := rm.ScopeMetrics().At(j)
			scope := fmt.Sprintf("%s scope{%q %q %q}", res, sm.Scope().Name(), sm.Scope().Version(), sm.SchemaUrl())
			if sm.Scope().Attributes().Len() != 0 {
				scope += " with attributes"
			}
			for k := 0; k < sm.Metrics().Len(); k++ {
				me := sm.Metrics().At(k)
				before := len(out)
				pt := func(kind, attrs string, start, end uint64, gauge bool, val string) {
					st := fmt.Sprint(int64(start))
					if gauge {
						st = "any"
					}
					out = append(out, fmt.Sprintf("%s metric{%q %q %q %s} point{%s} %s-%d: %s", scope, me.Name(), me.Description(), me.Unit(), kind, attrs, st, int64(end), val))
				}
				numPt := func(kind string, gauge bool, sl pmetric.NumberDataPointSlice) {
					for n := 0; n < sl.Len(); n++ {
						p := sl.At(n)
						var v string
						switch p.ValueType() {
						case pmetric.NumberDataPointValueTypeInt:
							v = fmt.Sprint("int ", p.IntValue())
						case pmetric.NumberDataPointValueTypeDouble:
							v = "dbl " + fl(p.DoubleValue())
						default:
							v = "no value"
						}
						pt(kind, attrsOut(p.Attributes()), uint64(p.StartTimestamp()), uint64(p.Timestamp()), gauge, v)
					}
				}
				switch me.Type() {
				case pmetric.MetricTypeSum:
					numPt(fmt.Sprint("sum ", me.Sum().AggregationTemporality(), " mono ", me.Sum().IsMonotonic()), false, me.Sum().DataPoints())
				case pmetric.MetricTypeGauge:
					numPt("gauge", true, me.Gauge().DataPoints())
				case pmetric.MetricTypeHistogram:
					for n := 0; n < me.Histogram().DataPoints().Len(); n++ {
						p := me.Histogram().DataPoints().At(n)
						ext := "no min max"
						if p.HasMin() || p.HasMax() {
							ext = "min " + fl(p.Min()) + " max " + fl(p.Max())
						}
						pt("histogram "+me.Histogram().AggregationTemporality().String(), attrsOut(p.Attributes()), uint64(p.StartTimestamp()), uint64(p.Timestamp()), false,
							fmt.Sprintf("n %d sum %s %s buckets %d %d", p.Count(), fl(p.Sum()), ext, p.BucketCounts().Len(), p.ExplicitBounds().Len()))
					}
				case pmetric.MetricTypeExponentialHistogram:
					for n := 0; n < me.ExponentialHistogram().DataPoints().Len(); n++ {
						p := me.ExponentialHistogram().DataPoints().At(n)
						ext := "no min max"
						if p.HasMin() || p.HasMax() {
							ext = "min " + fl(p.Min()) + " max " + fl(p.Max())
						}
						pt("exponential "+me.ExponentialHistogram().AggregationTemporality().String(), attrsOut(p.Attributes()), uint64(p.StartTimestamp()), uint64(p.Timestamp()), false,
							fmt.Sprintf("n %d sum %s %s zero %d scale %d + %s - %s", p.Count(), fl(p.Sum()), ext, p.ZeroCount(), p.Scale(), bucketsOut(p.Positive()), bucketsOut(p.Negative())))
					}
				default:
					out = append(out, fmt.Sprintf("%s metric %q of unknown type", scope, me.Name()))
				}
				if len(out) > before {
					out = append(out, "end of metric")
				}
			}
			if n := len(out); n > 0 && out[n-1] == "end of metric" {
				out = append(out, "end of scope")
			}
		}
	}
	return out
}

// The input tables.

var intVals = []int64{3, 0, -2, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1}
var dblVals = []float64{2.5, 0, -1.25, math.MaxFloat64, -math.MaxFloat64, 5e-324, math.Inf(1), math.Copysign(0, -1)}

// Value lists for histograms: empty, single, zeros, negatives, wide spreads.
var intLists = [][]int64{{3}, {}, {0}, {-2}, {1, 2, 3}, {-5, 0, 7}, {1 << 40, 1}, {-1 << 40, -3, -3}, {0, 0, 1}}
var dblLists = [][]float64{{2.5}, {}, {0}, {-1.25}, {1, 2, 3.5}, {-5, 0, 7}, {1e300, 1e-300}, {-1e200, -3}, {0.1, 0.2, 0}, {5e-324}, {math.MaxFloat64}, {1, 1, 1.0001}}

type aggKind struct {
	name string
	nk   number.Kind
	ik   sdkinstrument.Kind
	n    int
	make func(i int) aggregation.Aggregation
}

func hcfg(size int32) histogram.Config {
	return histogram.NewConfig(histogram.WithMaxSize(size))
}

var aggKinds = []aggKind{
	{"monotonic int", number.Int64Kind, sdkinstrument.SyncCounter, len(intVals), func(i int) aggregation.Aggregation { return sum.NewMonotonicInt64(intVals[i]) }},
	{"monotonic float", number.Float64Kind, sdkinstrument.SyncCounter, len(dblVals), func(i int) aggregation.Aggregation { return sum.NewMonotonicFloat64(dblVals[i]) }},
	{"sum int", number.Int64Kind, sdkinstrument.SyncUpDownCounter, len(intVals), func(i int) aggregation.Aggregation { return sum.NewNonMonotonicInt64(intVals[i]) }},
	{"sum float", number.Float64Kind, sdkinstrument.SyncUpDownCounter, len(dblVals), func(i int) aggregation.Aggregation { return sum.NewNonMonotonicFloat64(dblVals[i]) }},
	{"gauge int", number.Int64Kind, sdkinstrument.AsyncGauge, len(intVals), func(i int) aggregation.Aggregation { return gauge.NewInt64(intVals[i]) }},
	{"gauge float", number.Float64Kind, sdkinstrument.AsyncGauge, len(dblVals), func(i int) aggregation.Aggregation { return gauge.NewFloat64(dblVals[i]) }},
	{"histogram int", number.Int64Kind, sdkinstrument.SyncHistogram, len(intLists), func(i int) aggregation.Aggregation { return histogram.NewInt64(hcfg(8), intLists[i]...) }},
	{"histogram float", number.Float64Kind, sdkinstrument.SyncHistogram, len(dblLists), func(i int) aggregation.Aggregation { return histogram.NewFloat64(hcfg(8), dblLists[i]...) }},
	{"minmaxsumcount int", number.Int64Kind, sdkinstrument.SyncHistogram, len(intLists), func(i int) aggregation.Aggregation { return minmaxsumcount.NewInt64(intLists[i]...) }},
	{"minmaxsumcount float", number.Float64Kind, sdkinstrument.SyncHistogram, len(dblLists), func(i int) aggregation.Aggregation { return minmaxsumcount.NewFloat64(dblLists[i]...) }},
}

var attrSets = [][]attribute.KeyValue{
	{attribute.String("k", "v")},
	{},
	{attribute.Bool("b", true), attribute.Bool("b2", false)},
	{attribute.Int64("i", math.MinInt64), attribute.Int64("i0", 0)},
	{attribute.Float64("f", -0.5), attribute.Float64("fi", math.Inf(-1))},
	{attribute.String("empty", ""), attribute.String("uni", "\u00e9\U0001F600\x00")},
	{attribute.BoolSlice("bs", []bool{true, false, true}), attribute.BoolSlice("bs0", []bool{})},
	{attribute.Int64Slice("is", []int64{1, -1, math.MaxInt64}), attribute.Int64Slice("is0", nil)},
	{attribute.Float64Slice("fs", []float64{1.5, -2.5, 0}), attribute.Float64Slice("fs0", nil)},
	{attribute.StringSlice("ss", []string{"a", "", "b"}), attribute.StringSlice("ss0", nil)},
	{attribute.String("z", "1"), attribute.Int("a", 1), attribute.Bool("m", true), attribute.Float64Slice("q", []float64{1})},
	{{Key: "unset"}},
}

var times = [][2]time.Time{
	{time.Unix(1700000000, 1), time.Unix(1700000030, 999999999)},
	{time.Unix(0, 0), time.Unix(0, 1)},
	{time.Unix(1700000000, 5), time.Unix(1700000000, 5)},
}

// startAt and endAt differ for each point of a metric, so that a mixup shows.
func startAt(p int) time.Time { return times[0][0].Add(time.Duration(p) * 1001 * time.Millisecond) }
func endAt(p int) time.Time   { return times[0][1].Add(time.Duration(p) * 7 * time.Second) }

var resources = []*resource.Resource{
	resource.NewSchemaless(attribute.String("service.name", "a"), attribute.Int("n", 1)),
	resource.NewSchemaless(attribute.String("service.name", "b")),
	resource.Empty(),
	resource.NewSchemaless(attribute.String("service.name", "a"), attribute.StringSlice("l", []string{"x"})),
	// Prints like the first one.
	resource.NewSchemaless(attribute.String("service.name", "a"), attribute.String("n", "1")),
}

// freshRes makes an equal resource at another address, as a caller may.
func freshRes(i int) *resource.Resource {
	return resource.NewSchemaless(resources[i].Attributes()...)
}

// newMetricExporter makes an exporter to the collector.
func newMetricExporter(c *collector, opts ...func(*otelcol.Config)) metric.PushExporter {
	cfg := otelcol.NewConfig(otelcol.WithInsecure(), otelcol.WithEndpoint(c.addr), otelcol.WithCompressor("none"))
	cfg.SelfMetrics, cfg.SelfSpans = false, false
	for _, o := range opts {
		o(&cfg)
	}
	e, err := otelcol.NewExporter(bg, cfg)
	if err != nil {
		panic(err)
	}
	return e
}

// keptMetric is an exporter kept over executions where no history matters.
var keptMetric metric.PushExporter

func init() {
	mc.Register(&mc.Scenario{
		Name: "otlp-point", Props: []string{"C15"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "one point of every kind, value, temporality, attribute set and time",
		Body: func(r *mc.R) {
			k := aggKinds[r.Choose(len(aggKinds))]
			v := r.Choose(k.n)
			tempo := []aggregation.Temporality{aggregation.CumulativeTemporality, aggregation.DeltaTemporality}[r.Choose(2)]
			at := attrSets[r.Choose(len(attrSets))]
			tm := times[r.Choose(len(times))]
			c := coll()
			if keptMetric == nil {
				keptMetric = newMetricExporter(c)
			}
			d := data.Metrics{Resource: resources[0], Scopes: []data.Scope{{
				Library: instrumentation.Scope{Name: "lib", Version: "v1", SchemaURL: "http://x"},
				Instruments: []data.Instrument{{
					Descriptor: sdkinstrument.NewDescriptor("name", k.ik, k.nk, "a description", "By"),
					Points: []data.Point{{Attributes: attribute.NewSet(append([]attribute.KeyValue(nil), at...)...), Aggregation: k.make(v), Temporality: tempo,
						Start: tm[0], End: tm[1]}},
				}},
			}}}
			want := metricsIn(d)
			r.Logf("%s", want[0])
			if err := keptMetric.ExportMetrics(bg, d); err != nil {
				r.Failf("C15", "export: %v", err)
				return
			}
			judgeMetrics(r, c, want)
		},
	})
	mc.Register(&mc.Scenario{
		Name: "otlp-shape", Props: []string{"C15"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "sequences of exports of up to two scopes of up to two metrics of up to two points, resources changing in between",
		Body: func(r *mc.R) {
			c := coll()
			e := newMetricExporter(c)
			defer func() { _ = e.ShutdownMetrics(bg, data.Metrics{}) }()
			n := 2
			if r.Thorough {
				n = 3
			}
			for i := 0; i < n; i++ {
				var d data.Metrics
				if i == 0 {
					d = shape(r, 2)
				} else {
					d = preset(r.Choose(3), i)
				}
				d.Resource = freshRes(r.Choose(len(resources)))
				want := metricsIn(d)
				if r.Keeping() {
					for _, w := range want {
						r.Logf("export %d: %s", i, w)
					}
				}
				c.reset()
				if err := e.ExportMetrics(bg, d); err != nil {
					r.Failf("C15", "export: %v", err)
					return
				}
				judgeMetrics(r, c, want)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "otlp-large", Props: []string{"C15"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "exports around the size at which requests are split, every point arriving once",
		Body: func(r *mc.R) {
			c := coll()
			e := newMetricExporter(c)
			defer func() { _ = e.ShutdownMetrics(bg, data.Metrics{}) }()
			sizes := []int{999, 1000, 1001, 1499, 1500, 1501, 2999, 3000, 3001, 4600}
			total := sizes[r.Choose(len(sizes))]
			split := []int{1, 3, 50}[r.Choose(3)]
			k := aggKinds[r.Choose(len(aggKinds))]
			d := largeData(total, split, k)
			if err := e.ExportMetrics(bg, d); err != nil {
				r.Failf("C15", "export: %v", err)
				return
			}
			var got, cut []string
			reqs := c.gotMetrics()
			for _, m := range reqs {
				got = append(got, pointLines(metricsOut(m))...)
				if len(reqs) > 1 && m.DataPointCount() == batchMax {
					cut = append(cut, pointLines(metricsOut(lastMetricScope(m)))...)
				}
			}
			want := pointLines(metricsIn(d))
			if w2, g2, n := cutScopes(want, got, cut); n > 0 {
				r.Known("C15", cutFinding, "%d of %d points arrived without the schema URL of their scope", n, len(want))
				want, got = w2, g2
			}
			sort.Strings(want)
			sort.Strings(got)
			r.Logf("%d points in %d metrics of %s: %d requests", total, split, k.name, len(c.gotMetrics()))
			if w := diff(want, got); w != "" {
				r.Failf("C15", "of %d points: %s", total, w)
			}
		},
	})
}

// lastMetricScope has only the last scope of the last resource.
func lastMetricScope(m pmetric.Metrics) pmetric.Metrics {
	o := pmetric.NewMetrics()
	rm := m.ResourceMetrics().At(m.ResourceMetrics().Len() - 1)
	orm := o.ResourceMetrics().AppendEmpty()
	rm.Resource().CopyTo(orm.Resource())
	rm.ScopeMetrics().At(rm.ScopeMetrics().Len() - 1).CopyTo(orm.ScopeMetrics().AppendEmpty())
	return o
}

func pointLines(l []string) []string {
	var o []string
	for _, x := range l {
		if x != "end of metric" && x != "end of scope" {
			o = append(o, x)
		}
	}
	return o
}

func largeData(total, split int, k aggKind) data.Metrics {
	d := data.Metrics{Resource: resources[0]}
	for s := 0; s < split; s++ {
		if s%2 == 0 {
			lib := instrumentation.Scope{Name: fmt.Sprint("lib", s), Version: fmt.Sprint("v", s%3)}
			if s%4 == 2 || split == 3 {
				lib.SchemaURL = fmt.Sprint("http://s", s%8)
			}
			d.Scopes = append(d.Scopes, data.Scope{Library: lib})
		}
		sc := &d.Scopes[len(d.Scopes)-1]
		in := data.Instrument{Descriptor: sdkinstrument.NewDescriptor(fmt.Sprint("m", s), k.ik, k.nk, fmt.Sprint("d", s), []string{"", "By", "1"}[s%3])}
		for i := s; i < total; i += split {
			in.Points = append(in.Points, data.Point{Attributes: attribute.NewSet(attribute.Int("i", i)), Aggregation: k.make(0), Temporality: aggregation.DeltaTemporality,
				Start: startAt(i), End: endAt(i)})
		}
		sc.Instruments = append(sc.Instruments, in)
	}
	return d
}

var libs = []instrumentation.Scope{
	{Name: "lib", Version: "v1"},
	{Name: "lib", Version: "v2"},
	{Name: "", Version: ""},
	{Name: "lib", Version: "v1", SchemaURL: "http://s"},
}

// preset makes the data of a later export: nothing, one point, or scopes and
// instruments without points next to some with points.
func preset(which, n int) data.Metrics {
	var d data.Metrics
	if which == 0 {
		return d
	}
	for s := 0; s < which*2-1; s++ {
		sc := data.Scope{Library: libs[(s+n)%len(libs)]}
		for i := 0; i < which; i++ {
			k := aggKinds[(s+i+n)%len(aggKinds)]
			in := data.Instrument{Descriptor: sdkinstrument.NewDescriptor([]string{"x", "y"}[i], k.ik, k.nk, "", "")}
			for p := 0; p < (s+i)%2+which-1; p++ {
				in.Points = append(in.Points, data.Point{Attributes: attribute.NewSet(attribute.Int("q", p)), Aggregation: k.make((s + i + p) % k.n),
					Temporality: aggregation.DeltaTemporality, Start: startAt(p), End: endAt(p)})
			}
			sc.Instruments = append(sc.Instruments, in)
		}
		d.Scopes = append(d.Scopes, sc)
	}
	return d
}

// shape chooses scopes, metrics and points.
func shape(r *mc.R, maxScopes int) data.Metrics {
	var d data.Metrics
	ns := r.Choose(maxScopes + 1)
	for s := 0; s < ns; s++ {
		sc := data.Scope{Library: libs[(s+r.Choose(2))%len(libs)]}
		ni := r.Choose(3)
		for i := 0; i < ni; i++ {
			// The kinds differ so that a mixup shows.
			k := aggKinds[(s*3+i*2)%len(aggKinds)]
			in := data.Instrument{Descriptor: sdkinstrument.NewDescriptor([]string{"x", "y"}[i], k.ik, k.nk, []string{"", "d"}[s%2], []string{"1", ""}[i])}
			np := r.Choose(3)
			for p := 0; p < np; p++ {
				in.Points = append(in.Points, data.Point{Attributes: attribute.NewSet(attribute.Int("p", p)), Aggregation: k.make((s + i + p) % k.n),
					Temporality: aggregation.CumulativeTemporality, Start: startAt(p), End: endAt(p)})
			}
			sc.Instruments = append(sc.Instruments, in)
		}
		d.Scopes = append(d.Scopes, sc)
	}
	return d
}

// blocks joins the points of each metric; neither the order of points nor that
// of metrics or scopes is compared.
func blocks(l []string) []string {
	var out, cur []string
	for _, x := range l {
		switch x {
		case "end of scope":
		case "end of metric":
			sort.Strings(cur)
			out = append(out, strings.Join(cur, "\n     "))
			cur = nil
		default:
			cur = append(cur, x)
		}
	}
	sort.Strings(out)
	return out
}

func judgeMetrics(r *mc.R, c *collector, want []string) {
	reqs := c.gotMetrics()
	if len(reqs) > 1 {
		r.Failf("C15", "%d requests for one small export", len(reqs))
		return
	}
	var got []string
	for _, m := range reqs {
		got = append(got, metricsOut(m)...)
	}
	if w := diff(blocks(want), blocks(got)); w != "" {
		r.Failf("C15", "%s", w)
	}
}
