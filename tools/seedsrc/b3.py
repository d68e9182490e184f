import os
ns = {}
_d = os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/seedsrc'
exec(open(os.path.join(_d, 'b1.py')).read(), ns)
HEAD, M = ns['HEAD'], ns['M']
def mut(f, i):
    n = {}; exec(open(os.path.join(_d, '..', 'mutants', f)).read(), n)
    for m in n['M']:
        if m[0] == i: return [(m[2], m[3], m[4])]
    raise KeyError(i)
def head(*imports):
    h = HEAD
    for i in imports:
        h = h.replace('"testing"\n', '"testing"\n\t%s\n' % i, 1)
    return h

NUM = '"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"'

SEEDS = [
 dict(id="c03-zero-sum-merge", property="C03", pkg=M, edits=mut('m2.py', 'mm-merge-count'),
  needs="a min/max/sum/count series whose measurements so far add up to zero, merged with later ones in another collection (cumulative) or from another attribute set (view)",
  breaks="The minimum (or maximum) forgets the measurements before: it is not the extreme of the measurements that the count and sum describe.",
  demo=head(NUM) + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithClause(view.WithAggregation(aggregation.MinMaxSumCountKind))))
	h, _ := mp.Meter("m").Float64Histogram("h")
	h.Record(ctx, 0)
	h.Record(ctx, 0)
	rdr.Produce(nil)
	h.Record(ctx, 5)
	d := rdr.Produce(nil)
	p := d.Scopes[0].Instruments[0].Points[0].Aggregation.(aggregation.MinMaxSumCount)
	if p.Count() != 3 || p.Min().CoerceToFloat64(number.Float64Kind) != 0 || p.Max().CoerceToFloat64(number.Float64Kind) != 5 {
		t.Fatalf("count %d min %v max %v", p.Count(), p.Min().CoerceToFloat64(number.Float64Kind), p.Max().CoerceToFloat64(number.Float64Kind))
	}
}
'''),
 dict(id="c05-callers-slice", property="C05", pkg=M, edits=mut('m1.py', 's-nocopy-attrs'),
  needs="the key-value path, a caller that uses its slice again after the call, and two attribute sets of equal fingerprint",
  breaks="The slice of the caller is retained: after the caller changed it, a measurement for a different attribute set is added to the old series.",
  demo=head('"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"') + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	c, _ := mp.Meter("m").Int64Counter("c")
	kvs := []attribute.KeyValue{attribute.IntSlice("x", []int{1, 2})}
	c.(bypass.FastInt64Adder).AddWithKeyValues(ctx, 1, kvs...)
	kvs[0] = attribute.IntSlice("x", []int{2, 1})
	c.(bypass.FastInt64Adder).AddWithKeyValues(ctx, 10, kvs...)
	got := sums(rdr.Produce(nil))
	if len(got) != 2 {
		t.Fatalf("two attribute sets in %d series: %v", len(got), got)
	}
}
'''),
 dict(id="c07-only-last-released", property="C07", pkg=M, edits=mut('m1.py', 'a-lastacc'),
  needs="an instrument with several outputs (two readers, or two views), a delta reader, and series that go idle",
  breaks="An idle series never leaves the output's memory for all but the last reader or view, so that it keeps counting against the cardinality limit.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	one, two := sdk.NewManualReader("one"), sdk.NewManualReader("two")
	mp := sdk.NewMeterProvider(sdk.WithReader(one, delta()), sdk.WithReader(two, delta()), sdk.WithPerformance(sdkinstrument.Performance{
		InactiveCollectionPeriods:  1,
		AggregatorCardinalityLimit: 3,
	}))
	c, _ := mp.Meter("m").Int64Counter("c")
	for i := 0; i < 10; i++ {
		c.Add(ctx, 1, metric.WithAttributes(attribute.Int("k", i)))
		for _, r := range []*sdk.ManualReader{one, two} {
			got := sums(r.Produce(nil))
			if got["otel.metric.overflow=true"] != 0 {
				t.Fatalf("overflow with one series in use, round %d: %v", i, got)
			}
		}
		for j := 0; j < 3; j++ {
			one.Produce(nil)
			two.Produce(nil)
		}
	}
}
'''),
 dict(id="c09-undeclared-single", property="C09", pkg=M, edits=mut('m2.py', 'as-undeclared'),
  needs="a callback registered for exactly one instrument that observes another one",
  breaks="Observations of an instrument that the callback did not declare are reported.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	m := mp.Meter("m")
	a, _ := m.Int64ObservableCounter("a")
	b, _ := m.Int64ObservableCounter("b")
	_, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		o.ObserveInt64(a, 1)
		o.ObserveInt64(b, 10)
		return nil
	}, a)
	if err != nil {
		t.Fatal(err)
	}
	if got := sums(rdr.Produce(nil)); got[""] != 1 {
		t.Fatalf("undeclared instrument reported: %v", got)
	}
}
'''),
 dict(id="c10-three-float-outputs", property="C10", pkg=M, edits=mut('m1.py', 'v-combine-float'),
  needs="a floating point instrument with three or more outputs, over readers and views together",
  breaks="The outputs are not combined with the right number kind, recording fails.",
  demo=head(NUM) + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr, other := sdk.NewManualReader("r"), sdk.NewManualReader("s")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr,
		view.WithClause(view.MatchInstrumentName("c")),
		view.WithClause(view.MatchInstrumentName("c"), view.WithName("copy"))), sdk.WithReader(other))
	c, _ := mp.Meter("m").Float64Counter("c")
	c.Add(ctx, 1.5)
	n := 0
	for _, r := range []*sdk.ManualReader{rdr, other} {
		for _, i := range r.Produce(nil).Scopes[0].Instruments {
			for _, p := range i.Points {
				if p.Aggregation.(aggregation.Sum).Sum().CoerceToFloat64(number.Float64Kind) == 1.5 {
					n++
				}
			}
		}
	}
	if n != 3 {
		t.Fatalf("%d outputs of 3", n)
	}
}
'''),
 dict(id="c13-timeout-silent", property="C13", pkg=M, edits=mut('m2.py', 'pr-err-swallow'),
  needs="a periodic export that returns exactly the deadline error of its context",
  breaks="The failure of a periodic export is not reported.",
  demo=head('"go.opentelemetry.io/otel"') + '''
type slow struct{}

func (slow) String() string { return "slow" }
func (slow) ExportMetrics(ctx context.Context, _ data.Metrics) error {
	<-ctx.Done()
	return ctx.Err()
}
func (slow) ShutdownMetrics(context.Context, data.Metrics) error   { return nil }
func (slow) ForceFlushMetrics(context.Context, data.Metrics) error { return nil }

func TestDemo(t *testing.T) {
	got := make(chan error, 1000)
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) { got <- err }))
	mp := sdk.NewMeterProvider(sdk.WithReader(sdk.NewPeriodicReader(slow{}, 30*time.Millisecond, sdk.WithTimeout(10*time.Millisecond))))
	defer mp.Shutdown(context.Background())
	select {
	case err := <-got:
		if !errors.Is(err, context.DeadlineExceeded) {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("no export that timed out was reported")
	}
}
'''),
 dict(id="c15-negative-offset", property="C15", pkg=M+"/internal/export", edits=mut('m3.py', 'ex-offset'),
  needs="a histogram of values all below one, whose bucket offset is negative",
  breaks="The buckets of the exported histogram describe other values.",
  demo='''package export

import (
	"testing"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
)

func TestDemo(t *testing.T) {
	h := histogram.NewFloat64(histogram.NewConfig(), 0.25, 0.5, 0.125)
	out := d2pd(&internal.ResourceMap{}, pointToMetric(h), true)
	p := out.ResourceMetrics().At(0).ScopeMetrics().At(0).Metrics().At(0).ExponentialHistogram().DataPoints().At(0)
	if p.Positive().Offset() != h.Positive().Offset() {
		t.Fatalf("offset %d exported as %d", h.Positive().Offset(), p.Positive().Offset())
	}
}
'''),
 dict(id="c15-resource-cache", property="C15", pkg="lightstep/sdk/internal", edits=mut('m3.py', 'co-resource-cache'),
  needs="two providers with different resources of equally many attributes that share an exporter",
  breaks="Metrics and spans are exported under the resource of another provider.",
  demo='''package internal

import (
	"testing"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/resource"
)

func TestDemo(t *testing.T) {
	var rm ResourceMap
	for _, name := range []string{"a", "b", "a", "a", "c"} {
		r := rm.Get(resource.NewSchemaless(attribute.String("service.name", name)))
		v, _ := r.Attributes().Get("service.name")
		if v.AsString() != name {
			t.Fatalf("resource %s exported as %s", name, v.AsString())
		}
	}
}
'''),
 dict(id="c17-canceled-is-ok", property="C17", pkg=M+"/internal/export", edits=mut('m3.py', 'ex-err-swallow'),
  needs="an export that fails because its context was canceled",
  breaks="The caller of the export is told that it succeeded.",
  demo='''package export

import (
	"context"
	"errors"
	"testing"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"go.opentelemetry.io/collector/component"
	"go.opentelemetry.io/collector/consumer"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel/attribute"
	noopmetric "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/sdk/resource"
	nooptrace "go.opentelemetry.io/otel/trace/noop"
)

type failing struct{ err error }

func (failing) Start(context.Context, component.Host) error { return nil }
func (failing) Shutdown(context.Context) error              { return nil }
func (failing) Capabilities() consumer.Capabilities         { return consumer.Capabilities{} }
func (f failing) ConsumeMetrics(context.Context, pmetric.Metrics) error {
	return f.err
}

func TestDemo(t *testing.T) {
	for _, err := range []error{nil, errors.New("x"), context.DeadlineExceeded, context.Canceled} {
		got := ExportMetrics(context.Background(), data.Metrics{Resource: resource.NewSchemaless(attribute.String("a", "b"))},
			nooptrace.NewTracerProvider().Tracer("t"), noopmetric.Int64Counter{}, &internal.ResourceMap{}, failing{err}, true)
		if !errors.Is(got, err) || (got == nil) != (err == nil) {
			t.Errorf("export failed with %v, the caller got %v", err, got)
		}
	}
}
'''),
 dict(id="c22-negative-infinity", property="C22", pkg=M, edits=mut('m2.py', 'ag-inf-pos'),
  needs="a measurement of negative infinity on an instrument that takes negative values",
  breaks="The sum of the series becomes infinite and stays so.",
  demo=head('"math"', NUM) + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	c, _ := mp.Meter("m").Float64UpDownCounter("c")
	c.Add(ctx, 1)
	c.Add(ctx, math.Inf(-1))
	c.Add(ctx, math.Inf(+1))
	c.Add(ctx, 2)
	p := rdr.Produce(nil).Scopes[0].Instruments[0].Points[0].Aggregation.(aggregation.Sum)
	if p.Sum().CoerceToFloat64(number.Float64Kind) != 3 {
		t.Fatalf("sum %v, want 3", p.Sum().CoerceToFloat64(number.Float64Kind))
	}
}
'''),
 dict(id="c23-conditions-share", property="C23", pkg=M, edits=mut('m2.py', 'de-line'),
  needs="two error conditions that occur within one period, first one and then the other",
  breaks="The report of one condition suppresses the other, although that never was reported.",
  demo=head('"math"', '"go.opentelemetry.io/otel"') + '''
func TestDemo(t *testing.T) {
	n := 0
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) { n++ }))
	ctx := context.Background()
	mp := sdk.NewMeterProvider(sdk.WithReader(sdk.NewManualReader("r")))
	c, _ := mp.Meter("m").Float64Counter("c")
	c.Add(ctx, math.NaN())
	c.Add(ctx, math.Inf(1))
	c.Add(ctx, -1)
	if n != 3 {
		t.Fatalf("%d of 3 conditions reported", n)
	}
}
'''),
 dict(id="c11-smaller-limit", property="C11", pkg=M, edits=mut('m1.py', 'v-hint-card'),
  needs="a hint whose cardinality limit is smaller than the limit in effect",
  breaks="The cardinality limit of the hint is ignored.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	c, err := mp.Meter("m").Int64Counter("c", metric.WithDescription(`{"config":{"cardinality_limit":3}}`))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 10; i++ {
		c.Add(ctx, 1, metric.WithAttributes(attribute.Int("k", i)))
	}
	if got := sums(rdr.Produce(nil)); len(got) != 3 || got["otel.metric.overflow=true"] != 8 {
		t.Fatalf("limit of three: %v", got)
	}
}
'''),
 dict(id="c14-unit-identity", property="C14", pkg=M, edits=mut('m2.py', 'me-desc-ident'),
  needs="two instruments that differ in nothing but their unit",
  breaks="Asking for the second instrument returns the first, and no conflict is reported.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	mp := sdk.NewMeterProvider(sdk.WithReader(sdk.NewManualReader("r")))
	m := mp.Meter("m")
	_, err := m.Int64Counter("c", metric.WithUnit("By"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := m.Int64Counter("c", metric.WithUnit("ms")); err == nil {
		t.Fatal("instruments of different unit are one")
	}
}
'''),
 dict(id="c20-last-readers-views", property="C20", pkg=M, edits=mut('m2.py', 'pv-views-swap'),
  needs="two readers with different views or temporality",
  breaks="Every reader uses the views of the last one.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	one, two := sdk.NewManualReader("one"), sdk.NewManualReader("two")
	mp := sdk.NewMeterProvider(sdk.WithReader(one, delta()), sdk.WithReader(two))
	c, _ := mp.Meter("m").Int64Counter("c")
	c.Add(ctx, 1)
	one.Produce(nil)
	two.Produce(nil)
	c.Add(ctx, 1)
	if a, b := sums(one.Produce(nil))[""], sums(two.Produce(nil))[""]; a != 1 || b != 2 {
		t.Fatalf("delta %d, cumulative %d", a, b)
	}
}
'''),
 dict(id="c24-collect-readlock", property="C24", pkg=M, edits=mut('m1.py', 's-rlock'), flags="-race",
  needs="two readers collecting at the same time while series are dropped",
  breaks="Both collections change the map of series at once: a data race that can crash the process.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdrs := []*sdk.ManualReader{sdk.NewManualReader("one"), sdk.NewManualReader("two")}
	mp := sdk.NewMeterProvider(sdk.WithReader(rdrs[0], delta()), sdk.WithReader(rdrs[1], delta()),
		sdk.WithPerformance(sdkinstrument.Performance{InactiveCollectionPeriods: 1}))
	c, _ := mp.Meter("m").Int64Counter("c")
	var wg sync.WaitGroup
	for _, r := range rdrs {
		r := r
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				c.Add(ctx, 1, metric.WithAttributes(attribute.Int("k", i%10)))
				r.Produce(nil)
			}
		}()
	}
	wg.Wait()
}
'''),
]
