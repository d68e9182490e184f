import os
ns = {}
_d = os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/seedsrc'
exec(open(os.path.join(_d, 'b3.py')).read(), dict(__file__=os.path.join(_d, 'b3.py')) ) if False else None
n3 = {'__file__': os.path.join(_d, 'b3.py')}
exec(open(os.path.join(_d, 'b3.py')).read(), n3)
head, M, mut, NUM = n3['head'], n3['M'], n3['mut'], n3['NUM']

SEEDS = [
 dict(id="c08-reset-detection", property="C08", pkg=M,
  edits=[(M+"/aggregator/sum/sum.go", "	operand.value = argument.value - operand.value\n", "	if operand.value > argument.value {\n		// The observed process was restarted: it counts from zero again.\n		operand.value = 0\n	}\n	operand.value = argument.value - operand.value\n")],
  needs="an asynchronous up-down counter (or a counter that goes back) read with delta temporality, observed lower than before",
  breaks="The deltas no longer add up to the last observation: a decrease from 10 to 4 is reported as +4.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality })))
	v := int64(0)
	_, err := mp.Meter("m").Int64ObservableUpDownCounter("c", metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error {
		o.Observe(v)
		return nil
	}))
	if err != nil {
		t.Fatal(err)
	}
	total := int64(0)
	for _, v = range []int64{10, 4, 7, -2} {
		for _, s := range sums(rdr.Produce(nil)) {
			total += s
		}
		if total != v {
			t.Fatalf("observed %d, the deltas add up to %d", v, total)
		}
	}
}
'''),
 dict(id="c14-flush-first-error", property="C14", pkg=M, edits=mut('m2.py', 'pv-flush-stop'),
  needs="several readers, one of which fails to flush before others were asked",
  breaks="ForceFlush stops at the first failing reader: the readers after it are not flushed and their errors are not returned.",
  demo=head() + '''
type demoExp struct {
	err     error
	flushes int
}

func (e *demoExp) String() string { return "demo" }
func (e *demoExp) ExportMetrics(context.Context, data.Metrics) error   { return nil }
func (e *demoExp) ShutdownMetrics(context.Context, data.Metrics) error { return nil }
func (e *demoExp) ForceFlushMetrics(context.Context, data.Metrics) error {
	e.flushes++
	return e.err
}

func TestDemo(t *testing.T) {
	a, b := &demoExp{err: errors.New("full")}, &demoExp{}
	mp := sdk.NewMeterProvider(sdk.WithReader(sdk.NewPeriodicReader(a, time.Hour)), sdk.WithReader(sdk.NewPeriodicReader(b, time.Hour)))
	defer mp.Shutdown(context.Background())
	if err := mp.ForceFlush(context.Background()); err == nil {
		t.Fatal("no error")
	}
	if a.flushes != 1 || b.flushes != 1 {
		t.Fatalf("flushes: %d and %d", a.flushes, b.flushes)
	}
}
'''),
 dict(id="c11-hint-limit-histogram", property="C11", pkg=M,
  edits=[(M+"/internal/viewstate/viewstate.go", "		acfg.Histogram = cfg\n	}\n", "		acfg = aggregator.Config{Histogram: cfg}\n	}\n")],
  needs="a description hint with a histogram size, on an instrument whose reader was configured with another aggregator setting (a cardinality limit)",
  breaks="The hint resets the settings it does not name: the reader's cardinality limit is lost.",
  demo=head('"fmt"') + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	for _, desc := range []string{"", `{"description":"d","config":{"histogram":{"max_size":20}}}`} {
		rdr := sdk.NewManualReader("r")
		mp := sdk.NewMeterProvider(sdk.WithReader(rdr), sdk.WithPerformance(sdkinstrument.Performance{AggregatorCardinalityLimit: 3}))
		h, err := mp.Meter("m").Int64Histogram("h", metric.WithDescription(desc))
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 10; i++ {
			h.Record(ctx, 1, metric.WithAttributes(attribute.String("k", fmt.Sprint(i))))
		}
		if n := len(rdr.Produce(nil).Scopes[0].Instruments[0].Points); n > 4 {
			t.Fatalf("description %q: %d series, the limit is 3", desc, n)
		}
	}
}
'''),
 dict(id="c15-first-points-start", property="C15", pkg=M+"/internal/export",
  edits=[(M+"/internal/export/export.go", '''	for _, inP := range inM.Points {
		dp := s.DataPoints().AppendEmpty()

		dp.SetStartTimestamp(pcommon.NewTimestampFromTime(inP.Start))
		dp.SetTimestamp(pcommon.NewTimestampFromTime(inP.End))

		internal.CopyAttributes(dp.Attributes(), inP.Attributes)

		switch t := inP.Aggregation.(type) {
		case *sum.MonotonicInt64:
''', '''	start := pcommon.NewTimestampFromTime(inM.Points[0].Start)
	for _, inP := range inM.Points {
		dp := s.DataPoints().AppendEmpty()

		dp.SetStartTimestamp(start)
		dp.SetTimestamp(pcommon.NewTimestampFromTime(inP.End))

		internal.CopyAttributes(dp.Attributes(), inP.Attributes)

		switch t := inP.Aggregation.(type) {
		case *sum.MonotonicInt64:
''')],
  needs="a sum with two points that began at different times",
  breaks="All points of a sum are exported with the start time of the first one.",
  demo='''package export

import (
	"testing"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/resource"
)

func TestDemo(t *testing.T) {
	t0 := time.Unix(1700000000, 0)
	var pts []data.Point
	for i := 0; i < 2; i++ {
		pts = append(pts, data.Point{Attributes: attribute.NewSet(attribute.Int("i", i)), Aggregation: sum.NewMonotonicInt64(int64(i)),
			Temporality: aggregation.CumulativeTemporality, Start: t0.Add(time.Duration(i) * time.Minute), End: t0.Add(time.Hour)})
	}
	out := d2pd(&internal.ResourceMap{}, data.Metrics{Resource: resource.Empty(), Scopes: []data.Scope{{Instruments: []data.Instrument{{
		Descriptor: sdkinstrument.NewDescriptor("c", sdkinstrument.SyncCounter, number.Int64Kind, "", ""), Points: pts}}}}}, true)
	dps := out.ResourceMetrics().At(0).ScopeMetrics().At(0).Metrics().At(0).Sum().DataPoints()
	for i, p := range pts {
		if got := dps.At(i).StartTimestamp().AsTime(); !got.Equal(p.Start) {
			t.Fatalf("point %d starts %v, want %v", i, got, p.Start)
		}
	}
}
'''),
 dict(id="c21-reuse-storage", property="C21", pkg=M, edits=mut('m1.py', 'b-noinit-reuse'),
  needs="a histogram with a configured size, read with delta temporality (the storage is moved out and back), more than one collection",
  breaks="Storage made for an output is not initialised: after it was swapped into the series, its configured size is lost.",
  demo=head('"github.com/lightstep/go-expohisto/structure"', '"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"') + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	for _, reuse := range []bool{false, true} {
		rdr := sdk.NewManualReader("r")
		mp := sdk.NewMeterProvider(sdk.WithReader(rdr, delta(), view.WithClause(view.WithAggregatorConfig(aggregator.Config{Histogram: structure.NewConfig(structure.WithMaxSize(4))}))))
		h, _ := mp.Meter("m").Float64Histogram("h")
		var d data.Metrics
		for round := 0; round < 3; round++ {
			for v := 1.0; v < 1e6; v *= 3 {
				h.Record(ctx, v)
			}
			if reuse {
				d = rdr.Produce(&d)
			} else {
				d = rdr.Produce(nil)
			}
			p := d.Scopes[0].Instruments[0].Points[0].Aggregation.(aggregation.Histogram)
			if n := p.Positive().Len(); n > 4 {
				t.Fatalf("collection %d has %d buckets, the limit is 4", round, n)
			}
		}
	}
}
'''),
 dict(id="c09-failed-callback-open", property="C09", pkg=M, edits=mut('m2.py', 'cb-noinvalidate-err'),
  needs="a callback that keeps its observer and returns an error, and an observation after it returned",
  breaks="The observer of a callback that failed stays usable: what is observed through it afterwards appears in that collection.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	m := mp.Meter("m")
	a, _ := m.Int64ObservableCounter("a")
	b, _ := m.Int64ObservableCounter("b")
	var kept metric.Observer
	_, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		kept = o
		return errors.New("cannot tell")
	}, a)
	if err != nil {
		t.Fatal(err)
	}
	_, err = m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		o.ObserveInt64(b, 1)
		kept.ObserveInt64(a, 77)
		return nil
	}, b)
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range rdr.Produce(nil).Scopes {
		for _, i := range s.Instruments {
			if i.Descriptor.Name == "a" && len(i.Points) > 0 {
				t.Fatal("an observation made after the callback returned was collected")
			}
		}
	}
}
'''),
 dict(id="c23-file-name-only", property="C23", pkg=M+"/internal/doevery",
  edits=[(M+"/internal/doevery/doevery.go", "		file: file,\n", "		file: file[strings.LastIndexByte(file, '/')+1:],\n"), (M+"/internal/doevery/doevery.go", '	"runtime"\n', '	"runtime"\n	"strings"\n')],
  needs="two conditions on the same line number of files of the same name in different packages",
  breaks="They share one rate limit: the second condition is not reported at all while the first one is.",
  demo='''package doevery

import (
	"testing"
	"time"
)

func first(f func()) {
//line /src/a/record.go:40
	TimePeriod(time.Hour, f)
}

func second(f func()) {
//line /src/b/record.go:40
	TimePeriod(time.Hour, f)
}

func TestDemo(t *testing.T) {
	n := [2]int{}
	for i := 0; i < 3; i++ {
		first(func() { n[0]++ })
		second(func() { n[1]++ })
	}
	if n != [2]int{1, 1} {
		t.Fatalf("reports: %v", n)
	}
}
'''),
 dict(id="c06-limit-of-one", property="C06", pkg=M, edits=mut('m2.py', 'ag-card-valid'),
  needs="a view whose aggregator configuration sets the cardinality limit to one",
  breaks="The limit is replaced by the default of 2000 series.",
  demo=head('"fmt"', '"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"') + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	for _, limit := range []uint32{1, 2, 5} {
		rdr := sdk.NewManualReader("r")
		mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithClause(view.MatchInstrumentName("c"), view.WithAggregatorConfig(aggregator.Config{CardinalityLimit: limit}))))
		c, err := mp.Meter("m").Int64Counter("c")
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 10; i++ {
			c.Add(ctx, 1, metric.WithAttributes(attribute.String("k", fmt.Sprint(i))))
		}
		if n := len(rdr.Produce(nil).Scopes[0].Instruments[0].Points); n > int(limit)+1 {
			t.Fatalf("%d series, the limit is %d", n, limit)
		}
	}
}
'''),
]
