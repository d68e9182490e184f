import os
_d = os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/seedsrc'
n3 = {'__file__': os.path.join(_d, 'b3.py')}
exec(open(os.path.join(_d, 'b3.py')).read(), n3)
head, M, mut, NUM = n3['head'], n3['M'], n3['mut'], n3['NUM']
I = 'lightstep/instrumentation'

SEEDS = [
 dict(id="c24-second-readlock", property="C24", pkg=M,
  edits=[(M+"/internal/syncstate/bykeyvalue.go", '''	// In which case fp and attrs are now the overflow attributes.
	return acquireReadLockedKV(inst, fp, attrs, &overflow)
}
''', '''	// In which case fp and attrs are now the overflow attributes.
	return acquireOverflowKV(inst, fp, attrs)
}

// acquireOverflowKV searches for the overflow record.
func acquireOverflowKV(inst *Observer, fp uint64, attrs []attribute.KeyValue) (uint64, []attribute.KeyValue, *recordKV) {
	inst.lock.RLock()
	defer inst.lock.RUnlock()

	overflow := true
	return acquireReadLockedKV(inst, fp, attrs, &overflow)
}
''')],
  needs="a measurement beyond the instrument's cardinality limit, while a collection (or the creation of a series) waits for the instrument's lock between its two read locks",
  breaks="The read lock is taken twice by one goroutine; with a writer waiting in between both wait for each other for ever: recording and collection hang.",
  demo=head('"fmt"') + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr), sdk.WithPerformance(sdkinstrument.Performance{InstrumentCardinalityLimit: 3}))
	c, _ := mp.Meter("m").Int64Counter("c")
	done := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			opt := metric.WithAttributes(attribute.String("k", fmt.Sprint(g)))
			for i := 0; i < 200000; i++ {
				if g == 0 {
					if i%20 == 0 {
						rdr.Produce(nil)
					}
				} else {
					c.Add(ctx, 1, opt)
				}
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		t.Fatal("hangs")
	}
}
'''),
 dict(id="c01-narrow-count", property="C01", pkg=M,
  edits=[(M+"/internal/syncstate/sync.go", "	collectedCount uint32\n", "	collectedCount uint16\n"),
         (M+"/internal/syncstate/sync.go", "		if mods == rec.collectedCount {\n", "		if uint16(mods) == rec.collectedCount {\n"),
         (M+"/internal/syncstate/sync.go", "	rec.collectedCount = mods\n", "	rec.collectedCount = uint16(mods)\n")],
  needs="exactly a multiple of 65536 measurements of one series between two collections, and none after",
  breaks="The series looks unchanged, so the measurements are not collected; with no further measurement they are lost.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	for _, n := range []int64{65535, 65536, 65537, 131072} {
		rdr := sdk.NewManualReader("r")
		mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
		c, _ := mp.Meter("m").Int64Counter("c")
		c.Add(ctx, 1)
		rdr.Produce(nil)
		for i := int64(0); i < n; i++ {
			c.Add(ctx, 1)
		}
		if got := sums(rdr.Produce(nil))[""]; got != n+1 {
			t.Fatalf("counted %d of %d", got, n+1)
		}
	}
}
'''),
 dict(id="c16-unsampled-links", property="C16", pkg="lightstep/sdk/trace/exporters/otlp/otelcol",
  edits=[("lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go", '''	for _, link := range links {
		l1 := dest.AppendEmpty()
''', '''	for _, link := range links {
		if !link.SpanContext.HasTraceID() {
			// Nothing to link to.
			continue
		}
		l1 := dest.AppendEmpty()
''')],
  needs="a span with a link whose span context has no trace ID but attributes",
  breaks="The link and its attributes are left out of the export, and are not counted as dropped either.",
  demo='''package otelcol

import (
	"testing"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
)

func TestDemo(t *testing.T) {
	s := tracetest.SpanStub{Name: "s", Links: []trace.Link{{Attributes: []attribute.KeyValue{attribute.String("batch", "7")}}}}.Snapshot()
	out := (&client{}).d2pd([]trace.ReadOnlySpan{s})
	sp := out.ResourceSpans().At(0).ScopeSpans().At(0).Spans().At(0)
	if sp.Links().Len() != 1 {
		t.Fatalf("%d links, want 1", sp.Links().Len())
	}
	if v, ok := sp.Links().At(0).Attributes().Get("batch"); !ok || v.Str() != "7" {
		t.Fatal("attributes lost")
	}
}
'''),
 dict(id="c18-insecure-spreads", property="C18", pkg="launcher",
  edits=[("launcher/config.go", "		Insecure:                c.MetricExporterEndpointInsecure,\n", "		Insecure:                c.MetricExporterEndpointInsecure || c.SpanExporterEndpointInsecure,\n")],
  needs="an insecure span endpoint together with a secure metric endpoint",
  breaks="The setting of one signal takes effect for the other: metrics (with the access token) are sent unencrypted.",
  demo='''package launcher

import (
	"net"
	"testing"
	"time"

	"go.opentelemetry.io/otel"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	first := make(chan byte, 1)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b := make([]byte, 1)
			c.SetReadDeadline(time.Now().Add(20 * time.Second))
			if n, _ := c.Read(b); n == 1 {
				select {
				case first <- b[0]:
				default:
				}
			}
			c.Close()
		}
	}()
	go func() {
		ls := ConfigureOpentelemetry(WithServiceName("s"), WithAccessToken("token"), WithSpanExporterEndpoint(""), WithSpanExporterInsecure(true),
			WithMetricExporterEndpoint(l.Addr().String()), WithMetricReportingPeriod(200*time.Millisecond), WithMetricsBuiltinsEnabled(false))
		c, _ := otel.Meter("m").Int64Counter("c")
		c.Add(t.Context(), 1)
		_ = ls
	}()
	select {
	case b := <-first:
		if b != 0x16 {
			t.Fatalf("first byte %#x: not a TLS handshake", b)
		}
	case <-time.After(60 * time.Second):
		t.Fatal("no connection")
	}
}
'''),
 dict(id="c19-unknown-version-stops", property="C19", pkg="pipelines",
  edits=[("pipelines/metrics.go", '''				otel.Handle(fmt.Errorf("unrecognized builtin version: %v: %q", name, version))
				continue
''', '''				otel.Handle(fmt.Errorf("unrecognized builtin version: %v: %q", name, version))
				break
''')],
  needs="a list of built-in libraries in which one with an unknown version comes before valid ones",
  breaks="The libraries named after it are not started.",
  demo='''package pipelines

import (
	"context"
	"testing"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

func TestDemo(t *testing.T) {
	old := builtinMetricsVersions
	defer func() { builtinMetricsVersions = old }()
	started := 0
	builtinMetricsVersions = map[string]map[string][]initFunc{
		"a": {defaultVersion: {func(metric.MeterProvider) error { started++; return nil }}},
		"b": {defaultVersion: {func(metric.MeterProvider) error { started += 10; return nil }}},
	}
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(error) {}))
	_, err := NewMetricsPipeline(PipelineConfig{Endpoint: "127.0.0.1:1", Insecure: true, Resource: resource.Empty(), MetricsBuiltinsEnabled: true,
		MetricsBuiltinLibraries: []string{"a:stable", "a:experimental", "b:stable"}})
	if err != nil {
		t.Fatal(err)
	}
	if started != 11 {
		t.Fatalf("started %d, want both", started)
	}
	_ = context.Background
}
'''),
 dict(id="c25-other-without-steal", property="C25", pkg=I+"/host",
  edits=[(I+"/host/host.go", "				hostTime.Softirq +\n				hostTime.Steal +\n", "				hostTime.Softirq +\n")],
  needs="a host with stolen CPU time (a busy virtual machine)",
  breaks="CPU time in state 'other' leaves the stolen time out, so that the states do not add up to the host's time.",
  demo='''package host

import (
	"context"
	"os"
	"path/filepath"
	"testing"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.Mkdir(filepath.Join(d, "net"), 0o755)
	put := func(n, s string) {
		if err := os.WriteFile(filepath.Join(d, n), []byte(s), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	put("stat", "cpu  100 200 300 400 500 600 700 800 0 0\\ncpu0 100 200 300 400 500 600 700 800 0 0\\n")
	put("meminfo", "MemTotal: 1000 kB\\nMemFree: 100 kB\\nMemAvailable: 500 kB\\nBuffers: 1 kB\\nCached: 1 kB\\nSReclaimable: 1 kB\\n")
	put("net/dev", "Inter-|   Receive  |  Transmit\\n face |bytes |bytes\\n  eth0: 1 11 0 0 0 0 0 0 2 12 0 0 0 0 0 0\\n")
	t.Setenv("HOST_PROC", d)
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	if err := Start(WithMeterProvider(mp)); err != nil {
		t.Fatal(err)
	}
	_ = context.Background
	total := 0.0
	for _, s := range rdr.Produce(nil).Scopes {
		for _, i := range s.Instruments {
			if i.Descriptor.Name != "system.cpu.time" {
				continue
			}
			for _, p := range i.Points {
				total += number.ToFloat64(p.Aggregation.(aggregation.Sum).Sum())
			}
		}
	}
	if total < 35.99 || total > 36.01 {
		t.Fatalf("states add up to %v s, want 36", total)
	}
}
'''),
 dict(id="c07-idle-not-reset", property="C07", pkg=M, edits=mut('m1.py', 's-inactive-noreset'),
  needs="a series that is idle for a while, but less than the configured periods, several times with measurements in between",
  breaks="Idle periods add up across activity, so that a series is dropped although it was never idle that long.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, delta()), sdk.WithPerformance(sdkinstrument.Performance{InactiveCollectionPeriods: 4, InstrumentCardinalityLimit: 2}))
	c, _ := mp.Meter("m").Int64Counter("c")
	for round := 0; round < 3; round++ {
		c.Add(ctx, 1, metric.WithAttributes(attribute.String("k", "a")))
		rdr.Produce(nil)
		rdr.Produce(nil)
		rdr.Produce(nil)
	}
	// The series was never idle for four periods, so it still has the only place.
	c.Add(ctx, 1, metric.WithAttributes(attribute.String("k", "b")))
	got := sums(rdr.Produce(nil))
	if got["otel.metric.overflow=true"] != 1 {
		t.Fatalf("series a was dropped: %v", got)
	}
}
'''),
 dict(id="c10-drop-ends-views", property="C10", pkg=M, edits=mut('m1.py', 'v-first-match'),
  needs="two view clauses that match one instrument, the first one dropping",
  breaks="Clauses after a drop clause are ignored: the metric they ask for is missing.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr,
		view.WithClause(view.MatchInstrumentName("c"), view.WithAggregation(aggregation.DropKind)),
		view.WithClause(view.MatchInstrumentName("c"), view.WithName("d"))))
	c, _ := mp.Meter("m").Int64Counter("c")
	c.Add(context.Background(), 5)
	if got := sums(rdr.Produce(nil))[""]; got != 5 {
		t.Fatalf("got %v, want 5 under the name d", got)
	}
}
'''),
 dict(id="c05-hash-only-insert", property="C05", pkg=M, edits=mut('m1.py', 'k-next-lost'),
  needs="two attribute sets with the same fingerprint (hash collision), recorded in turn",
  breaks="Inserting the second set drops the first one's record from memory: what was recorded and not yet collected is lost.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, delta()))
	c, _ := mp.Meter("m").Int64Counter("c")
	// Fingerprints of slices do not depend on the order of elements.
	c.Add(ctx, 1, metric.WithAttributes(attribute.IntSlice("k", []int{1, 2})))
	c.Add(ctx, 2, metric.WithAttributes(attribute.IntSlice("k", []int{2, 1})))
	total := int64(0)
	got := sums(rdr.Produce(nil))
	for _, v := range got {
		total += v
	}
	if total != 3 || len(got) != 2 {
		t.Fatalf("got %v", got)
	}
}
'''),
 dict(id="c22-negative-zero", property="C22", pkg=M,
  edits=[(M+"/aggregator/aggregator.go", "		if num < 0 {\n", "		if math.Signbit(float64(num)) {\n"), (M+"/aggregator/aggregator.go", '	"fmt"\n', '	"fmt"\n	"math"\n')],
  needs="the value -0.0 on a floating point histogram", breaks="A zero is refused as a negative value.", demo=head('"math"') + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	h, _ := mp.Meter("m").Float64Histogram("h")
	h.Record(ctx, math.Copysign(0, -1))
	h.Record(ctx, 1)
	d := rdr.Produce(nil)
	if n := d.Scopes[0].Instruments[0].Points[0].Aggregation.(aggregation.Histogram).Count(); n != 2 {
		t.Fatalf("counted %d of 2", n)
	}
}
'''),
]
