import os
_d = os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/seedsrc'
n3 = {'__file__': os.path.join(_d, 'b3.py')}
exec(open(os.path.join(_d, 'b3.py')).read(), n3)
head, M, mut, NUM = n3['head'], n3['M'], n3['mut'], n3['NUM']

SEEDS = [
 dict(id="c17-port-taken", property="C17", pkg=M+"/exporters/prom",
  edits=[(M+"/exporters/prom/client.go", '''	err = exp.Start(ctx, c)
	if err != nil {
		return nil, err
	}
''', '''	// The listener may need a while, do not make the caller wait.
	started := make(chan error, 1)
	go func() { started <- exp.Start(ctx, c) }()
	select {
	case err = <-started:
		if err != nil {
			otel.Handle(err)
		}
	case <-time.After(5 * time.Second):
	}
''')],
  needs="a port that is in use when the Prometheus exporter is made",
  breaks="No error is returned to the caller, and what is exported can never be scraped.",
  demo='''package prom

import (
	"context"
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "0.0.0.0:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	e, err := NewExporter(context.Background(), NewConfig(WithPort(l.Addr().(*net.TCPAddr).Port)))
	if err == nil {
		t.Fatal("no error", e)
	}
}
'''),
 dict(id="c07-overflow-stays", property="C07", pkg=M,
  edits=[(M+"/internal/syncstate/sync.go", '''	if rec.inactiveCount < inst.performance.InactiveCollectionPeriods {
		return true
	}
''', '''	if rec.inactiveCount < inst.performance.InactiveCollectionPeriods {
		return true
	}

	// The overflow record will be needed again.
	if fp == overflowAttributesFingerprint {
		return true
	}
''')],
  needs="an instrument that reached its cardinality limit once and is idle afterwards",
  breaks="The overflow series is never dropped from memory, and takes a place of the limit.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(
		sdk.WithReader(rdr, view.WithDefaultAggregationTemporalitySelector(aggregation.LowMemoryTemporality)),
		sdk.WithPerformance(sdkinstrument.Performance{InstrumentCardinalityLimit: 4, InactiveCollectionPeriods: 1}),
	)
	c, _ := mp.Meter("m").Int64Counter("c")
	for round := 0; round < 2; round++ {
		for i := 0; i < 3 + 2*(1-round); i++ {
			c.Add(ctx, 1, metric.WithAttributes(attribute.Int("i", i)))
		}
		for i := 0; i < 6; i++ {
			d := rdr.Produce(nil)
			n := len(d.Scopes[0].Instruments[0].Points)
			if i == 0 && round == 1 {
				for _, p := range d.Scopes[0].Instruments[0].Points {
					if p.Attributes.HasValue("otel.metric.overflow") {
						t.Fatalf("%d points, one of overflow", n)
					}
				}
			}
		}
	}
}
'''),
 dict(id="c04-same-value-skip", property="C04", pkg=M,
  edits=[(M+"/aggregator/gauge/gauge.go", '''	// The sequence number is allocated under the lock so that the
''', '''	if state.seq != 0 && state.value == number {
		// Nothing to do, the value is set already.
		return
	}

	// The sequence number is allocated under the lock so that the
''')],
  needs="a view that merges two attribute sets, the first of which is set to the value it has after the other one was set, all between two collections",
  breaks="The merged gauge does not report the last value set.",
  demo=head(NUM) + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithClause(view.WithKeys([]attribute.Key{}))))
	g, err := mp.Meter("m").Int64UpDownCounter("g", metric.WithDescription(`{"aggregation":"gauge"}`))
	if err != nil {
		t.Fatal(err)
	}
	a, b := metric.WithAttributes(attribute.Int("x", 1)), metric.WithAttributes(attribute.Int("x", 2))
	g.Add(ctx, 5, a)
	g.Add(ctx, 7, b)
	g.Add(ctx, 5, a)
	d := rdr.Produce(nil)
	p := d.Scopes[0].Instruments[0].Points[0].Aggregation.(aggregation.Gauge)
	if v := p.Gauge().CoerceToFloat64(number.Int64Kind); v != 5 {
		t.Fatalf("reported %v", v)
	}
}
'''),
 dict(id="c21-skip-empty-scopes", property="C21", pkg=M,
  edits=[(M+"/producer.go", '''	scope := data.ReallocateFrom(&output.Scopes)
	scope.Library = m.library

	for _, coll := range m.compilers[pipe].Collectors() {
''', '''	colls := m.compilers[pipe].Collectors()
	if len(colls) == 0 {
		return
	}
	scope := data.ReallocateFrom(&output.Scopes)
	scope.Library = m.library

	for _, coll := range colls {
''')],
  needs="a meter that gets its first instrument after a collection, a later meter having a histogram of another size in the same place, and the previous output reused",
  breaks="The new histogram continues with the storage of the other one, of another maximum size, and has less resolution than when nothing is reused.",
  demo=head() + '''
func run(reuse bool) int32 {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithDefaultAggregationTemporalitySelector(aggregation.LowMemoryTemporality)))
	a, b := mp.Meter("a"), mp.Meter("b")
	hb, _ := b.Float64Histogram("h", metric.WithDescription(`{"config":{"histogram":{"max_size":2}}}`))
	hb.Record(ctx, 1)
	prev := rdr.Produce(nil)
	ha, _ := a.Float64Histogram("h")
	for i := 0; ; i++ {
		ha.Record(ctx, 1)
		ha.Record(ctx, 1000)
		if !reuse {
			prev = rdr.Produce(nil)
		} else {
			prev = rdr.Produce(&prev)
		}
		for _, s := range prev.Scopes {
			if s.Library.Name == "a" && i == 3 {
				return s.Instruments[0].Points[0].Aggregation.(aggregation.Histogram).Scale()
			}
		}
	}
}

func TestDemo(t *testing.T) {
	if a, b := run(false), run(true); a != b {
		t.Fatalf("scale %d, %d when reusing", a, b)
	}
}
'''),
]
