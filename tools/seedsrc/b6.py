import os
_d = os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/seedsrc'
n3 = {'__file__': os.path.join(_d, 'b3.py')}
exec(open(os.path.join(_d, 'b3.py')).read(), n3)
head, M, mut, NUM = n3['head'], n3['M'], n3['mut'], n3['NUM']

SEEDS = [
 dict(id="c01-canceled-context", property="C01", pkg=M,
  edits=[(M+"/internal/syncstate/sync.go", '''	// Note: Here, this is the place to use context, e.g., extract baggage.
''', '''	// Note: Here, this is the place to use context, e.g., extract baggage.
	if inst.performance.MeasurementProcessor != nil && ctx.Err() != nil {
		// The processor is not called with a context that has ended.
		return
	}
''')],
  needs="a measurement processor is configured and the context of the request has ended when the measurement is made (the usual case for a canceled request)",
  breaks="Measurements made under a context that has ended are lost.",
  demo=head() + '''
type proc struct{}

func (proc) Process(_ context.Context, kvs []attribute.KeyValue) []attribute.KeyValue { return kvs }

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr), sdk.WithPerformance(sdkinstrument.Performance{MeasurementProcessor: proc{}}))
	c, _ := mp.Meter("m").Int64Counter("c")
	c.Add(ctx, 1)
	cancel()
	c.Add(ctx, 1)
	d := rdr.Produce(nil)
	if got := d.Scopes[0].Instruments[0].Points[0].Aggregation.(aggregation.Sum).Sum(); got != 2 {
		t.Fatalf("%v", got)
	}
}
'''),
 dict(id="c05-last-set-only", property="C05", pkg=M,
  edits=[(M+"/syncinst.go", '''func recordToOpConfig(options []metric.RecordOption) syncstate.OpConfig {
	rcfg := metric.NewRecordConfig(options)
''', '''func recordToOpConfig(options []metric.RecordOption) syncstate.OpConfig {
	if n := len(options); n > 2 {
		// The usual case: the attributes that all have in common, and
		// those of the call.
		options = options[n-2:]
	}
	rcfg := metric.NewRecordConfig(options)
''')],
  needs="a Record call with three or more attribute options",
  breaks="The attributes of the first options are lost: the measurement lands in another series.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	h, _ := mp.Meter("m").Int64Histogram("h")
	h.Record(ctx, 1, metric.WithAttributes(attribute.Int("a", 1)), metric.WithAttributes(attribute.Int("b", 1)), metric.WithAttributes(attribute.Int("c", 1)))
	if a := rdr.Produce(nil).Scopes[0].Instruments[0].Points[0].Attributes; a.Len() != 3 {
		t.Fatalf("%v", a.ToSlice())
	}
}
'''),
 dict(id="c10-match-cache", property="C10", pkg=M,
  edits=[(M+"/view/clause.go", '''func (c *ClauseConfig) Matches(lib instrumentation.Scope, desc sdkinstrument.Descriptor) bool {
	mismatch := c.libraryMismatch(lib) ||
''', '''// matchKey is what a match depends on.
type matchKey struct {
	clause *ClauseConfig
	scope  string
	name   string
	kind   sdkinstrument.Kind
	number number.Kind
}

// matched remembers the result for each clause, as matching a regular
// expression is slow.
var matched sync.Map

func (c *ClauseConfig) Matches(lib instrumentation.Scope, desc sdkinstrument.Descriptor) bool {
	key := matchKey{clause: c, scope: lib.Name, name: desc.Name, kind: desc.Kind, number: desc.NumberKind}
	if v, ok := matched.Load(key); ok {
		return v.(bool)
	}
	match := c.matches(lib, desc)
	matched.Store(key, match)
	return match
}

func (c *ClauseConfig) matches(lib instrumentation.Scope, desc sdkinstrument.Descriptor) bool {
	mismatch := c.libraryMismatch(lib) ||
'''), (M+"/view/clause.go", '''	"regexp"
''', '''	"regexp"
	"sync"
''')],
  needs="a clause that matches the version or schema URL of the scope, and the same instrument in two scopes of the same name and different version or schema URL",
  breaks="The clause applies (or does not) to the instrument of the second scope as it did to the first's.",
  demo=head('"go.opentelemetry.io/otel/sdk/instrumentation"') + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithClause(view.MatchInstrumentationLibrary(instrumentation.Scope{Version: "v1"}), view.WithName("renamed"))))
	for _, v := range []string{"v1", "v2"} {
		c, _ := mp.Meter("m", metric.WithInstrumentationVersion(v)).Int64Counter("c")
		c.Add(ctx, 1)
	}
	d := rdr.Produce(nil)
	if a, b := d.Scopes[0].Instruments[0].Descriptor.Name, d.Scopes[1].Instruments[0].Descriptor.Name; a != "renamed" || b != "c" {
		t.Fatal(a, b)
	}
}
'''),
 dict(id="c13-flush-coalesced", property="C13", pkg=M,
  edits=[(M+"/periodic.go", '''func (pr *PeriodicReader) ForceFlush(ctx context.Context) error {
	return pr.collect(ctx, pr.exporter.ForceFlushMetrics)
}
''', '''func (pr *PeriodicReader) ForceFlush(ctx context.Context) error {
	if !pr.lock.TryLock() {
		// An export is in progress: wait for that one.
		pr.lock.Lock()
		finished := pr.finished
		pr.lock.Unlock()
		if finished {
			return ErrAlreadyShutdown
		}
		return nil
	}
	pr.lock.Unlock()
	return pr.collect(ctx, pr.exporter.ForceFlushMetrics)
}
''')],
  needs="a measurement made, and ForceFlush called, while a periodic export is in progress",
  breaks="ForceFlush returns without exporting what was recorded after the export in progress had collected.",
  demo=head() + '''
type exp struct {
	started, release chan struct{}
	once             sync.Once
	sum              int64
}

func (e *exp) String() string { return "exp" }
func (e *exp) ExportMetrics(ctx context.Context, m data.Metrics) error {
	e.add(m)
	first := false
	e.once.Do(func() { first = true })
	if first {
		close(e.started)
		<-e.release
	}
	return nil
}
func (e *exp) add(m data.Metrics) {
	for _, s := range m.Scopes {
		for _, i := range s.Instruments {
			for _, p := range i.Points {
				e.sum += int64(p.Aggregation.(aggregation.Sum).Sum())
			}
		}
	}
}
func (e *exp) ShutdownMetrics(context.Context, data.Metrics) error { return nil }
func (e *exp) ForceFlushMetrics(_ context.Context, m data.Metrics) error {
	e.add(m)
	return nil
}

func TestDemo(t *testing.T) {
	ctx := context.Background()
	e := &exp{started: make(chan struct{}), release: make(chan struct{})}
	rdr := sdk.NewPeriodicReader(e, 2*time.Second)
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithDefaultAggregationTemporalitySelector(view.DeltaPreferredTemporality)))
	c, _ := mp.Meter("m").Int64Counter("c")
	c.Add(ctx, 1)
	<-e.started
	c.Add(ctx, 1)
	done := make(chan error)
	go func() { done <- mp.ForceFlush(ctx) }()
	time.Sleep(200 * time.Millisecond)
	close(e.release)
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	if e.sum != 2 {
		t.Fatalf("exported %d of 2", e.sum)
	}
}
'''),
 dict(id="c24-lock-over-callbacks", property="C24", pkg=M,
  edits=[(M+"/producer.go", '''	callbacks := m.callbacks
	m.lock.Unlock()

	asyncState := asyncstate.NewState(pipe)

	for _, cb := range callbacks {
		cb.Run(ctx, asyncState)
	}
''', '''	asyncState := asyncstate.NewState(pipe)

	// An unregistered callback does not run after Unregister returned.
	for _, cb := range m.callbacks {
		cb.Run(ctx, asyncState)
	}
	m.lock.Unlock()
''')],
  needs="a callback that creates an instrument, or registers or unregisters a callback (e.g. its own) of the same meter",
  breaks="The meter's lock is held while callbacks run: a callback that uses the meter deadlocks the collection.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	m := mp.Meter("m")
	o, _ := m.Int64ObservableCounter("o")
	var reg metric.Registration
	reg, _ = m.RegisterCallback(func(_ context.Context, ob metric.Observer) error {
		ob.ObserveInt64(o, 1)
		return reg.Unregister()
	}, o)
	done := make(chan bool)
	go func() { rdr.Produce(nil); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("deadlock")
	}
}
'''),
]
