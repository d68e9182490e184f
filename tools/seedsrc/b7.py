import os
_d = os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/seedsrc'
n3 = {'__file__': os.path.join(_d, 'b3.py')}
exec(open(os.path.join(_d, 'b3.py')).read(), n3)
head, M, mut, NUM = n3['head'], n3['M'], n3['mut'], n3['NUM']

SEEDS = [
 dict(id="c02-trylock-snapshot", property="C02", pkg=M,
  edits=[(M+"/internal/syncstate/sync.go", '''func (inst *Observer) SnapshotAndProcess() {
	inst.lock.Lock()
	defer inst.lock.Unlock()
''', '''func (inst *Observer) SnapshotAndProcess() {
	if !inst.lock.TryLock() {
		// Another reader is collecting this instrument; the
		// records it processes are shared by all readers.
		return
	}
	defer inst.lock.Unlock()
''')],
  needs="a collection that meets another reader's collection of the instrument (or a recording that holds the lock)",
  breaks="The collection misses measurements that completed before it began.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	a, b := sdk.NewManualReader("a"), sdk.NewManualReader("b")
	mp := sdk.NewMeterProvider(sdk.WithReader(a), sdk.WithReader(b))
	c, _ := mp.Meter("m").Int64Counter("c")
	for i := 0; i < 1900; i++ {
		c.Add(ctx, 1, metric.WithAttributes(attribute.Int("i", i)))
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				for i := 0; i < 1900; i++ {
					c.Add(ctx, 0, metric.WithAttributes(attribute.Int("i", i)))
				}
				a.Produce(nil)
			}
		}
	}()
	defer func() { close(stop); wg.Wait() }()
	key := attribute.NewSet(attribute.Int("i", 0))
	for n := int64(2); n < 800; n++ {
		c.Add(ctx, 1, metric.WithAttributes(attribute.Int("i", 0)))
		if got := sums(b.Produce(nil))[key.Encoded(attribute.DefaultEncoder())]; got != n {
			t.Fatalf("reported %d of %d", got, n)
		}
	}
}
'''),
 dict(id="c04-own-sequence", property="C04", pkg=M,
  edits=[(M+"/aggregator/gauge/gauge.go", '''	state.seq = atomic.AddUint64(&sequenceVar, 1)
''', '''	//
	// Values are ordered within their series, which takes no global
	// counter.
	if state.seq < state.moved {
		state.seq = state.moved
	}
	if state.seq < atomic.LoadUint64(&sequenceVar) {
		state.seq = atomic.LoadUint64(&sequenceVar)
	}
	state.seq++
''')],
  needs="a view that merges the series of two attribute sets, the earlier one set more often than the last one",
  breaks="The merged gauge does not report the last value set.",
  demo=head('"go.opentelemetry.io/otel/metric/embedded"', '"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"', NUM) .replace('"go.opentelemetry.io/otel/metric/embedded"\n', '') .replace('"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"\n', '') + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithClause(view.WithKeys([]attribute.Key{}))))
	// A hint makes an up-down-counter a gauge.
	g, err := mp.Meter("m").Int64UpDownCounter("g", metric.WithDescription(`{"aggregation":"gauge"}`))
	if err != nil {
		t.Fatal(err)
	}
	a, b := metric.WithAttributes(attribute.Int("x", 1)), metric.WithAttributes(attribute.Int("x", 2))
	for i := int64(0); i < 5; i++ {
		g.Add(ctx, i, a)
	}
	g.Add(ctx, 100, b)
	d := rdr.Produce(nil)
	p := d.Scopes[0].Instruments[0].Points[0].Aggregation.(aggregation.Gauge)
	if v := p.Gauge().CoerceToFloat64(number.Int64Kind); v != 100 {
		t.Fatalf("reported %v", v)
	}
}
'''),
 dict(id="c11-view-drops-temporality", property="C11", pkg=M,
  edits=[(M+"/internal/viewstate/viewstate.go", '''		if akind == aggregation.UndefinedKind {
			akind = hintAkind
		}
''', '''		if akind == aggregation.UndefinedKind {
			akind = hintAkind
		} else if akind != hintAkind {
			// The hint was for another aggregation.
			tempo = v.views.Defaults.Temporality(instrument.Kind)
		}
''')],
  needs="a hint with a temporality on an instrument whose view clause sets another aggregation",
  breaks="The hint's temporality is dropped though no clause sets one.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithClause(view.MatchInstrumentName("h"), view.WithAggregation(aggregation.MinMaxSumCountKind))))
	h, _ := mp.Meter("m").Float64Histogram("h", metric.WithDescription(`{"temporality":"delta"}`))
	h.Record(ctx, 1)
	d := rdr.Produce(nil)
	if p := d.Scopes[0].Instruments[0].Points[0]; p.Temporality != aggregation.DeltaTemporality {
		t.Fatalf("%v", p.Temporality)
	}
}
'''),
 dict(id="c14-no-recheck", property="C14", pkg=M,
  edits=[(M+"/provider.go", '''	mp.lock.Lock()
	defer mp.lock.Unlock()

	if mp.meters == nil {
		// Have been shutdown
		return noop.NewMeterProvider().Meter(name)
	}

	m := mp.meters[lib]
	if m != nil {
		return m
	}
	m = &meter{
''', '''	mp.lock.Lock()
	down := mp.meters == nil
	m := mp.meters[lib]
	mp.lock.Unlock()

	if down {
		// Have been shutdown
		return noop.NewMeterProvider().Meter(name)
	}
	if m != nil {
		return m
	}
	m = &meter{
'''), (M+"/provider.go", '''	mp.ordered = append(mp.ordered, m)
	mp.meters[lib] = m
	return m
''', '''	mp.lock.Lock()
	defer mp.lock.Unlock()
	if mp.meters == nil {
		return noop.NewMeterProvider().Meter(name)
	}
	mp.ordered = append(mp.ordered, m)
	mp.meters[lib] = m
	return m
''')],
  needs="two goroutines that ask for the same new meter at the same time",
  breaks="They get different meters, and the scope is reported twice.",
  demo=head('"fmt"') + '''
func TestDemo(t *testing.T) {
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	for n := 0; n < 3000; n++ {
		var ms [8]metric.Meter
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range ms {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				ms[i] = mp.Meter(fmt.Sprint("m", n))
			}()
		}
		close(start)
		wg.Wait()
		for _, m := range ms {
			if m != ms[0] {
				t.Fatal("different meters")
			}
		}
	}
}
'''),
 dict(id="c13-shutdown-locks-first", property="C13", pkg=M,
  edits=[(M+"/periodic.go", '''func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
	pr.stop()
	pr.wait.Wait()
	return pr.collect(ctx, func(ctx context.Context, final data.Metrics) error {
''', '''func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
	// No new export begins once the shutdown has.
	pr.lock.Lock()
	pr.stop()
	pr.lock.Unlock()
	pr.wait.Wait()
	return pr.collect(ctx, func(ctx context.Context, final data.Metrics) error {
''')],
  needs="a Shutdown while a periodic export hangs until its context ends",
  breaks="The export in progress is not canceled by Shutdown, which waits for the export's timeout instead.",
  demo=head() + '''
type exp struct{ began chan struct{}; once sync.Once }

func (e *exp) String() string { return "e" }
func (e *exp) ExportMetrics(ctx context.Context, _ data.Metrics) error {
	e.once.Do(func() { close(e.began) })
	<-ctx.Done()
	return ctx.Err()
}
func (e *exp) ShutdownMetrics(context.Context, data.Metrics) error   { return nil }
func (e *exp) ForceFlushMetrics(context.Context, data.Metrics) error { return nil }

func TestDemo(t *testing.T) {
	e := &exp{began: make(chan struct{})}
	mp := sdk.NewMeterProvider(sdk.WithReader(sdk.NewPeriodicReader(e, 50*time.Millisecond, sdk.WithTimeout(time.Minute))))
	<-e.began
	t0 := time.Now()
	_ = mp.Shutdown(context.Background())
	if d := time.Since(t0); d > 20*time.Second {
		t.Fatalf("Shutdown took %v", d)
	}
}
'''),
 dict(id="c12-last-after", property="C12", pkg=M,
  edits=[(M+"/producer.go", '''	nowTime := time.Now()
	pp.lastCollect = nowTime
''', '''	nowTime := time.Now()
	// The next interval begins where this collection ends.
	defer func() { pp.lastCollect = time.Now() }()
''')],
  needs="two delta collections by one reader (seen where a callback takes time)",
  breaks="Delta intervals leave gaps: the next one does not start at the end of the one before.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, delta()))
	m := mp.Meter("m")
	c, _ := m.Int64Counter("c")
	o, _ := m.Int64ObservableGauge("o")
	_, _ = m.RegisterCallback(func(context.Context, metric.Observer) error { time.Sleep(5 * time.Millisecond); return nil }, o)
	c.Add(ctx, 1)
	e1 := rdr.Produce(nil).Scopes[0].Instruments[0].Points[0].End
	c.Add(ctx, 1)
	if s2 := rdr.Produce(nil).Scopes[0].Instruments[0].Points[0].Start; !s2.Equal(e1) {
		t.Fatalf("an interval ends at %v, the next starts at %v", e1, s2)
	}
}
'''),
]
