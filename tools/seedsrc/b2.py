import os, importlib.util
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD, M = _m.HEAD, _m.M
B = {s["id"]: s for s in _m.SEEDS}

c01 = dict(B["c01-late-update-count"])
c01["demo"] = HEAD.replace('"sync"\n', '"sync"\n\t"sync/atomic"\n') + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, delta()))
	c, _ := mp.Meter("m").Int64Counter("c")
	var turn, ended atomic.Int64
	go func() {
		for i := int64(1); ; i++ {
			for turn.Load() != i {
			}
			for j := int64(0); j < i%40; j++ {
				_ = turn.Load()
			}
			c.Add(ctx, 1)
			ended.Store(i)
		}
	}()
	end := time.Now().Add(60 * time.Second)
	var reuse data.Metrics
	for i := int64(1); i < 3000000; i++ {
		if i%1000 == 0 && time.Now().After(end) {
			break
		}
		c.Add(ctx, 1)
		turn.Store(i)
		reuse = rdr.Produce(&reuse)
		total := sums(reuse)[""]
		for ended.Load() != i {
		}
		// Both additions have returned.
		reuse = rdr.Produce(&reuse)
		total += sums(reuse)[""]
		if total != 2 {
			t.Fatalf("round %d: collected %d of 2", i, total)
		}
	}
}
'''

SEEDS = [c01,
 dict(id="c07-one-period-early", property="C07", pkg=M,
  edits=[(M+"/internal/syncstate/sync.go", '''	if rec.normalCollect() {
		rec.inactiveCount = 0
		return true
	}
''','''	if rec.normalCollect() {
		return true
	}
''')],
  needs="a series that is idle for some periods, fewer than the limit, is recorded again and then goes idle again",
  breaks="Idle periods add up over the life of a series: it is dropped from memory before it has been inactive for the configured number of periods in a row.",
  demo=HEAD.replace("package metric_test","package metric_test").replace('"testing"\n','"testing"\n\t"runtime"\n')+'''
var _ = runtime.GC

// procs counts how often a series is (re)built, by counting calls of the key filter of a view.
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, delta()), sdk.WithPerformance(sdkinstrument.Performance{
		InactiveCollectionPeriods:  3,
		InstrumentCardinalityLimit: 3,
	}))
	c, _ := mp.Meter("m").Int64Counter("c")
	at := func(s string) metric.AddOption { return metric.WithAttributes(attribute.String("k", s)) }
	c.Add(ctx, 1, at("a"))
	c.Add(ctx, 1, at("b"))
	rdr.Produce(nil) // active
	rdr.Produce(nil) // idle 1
	rdr.Produce(nil) // idle 2
	c.Add(ctx, 1, at("a"))
	c.Add(ctx, 1, at("b"))
	rdr.Produce(nil) // active
	rdr.Produce(nil) // idle 1
	// The limit of three includes the overflow series: a and b are still
	// held, so c overflows.
	c.Add(ctx, 1, at("c"))
	if got := sums(rdr.Produce(nil)); got["k=c"] != 0 || got["otel.metric.overflow=true"] != 1 {
		t.Fatalf("series dropped after one idle period: %v", got)
	}
}
'''),
 dict(id="c21-stale-start", property="C21", pkg=M,
  edits=[(M+"/internal/viewstate/base_instrument.go", '''	point.Temporality = tempo
	point.Start = start
	point.End = end
''','''	point.Temporality = tempo
	if point.Start.IsZero() || tempo == aggregation.DeltaTemporality {
		// The start of a cumulative series never changes.
		point.Start = start
	}
	point.End = end
''')],
  needs="collecting into the previous output when the slot was last used by a delta point and is now used by a cumulative one",
  breaks="A cumulative point reports the start time of an earlier delta point of another metric.",
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality {
		if k == sdkinstrument.SyncCounter {
			return aggregation.DeltaTemporality
		}
		return aggregation.CumulativeTemporality
	})))
	var reuse data.Metrics
	m1, m2 := mp.Meter("a"), mp.Meter("b")
	_ = m1
	c2, _ := m2.Int64Counter("c")
	c2.Add(ctx, 1)
	reuse = rdr.Produce(&reuse)
	c2.Add(ctx, 1)
	reuse = rdr.Produce(&reuse)
	first := reuse.Scopes[1].Instruments[0].Points[0].Start
	u, _ := m2.Int64UpDownCounter("u")
	u.Add(ctx, 1)
	fresh := rdr.Produce(nil)
	var want time.Time
	for _, i := range fresh.Scopes[1].Instruments {
		if i.Descriptor.Name == "u" {
			want = i.Points[0].Start
		}
	}
	// A slot that held the delta point now holds the up-down counter.
	reuse.Scopes[1].Instruments[0], reuse.Scopes[1].Instruments = reuse.Scopes[1].Instruments[0], append(reuse.Scopes[1].Instruments, reuse.Scopes[1].Instruments[0])
	reuse = rdr.Produce(&reuse)
	for _, i := range reuse.Scopes[1].Instruments {
		if i.Descriptor.Name == "u" && !i.Points[0].Start.Equal(want) {
			t.Fatalf("start %v instead of %v (delta start was %v)", i.Points[0].Start, want, first)
		}
	}
}
'''),
 dict(id="c23-sliding-window", property="C23", pkg=M+"/internal/doevery",
  edits=[(M+"/internal/doevery/doevery.go", '''		invoking := !ok || time.Since(prevInvocation) > dur
		if invoking {
			mostRecentInvocationMap[key] = time.Now()
		}
		return invoking
''','''		now := time.Now()
		mostRecentInvocationMap[key] = now
		return !ok || now.Sub(prevInvocation) > dur
''')],
  needs="an error condition that recurs steadily at less than the period",
  breaks="Each suppressed occurrence starts the period anew, so the condition is reported once and then never again.",
  demo='''package doevery

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	n := 0
	for end := time.Now().Add(1500 * time.Millisecond); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		TimePeriod(200*time.Millisecond, func() { n++ })
	}
	if n < 3 {
		t.Fatalf("reported %d times in seven periods", n)
	}
}
'''),
 dict(id="c24-descriptor-race", property="C24", pkg=M, flags="-race",
  edits=[(M+"/internal/viewstate/base_instrument.go", '''	metric.instLock.Lock()
	defer metric.instLock.Unlock()
	if len(d) > len(metric.desc.Description) {
''','''	if len(d) > len(metric.desc.Description) {
''')],
  needs="a second instrument that shares the metric with a longer description, created while a collection runs",
  breaks="A data race on the description of the metric.",
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		rdr := sdk.NewManualReader("r")
		mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
		m := mp.Meter("m")
		_, _ = m.Int64Counter("c", metric.WithDescription("a"))
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			_, _ = m.Int64Counter("c", metric.WithDescription("longer"))
		}()
		go func() {
			defer wg.Done()
			rdr.Produce(nil)
		}()
		wg.Wait()
	}
}
'''),
 dict(id="c03-merge-min", property="C03", pkg=M,
  edits=[(M+"/aggregator/minmaxsumcount/minmaxsumcount.go", '''	if from.fields.count != 0 {
		if to.fields.count == 0 {
''','''	if from.fields.count != 0 {
		if to.fields.sum == 0 {
''')],
  needs="a point whose sum is zero at a collection although it has measurements, followed by more measurements",
  breaks="The minimum and maximum of the earlier measurements are forgotten.",
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithClause(view.WithAggregation(aggregation.MinMaxSumCountKind))))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	c.Add(ctx, -5)
	c.Add(ctx, 5)
	rdr.Produce(nil)
	c.Add(ctx, 1)
	a := rdr.Produce(nil).Scopes[0].Instruments[0].Points[0].Aggregation.(aggregation.MinMaxSumCount)
	if int64(a.Min()) != -5 || int64(a.Max()) != 5 || a.Count() != 3 {
		t.Fatalf("min %d max %d count %d", int64(a.Min()), int64(a.Max()), a.Count())
	}
}
'''),
 dict(id="c22-kv-negative", property="C22", pkg=M,
  edits=[(M+"/internal/asyncstate/async.go", '''	if !aggregator.RangeTest[N, Traits](value, obs.descriptor) {
		return
	}

	if acc := obs.getOrCreate(cs, options); acc != nil {
		acc.(viewstate.Updater[N]).Update(value)
	}
''','''	if acc := obs.getOrCreate(cs, options); acc != nil && aggregator.RangeTest[N, Traits](value, obs.descriptor) {
		acc.(viewstate.Updater[N]).Update(value)
	}
''')],
  needs="a callback whose only observation of a series is invalid (NaN)",
  breaks="The rejected observation creates the series, which reports a value of zero nobody observed.",
  demo=HEAD.replace('"errors"\n','"errors"\n\t"math"\n')+'''
func TestDemo(t *testing.T) {
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	m := mp.Meter("m")
	g, _ := m.Float64ObservableGauge("g")
	_, _ = m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		o.ObserveFloat64(g, math.NaN())
		return nil
	}, g)
	for _, s := range rdr.Produce(nil).Scopes {
		for _, i := range s.Instruments {
			if len(i.Points) != 0 {
				t.Fatalf("a point for a rejected observation: %v", i.Points)
			}
		}
	}
}
'''),
]
