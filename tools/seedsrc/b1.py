M = "lightstep/sdk/metric"
HEAD = '''package metric_test

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

var (
	_ = context.Background
	_ = errors.New
	_ sync.Mutex
	_ time.Time
	_ = sdk.NewMeterProvider
	_ aggregation.Sum
	_ data.Metrics
	_ sdkinstrument.Performance
	_ view.Option
	_ = attribute.Int
	_ metric.Meter
)

func delta() view.Option {
	return view.WithDefaultAggregationTemporalitySelector(view.DeltaPreferredTemporality)
}

// sums adds all int64 sum points of a collection, by attribute set.
func sums(d data.Metrics) map[string]int64 {
	out := map[string]int64{}
	for _, s := range d.Scopes {
		for _, i := range s.Instruments {
			for _, p := range i.Points {
				if x, ok := p.Aggregation.(aggregation.Sum); ok {
					out[p.Attributes.Encoded(attribute.DefaultEncoder())] += int64(x.Sum())
				}
			}
		}
	}
	return out
}

'''
SEEDS = [
 dict(id="c01-late-update-count", property="C01", pkg=M,
  edits=[(M+"/internal/syncstate/sync.go", '''	rec.readAccumulator().SnapshotAndProcess(release)

	// Updates happened in this interval, collect and continue.
	rec.collectedCount = mods
''','''	rec.readAccumulator().SnapshotAndProcess(release)

	// Updates happened in this interval, collect and continue.
	rec.collectedCount = atomic.LoadUint32(&rec.updateCount)
''')],
  needs="a measurement that lands between a collection's snapshot of its record and the reading of the update count, and no later measurement of that series",
  breaks="The measurement is counted as collected although it was not, so a final collection after all recording has stopped leaves it out.",
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	end := time.Now().Add(60 * time.Second)
	for round := 0; time.Now().Before(end) && round < 400; round++ {
		rdr := sdk.NewManualReader("r")
		mp := sdk.NewMeterProvider(sdk.WithReader(rdr, delta()))
		c, _ := mp.Meter("m").Int64Counter("c")
		c.Add(ctx, 1)
		var total int64
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 3000; i++ {
					c.Add(ctx, 1)
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		for running := true; running; {
			select {
			case <-done:
				running = false
			default:
			}
			// The last of these began after every Add had returned.
			total += sums(rdr.Produce(nil))[""]
		}
		if total != 12001 {
			t.Fatalf("round %d: collected %d of 12001", round, total)
		}
	}
}
'''),
 dict(id="c05-empty-slices", property="C05", pkg=M,
  edits=[(M+"/internal/syncstate/bykeyvalue.go", '''		if a[i].Value.Type() != b[i].Value.Type() {
			return false
		}
		if a[i].Key != b[i].Key {
''','''		if a[i].Key != b[i].Key {
''')],
  needs="two attribute sets equal but for one attribute whose value is an empty slice of different element types",
  breaks="Both land in one series: empty slices have equal fingerprints, and the comparison no longer tells their types apart.",
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	c, _ := mp.Meter("m").Int64Counter("c")
	c.Add(ctx, 1, metric.WithAttributes(attribute.IntSlice("k", []int{})))
	c.Add(ctx, 2, metric.WithAttributes(attribute.StringSlice("k", []string{})))
	n := 0
	for _, s := range rdr.Produce(nil).Scopes {
		for _, i := range s.Instruments {
			n += len(i.Points)
		}
	}
	if n != 2 {
		t.Fatalf("%d series instead of 2", n)
	}
}
'''),
 dict(id="c13-shutdown-no-cancel", property="C13", pkg=M,
  edits=[(M+"/periodic.go", '''			if err := pr.collectWithTimeout(ctx, pr.exporter.ExportMetrics); err != nil {
''','''			if err := pr.collectWithTimeout(context.Background(), pr.exporter.ExportMetrics); err != nil {
''')],
  needs="a Shutdown while a periodic export is waiting on its context",
  breaks="Shutdown no longer cancels the export in progress and hangs until the export timeout.",
  demo=HEAD+'''
type exp struct {
	started chan struct{}
	once    sync.Once
}

func (e *exp) String() string { return "exp" }
func (e *exp) ExportMetrics(ctx context.Context, _ data.Metrics) error {
	e.once.Do(func() { close(e.started) })
	<-ctx.Done()
	return ctx.Err()
}
func (e *exp) ShutdownMetrics(context.Context, data.Metrics) error   { return nil }
func (e *exp) ForceFlushMetrics(context.Context, data.Metrics) error { return nil }

func TestDemo(t *testing.T) {
	e := &exp{started: make(chan struct{})}
	rdr := sdk.NewPeriodicReader(e, 10*time.Millisecond, sdk.WithTimeout(time.Hour))
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	<-e.started
	done := make(chan error, 1)
	go func() { done <- mp.Shutdown(context.Background()) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("shutdown hangs behind an export that waits for its context")
	}
}
'''),
 dict(id="c14-first-error-wins", property="C14", pkg=M,
  edits=[(M+"/provider.go", '''	for _, r := range mp.cfg.readers {
		err = multierr.Append(err, r.Shutdown(ctx))
	}

	return err
''','''	for _, r := range mp.cfg.readers {
		if err = multierr.Append(err, r.Shutdown(ctx)); err != nil {
			break
		}
	}

	return err
''')],
  needs="two readers, the first of which fails its Shutdown",
  breaks="The readers after the failing one are never shut down and their final data are not exported.",
  demo=HEAD+'''
type exp struct {
	err error
	n   int
}

func (e *exp) String() string                                        { return "exp" }
func (e *exp) ExportMetrics(context.Context, data.Metrics) error     { return nil }
func (e *exp) ShutdownMetrics(context.Context, data.Metrics) error   { e.n++; return e.err }
func (e *exp) ForceFlushMetrics(context.Context, data.Metrics) error { return nil }

func TestDemo(t *testing.T) {
	a, b := &exp{err: errors.New("a")}, &exp{}
	mp := sdk.NewMeterProvider(
		sdk.WithReader(sdk.NewPeriodicReader(a, time.Hour)),
		sdk.WithReader(sdk.NewPeriodicReader(b, time.Hour)))
	err := mp.Shutdown(context.Background())
	if !errors.Is(err, a.err) || a.n != 1 || b.n != 1 {
		t.Fatalf("err %v, shutdowns %d %d", err, a.n, b.n)
	}
}
'''),
 dict(id="c09-observe-after-return", property="C09", pkg=M,
  edits=[(M+"/internal/asyncstate/callback.go", '''	cp := &callbackState{
		callback: c,
		state:    state,
	}
	c.function(ctx, cp)
	cp.invalidate()
''','''	cp := &callbackState{
		callback: c,
		state:    state,
	}
	if err := c.function(ctx, cp); err != nil {
		cp.invalidate()
	}
''')],
  needs="a callback that keeps its observer and a later callback of the same collection (or another goroutine) that uses it after the first has returned",
  breaks="Observations made after the callback returned are reported.",
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr))
	m := mp.Meter("m")
	a, _ := m.Int64ObservableCounter("a")
	b, _ := m.Int64ObservableCounter("b")
	var kept metric.Observer
	_, _ = m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		kept = o
		o.ObserveInt64(a, 1)
		return nil
	}, a)
	_, _ = m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		kept.ObserveInt64(a, 100)
		o.ObserveInt64(b, 0)
		return nil
	}, b)
	if got := sums(rdr.Produce(nil))[""]; got != 1 {
		t.Fatalf("reported %d", got)
	}
}
'''),
 dict(id="c12-start-of-series", property="C12", pkg=M,
  edits=[(M+"/producer.go", '''	nowTime := time.Now()
	pp.lastCollect = nowTime
''','''	nowTime := time.Now()
''' + '''	defer func() { pp.lastCollect = time.Now() }()
''')],
  needs="a collection that takes time (a slow callback), followed by another one of the same reader",
  breaks="Delta intervals of the reader have gaps: the next one starts when the collection ended, not at the end stamp of its points.",
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, delta()))
	c, _ := mp.Meter("m").Int64Counter("c")
	var last time.Time
	for i := 0; i < 3; i++ {
		c.Add(context.Background(), 1)
		p := rdr.Produce(nil).Scopes[0].Instruments[0].Points[0]
		if i > 0 && !p.Start.Equal(last) {
			t.Fatalf("collection %d starts at %v, previous ended at %v", i, p.Start, last)
		}
		last = p.End
	}
}
'''),
]
