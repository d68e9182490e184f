package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C20 and C21 compare two providers that live through the same history.

// coarse reduces a histogram point to the scale limit, so that points that
// were merged in a different order compare equal.
func coarse(p Point, scale int32) Point {
	if p.Agg != aggregation.HistogramKind {
		return p
	}
	down := func(off int32, b []uint64, by uint) (int32, []uint64) {
		if len(b) == 0 {
			return 0, nil
		}
		lo, hi := off>>by, (off+int32(len(b))-1)>>by
		o := make([]uint64, hi-lo+1)
		for i, c := range b {
			o[((off+int32(i))>>by)-lo] += c
		}
		return lo, o
	}
	if p.Scale > scale {
		by := uint(p.Scale - scale)
		p.PosOff, p.Pos = down(p.PosOff, p.Pos, by)
		p.NegOff, p.Neg = down(p.NegOff, p.Neg, by)
		p.Scale = scale
	}
	return p
}

// renderAt renders with histograms reduced to the coarsest scale in either.
func renderBoth(a, b []Point) (string, string) {
	min := int32(20)
	for _, l := range [][]Point{a, b} {
		for _, p := range l {
			if p.Agg == aggregation.HistogramKind && p.Scale < min && p.Zero != p.Count {
				min = p.Scale
			}
		}
	}
	red := func(l []Point) string {
		o := make([]Point, len(l))
		for i := range l {
			o[i] = coarse(l[i], min)
			if o[i].Zero == o[i].Count {
				o[i].Scale = 0
			}
		}
		return render(o)
	}
	return red(a), red(b)
}

func readerOpts(ch byte) []view.Option {
	keys := view.WithKeys([]attribute.Key{"k"})
	switch ch {
	case 'd':
		return []view.Option{tempoOpt(true)}
	case 'c':
		return []view.Option{tempoOpt(false)}
	case 'D':
		return []view.Option{tempoOpt(true), view.WithClause(keys)}
	case 'C':
		return []view.Option{tempoOpt(false), view.WithClause(keys)}
	case 'x': // drops everything
		return []view.Option{tempoOpt(true), view.WithClause(view.WithAggregation(aggregation.DropKind))}
	case 'n': // another aggregation and name
		return []view.Option{tempoOpt(true), view.WithClause(view.WithName("other"), view.WithAggregation(aggregation.NonMonotonicSumKind)), view.WithClause(view.WithName("second"))}
	case '1': // a limit of one series
		return []view.Option{tempoOpt(false), view.WithClause(view.WithAggregatorConfig(aggregator.Config{CardinalityLimit: 1}))}
	}
	return []view.Option{view.WithDefaultAggregationTemporalitySelector(aggregation.LowMemoryTemporality)}
}

// world is one provider with one instrument per wanted kind.
type world struct {
	p    *metric.MeterProvider
	rds  map[byte]*metric.ManualReader
	rec  func(attr int, v float64)
	cur  map[int]float64 // what callbacks observe
	inst []kinst
	kind sdkinstrument.Kind
}

func newWorld(kind sdkinstrument.Kind, float bool, perf sdkinstrument.Performance, readers string, cfg map[byte]byte) *world {
	w := &world{rds: map[byte]*metric.ManualReader{}, cur: map[int]float64{}, kind: kind}
	var opts []metric.Option
	for i := range readers {
		rd := metric.NewManualReader(string(readers[i]))
		w.rds[readers[i]] = rd
		opts = append(opts, metric.WithReader(rd, readerOpts(cfg[readers[i]])...))
	}
	w.p = newProvider(perf, opts...)
	w.add("m", "i", kind, float)
	return w
}

// add creates one more instrument, which takes part in recordings.
func (w *world) add(meter, name string, kind sdkinstrument.Kind, float bool) {
	m := w.p.Meter(meter)
	c, _ := mkInst(m, name, kind, float, pathSet, "", "")
	w.inst = append(w.inst, c)
	if c.rec == nil {
		_, _ = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			for at, v := range w.cur {
				c.observe(o, v, plainAttrs(at))
			}
			return nil
		}, c.obs)
	}
}

// use records v for an attribute set; asynchronous series that reach a
// multiple of 16 disappear.
func (w *world) use(attr int, v float64) {
	for _, c := range w.inst {
		if c.rec != nil {
			c.rec(bg, v, plainAttrs(attr))
		}
	}
	w.cur[attr] += v
}

func (w *world) forget(attr int) { delete(w.cur, attr) }

func init() {
	mc.Register(&mc.Scenario{
		Name: "independent", Props: []string{"C20"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0, 1},
		Body: func(r *mc.R) {
			kind := allKinds[r.Choose(7)]
			nx, ny, n := 3, 6, 5
			if r.Thorough {
				nx, ny, n = 5, 8, 6
			}
			cfg := map[byte]byte{'X': "dcDCl"[r.Choose(nx)], 'Y': "dxn1Ccl D"[r.Choose(ny)]}
			perf := sdkinstrument.Performance{}
			if kind.Synchronous() && r.ChooseBool() {
				perf.InactiveCollectionPeriods = 1
			}
			order := "XY"
			if r.ChooseBool() {
				order = "YX"
			}
			both := newWorld(kind, false, perf, order, cfg)
			alone := newWorld(kind, false, perf, "X", cfg)
			r.Logf("%v readers %s %c %c", kind, order, cfg['X'], cfg['Y'])
			collect := func() {
				a, b := pointsOf(both.rds['X'].Produce(nil)), pointsOf(alone.rds['X'].Produce(nil))
				sa, sb := renderBoth(a, b)
				if r.Keeping() {
					r.Logf("X collects:\n%s", sa)
				}
				if sa != sb {
					r.Failf("C20", "a reader with another one present collects\n%s\nalone it collects\n%s", sa, sb)
				}
			}
			for i := 0; i < n; i++ {
				switch r.Choose(5) {
				case 0:
					collect()
				case 1:
					both.use(0, float64(i+1))
					alone.use(0, float64(i+1))
					r.Logf("record a")
				case 2:
					both.rds['Y'].Produce(nil)
					r.Logf("Y collects")
				case 3:
					both.use(1, 1024*float64(i+1))
					alone.use(1, 1024*float64(i+1))
					r.Logf("record b")
				case 4:
					if kind.Synchronous() {
						both.use(2, 7)
						alone.use(2, 7)
					} else {
						both.forget(0)
						alone.forget(0)
					}
					r.Logf("record c or forget a")
				}
			}
			collect()
			collect()
		},
	})
	// C21: collecting into earlier output against collecting afresh.
	mc.Register(&mc.Scenario{
		Name: "reuse", Props: []string{"C21"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			kind := allKinds[r.Choose(7)]
			cfgs := []string{"d", "c", "D", "dn", "cd"}
			nc, n := 4, 5
			if r.Thorough {
				nc, n = 5, 6
			}
			ns := 2
			if r.Thorough {
				ns = 3
			}
			cs := cfgs[r.Choose(nc)]
			cfg := map[byte]byte{'X': cs[0]}
			readers := "X"
			if len(cs) > 1 {
				cfg['Y'] = cs[1]
				readers = "XY"
			}
			perf := sdkinstrument.Performance{}
			if kind.Synchronous() {
				perf.InactiveCollectionPeriods = 1
			}
			second := []sdkinstrument.Kind{sdkinstrument.SyncHistogram, sdkinstrument.AsyncGauge, sdkinstrument.SyncCounter}[r.Choose(ns)]
			reuse := newWorld(kind, false, perf, readers, cfg)
			fresh := newWorld(kind, false, perf, readers, cfg)
			added := 0
			var buf data.Metrics
			type kept struct {
				m data.Metrics
				s string
			}
			var keep []kept
			last := map[byte]time.Time{}
			collect := func(rd byte, into *data.Metrics) {
				got := reuse.rds[rd].Produce(into)
				want := fresh.rds[rd].Produce(nil)
				gs, ws := shape(got), shape(want)
				if r.Keeping() {
					r.Logf("%c collects, reusing %v:\n%s", rd, into != nil, gs)
				}
				if gs != ws {
					r.Failf("C21", "collected into earlier output:\n%s\nafresh:\n%s", gs, ws)
				}
				if why := sameTimes(got, last[rd]); why != "" {
					r.Failf("C21", "collected into earlier output: %s\n%s", why, gs)
				}
				for _, p := range pointsOf(got) {
					last[rd] = p.End
				}
				if into != nil {
					*into = got
				} else {
					keep = append(keep, kept{got, shape(got)})
				}
			}
			for i := 0; i < n; i++ {
				switch r.Choose(7) {
				case 0:
					collect('X', &buf)
				case 1:
					reuse.use(0, float64(i+1))
					fresh.use(0, float64(i+1))
					r.Logf("record a")
				case 2:
					reuse.use(1, 1024*float64(i+1))
					fresh.use(1, 1024*float64(i+1))
					r.Logf("record b")
				case 3:
					collect(readers[len(readers)-1], &buf)
				case 4:
					collect('X', nil)
				case 5:
					if kind.Synchronous() {
						reuse.use(2, 0)
						fresh.use(2, 0)
					} else {
						reuse.forget(0)
						fresh.forget(0)
					}
					r.Logf("record c or forget a")
				case 6:
					meter := "m"
					if added > 0 {
						meter = "m2"
					}
					for _, w := range []*world{reuse, fresh} {
						w.add(meter, fmt.Sprint("new", added), second, true)
					}
					added++
					r.Logf("new instrument %v in %s", second, meter)
				}
			}
			collect('X', &buf)
			collect('X', &buf)
			for _, k := range keep {
				if s := shape(k.m); s != k.s {
					r.Failf("C21", "data collected separately changed from\n%s\nto\n%s", k.s, s)
				}
			}
		},
	})
}

// shape renders everything but times, with metrics in order.
func shape(m data.Metrics) string {
	var b strings.Builder
	fmt.Fprintf(&b, "resource %v\n", m.Resource)
	for i := range m.Scopes {
		s := &m.Scopes[i]
		fmt.Fprintf(&b, "scope %v\n", s.Library)
		for j := range s.Instruments {
			in := &s.Instruments[j]
			fmt.Fprintf(&b, "metric %v\n", in.Descriptor)
			var ps []Point
			for k := range in.Points {
				ps = append(ps, pointOf(s.Library.Name, in.Descriptor, &in.Points[k]))
			}
			if len(ps) != 0 {
				b.WriteString(render(ps))
				b.WriteString("\n")
			}
		}
	}
	return b.String()
}

// sameTimes checks that one collection's points share their times.
func sameTimes(m data.Metrics, last time.Time) string {
	var end, dstart, cstart time.Time
	for _, p := range pointsOf(m) {
		if end.IsZero() {
			end = p.End
		}
		if !end.Equal(p.End) || !p.End.After(last) {
			return "end of another collection"
		}
		st := &cstart
		if p.Tempo == aggregation.DeltaTemporality {
			st = &dstart
		}
		if st.IsZero() {
			*st = p.Start
		}
		if !st.Equal(p.Start) {
			return "start of another collection"
		}
	}
	return ""
}
