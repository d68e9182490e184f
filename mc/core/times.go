package main

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	vtime "github.com/lightstep/otel-launcher-go/verifshim/vtime"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C12: temporality and timestamps.

var tempoSels = []func(sdkinstrument.Kind) aggregation.Temporality{
	deltaSel, cumulSel, aggregation.LowMemoryTemporality, view.DeltaPreferredTemporality, view.StandardTemporality,
	func(k sdkinstrument.Kind) aggregation.Temporality {
		if k.Synchronous() {
			return aggregation.CumulativeTemporality
		}
		return aggregation.DeltaTemporality
	},
}

// refTempo is the documented table for the selectors above.
func refTempo(sel int, k sdkinstrument.Kind) bool {
	updown := k == sdkinstrument.SyncUpDownCounter || k == sdkinstrument.AsyncUpDownCounter
	if k == sdkinstrument.AsyncGauge {
		return false
	}
	switch sel {
	case 0:
		return true
	case 2:
		return k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram
	case 3:
		return !updown
	case 5:
		return !k.Synchronous()
	}
	return false
}

type timesRun struct {
	r        *mc.R
	lo, hi   time.Time // provider creation
	start    time.Time // as observed
	p        *metric.MeterProvider
	rds      []*metric.ManualReader
	beat     int64
	mu       sync.Mutex
	last     map[int]time.Time
	tempoFor func(rd int, name string, k sdkinstrument.Kind) bool // delta?
}

func newTimes(r *mc.R, opts [][]view.Option) *timesRun {
	t := &timesRun{r: r, last: map[int]time.Time{}}
	var mo []metric.Option
	for i, o := range opts {
		rd := metric.NewManualReader(fmt.Sprint("rd", i))
		t.rds = append(t.rds, rd)
		mo = append(mo, metric.WithReader(rd, o...))
	}
	t.lo = vtime.Peek()
	t.p = newProvider(sdkinstrument.Performance{}, mo...)
	t.hi = vtime.Peek()
	// Two instruments that change in every collection, one of each
	// temporality, in a meter that is collected first.
	m := t.p.Meter("beat")
	for _, tempo := range []string{"cumulative", "delta"} {
		_, err := m.Int64ObservableCounter("beat."+tempo, apimetric.WithDescription(`{"temporality":"`+tempo+`"}`),
			apimetric.WithInt64Callback(func(_ context.Context, o apimetric.Int64Observer) error {
				t.mu.Lock()
				t.beat++
				v := t.beat
				t.mu.Unlock()
				o.Observe(v)
				return nil
			}))
		if err != nil {
			r.Failf("C12", "%v", err)
		}
	}
	return t
}

type interval struct {
	rd         int
	start, end time.Time
	in, out    int64 // logical time of call and return
}

// collect runs one collection and checks that its points agree.
func (t *timesRun) collect(rd int) interval {
	r := t.r
	in := vsched.Stamp()
	before := vtime.Peek()
	pts := pointsOf(t.rds[rd].Produce(nil))
	after := vtime.Peek()
	out := vsched.Stamp()
	t.mu.Lock()
	defer t.mu.Unlock()
	var iv interval
	for _, p := range pts {
		if p.Name == "beat.delta" {
			iv.start, iv.end = p.Start, p.End
		}
	}
	iv.rd, iv.in, iv.out = rd, in, out
	if iv.end.IsZero() {
		r.Failf("C12", "reader %d: no point of the instrument that changes in every collection:\n%s", rd, render(pts))
		return iv
	}
	if iv.end.Before(before) || iv.end.After(after) {
		r.Failf("C12", "reader %d: collection ends at %v, it ran from %v to %v", rd, iv.end, before, after)
	}
	for _, p := range pts {
		delta := p.Name == "beat.delta"
		if p.Scope != "beat" {
			delta = t.tempoFor(rd, p.Name, p.Kind)
		}
		want := aggregation.CumulativeTemporality
		if delta {
			want = aggregation.DeltaTemporality
		}
		if p.Tempo != want {
			r.Failf("C12", "reader %d: %v has temporality %v, want %v", rd, p, p.Tempo, want)
		}
		if p.End.Before(p.Start) {
			r.Failf("C12", "reader %d: %v ends at %v before its start %v", rd, p, p.End, p.Start)
		}
		if !p.End.Equal(iv.end) {
			r.Failf("C12", "reader %d: points of one collection end at %v and %v", rd, p.End, iv.end)
		}
		if delta {
			if !p.Start.Equal(iv.start) {
				r.Failf("C12", "reader %d: delta points of one collection start at %v and %v", rd, p.Start, iv.start)
			}
			continue
		}
		if t.start.IsZero() {
			t.start = p.Start
		}
		if !p.Start.Equal(t.start) || p.Start.Before(t.lo) || p.Start.After(t.hi) {
			r.Failf("C12", "reader %d: cumulative point %v starts at %v, others at %v, the provider was created between %v and %v", rd, p, p.Start, t.start, t.lo, t.hi)
		}
	}
	return iv
}

// chain checks that the intervals of one reader abut.
func (t *timesRun) chain(ivs []interval) {
	by := map[int][]interval{}
	for _, iv := range ivs {
		by[iv.rd] = append(by[iv.rd], iv)
	}
	for rd, l := range by {
		sort.Slice(l, func(i, j int) bool { return l[i].end.Before(l[j].end) })
		prev := t.start
		for i, iv := range l {
			if !iv.start.Equal(prev) {
				t.r.Failf("C12", "reader %d: delta interval %d is (%v, %v], the one before ended at %v", rd, i, iv.start, iv.end, prev)
			}
			prev = iv.end
			for _, x := range l[:i] {
				if iv.out < x.in {
					t.r.Failf("C12", "reader %d: a collection that returned before another began ends later", rd)
				}
			}
		}
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "times-seq", Props: []string{"C12"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			kind := allKinds[r.Choose(7)]
			sa := r.Choose(len(tempoSels))
			sb := r.Choose(2)
			hint := pick(r, "", `{"temporality":"delta"}`, `{"temporality":"cumulative"}`)
			t := newTimes(r, [][]view.Option{
				{view.WithDefaultAggregationTemporalitySelector(tempoSels[sa])},
				{view.WithDefaultAggregationTemporalitySelector(tempoSels[sb])},
			})
			t.tempoFor = func(rd int, name string, k sdkinstrument.Kind) bool {
				if k == sdkinstrument.AsyncGauge {
					return false
				}
				if name == "hinted" && hint != "" {
					return hint == `{"temporality":"delta"}`
				}
				return refTempo([]int{sa, sb}[rd], k)
			}
			m := t.p.Meter("m")
			var val float64
			var recs []func()
			var on [2]bool
			for i, nd := range [][2]string{{"plain", ""}, {"hinted", hint}} {
				i := i
				c, err := mkInst(m, nd[0], kind, false, pathSet, nd[1], "")
				if err != nil {
					r.Failf("C12", "%v", err)
				}
				if c.rec != nil {
					recs = append(recs, func() { c.rec(bg, 1, nil) })
					continue
				}
				_, _ = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
					if on[i] {
						c.observe(o, val, nil)
					}
					return nil
				}, c.obs)
				recs = append(recs, func() { on[i] = true; val++ })
			}
			n := 5
			if r.Thorough {
				n = 8
			}
			var ivs []interval
			for i := 0; i < n; i++ {
				switch r.Choose(3) {
				case 0:
					ivs = append(ivs, t.collect(0))
				case 1:
					ivs = append(ivs, t.collect(1))
				case 2:
					recs[0]()
					recs[1]()
				}
			}
			ivs = append(ivs, t.collect(0), t.collect(1))
			t.chain(ivs)
		},
	})
	// Collections before there is a meter, an instrument or a
	// measurement count as collections.
	mc.Register(&mc.Scenario{
		Name: "times-empty", Props: []string{"C12"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			type window struct{ lo, hi time.Time }
			rds := []*metric.ManualReader{metric.NewManualReader("a"), metric.NewManualReader("b")}
			lo := vtime.Peek()
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rds[0], tempoOpt(true)), metric.WithReader(rds[1], tempoOpt(true)))
			hi := vtime.Peek()
			last := []window{{lo, hi}, {lo, hi}}
			var m apimetric.Meter
			var insts []kinst
			pending := [2]map[string]bool{{}, {}}
			n := 6
			if r.Thorough {
				n = 8
			}
			kinds := []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram, sdkinstrument.SyncUpDownCounter}
			for i := 0; i < n; i++ {
				op := 2
				if i < n-1 {
					op = r.Choose(5)
				}
				switch op {
				case 0:
					if m != nil {
						return
					}
					m = p.Meter("m")
				case 1:
					if m == nil || len(insts) == len(kinds) {
						return
					}
					c, err := mkInst(m, fmt.Sprint("i", len(insts)), kinds[len(insts)], false, pathSet, "", "")
					if err != nil {
						r.Failf("C12", "%v", err)
					}
					insts = append(insts, c)
				case 2, 3:
					rd := op - 2
					_ = vtime.Now()
					before := vtime.Peek()
					pts := pointsOf(rds[rd].Produce(nil))
					after := vtime.Peek()
					for _, pt := range pts {
						if pt.Start.Before(last[rd].lo) || pt.Start.After(last[rd].hi) {
							r.Failf("C12", "reader %d: %v starts at %v, the collection before ran from %v to %v", rd, pt, pt.Start, last[rd].lo, last[rd].hi)
						}
						if pt.End.Before(before) || pt.End.After(after) {
							r.Failf("C12", "reader %d: %v ends at %v, the collection ran from %v to %v", rd, pt, pt.End, before, after)
						}
						if !pending[rd][pt.Name] {
							r.Failf("C12", "reader %d: %v without a measurement", rd, pt)
						}
						delete(pending[rd], pt.Name)
					}
					if len(pending[rd]) != 0 {
						r.Failf("C12", "reader %d: nothing reported for %v", rd, pending[rd])
					}
					last[rd] = window{before, after}
				case 4:
					if len(insts) == 0 {
						return
					}
					for i, c := range insts {
						c.rec(bg, 1, nil)
						for rd := range rds {
							pending[rd][fmt.Sprint("i", i)] = true
						}
					}
				}
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "times-conc", Props: []string{"C12"}, Bound: [2]int{2, 3}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			prog := pickT(r, 4, "A|A", "A|B", "AA|A", "A|A|a", "A|A|B", "AB|BA", "A|A|A")
			d := r.ChooseBool()
			t := newTimes(r, [][]view.Option{{tempoOpt(d)}, {tempoOpt(!d)}})
			t.tempoFor = func(rd int, _ string, _ sdkinstrument.Kind) bool { return (rd == 0) == d }
			m := t.p.Meter("m")
			c, _ := m.Int64Counter("c")
			c.Add(bg, 1)
			var mu sync.Mutex
			var ivs []interval
			var fs []func()
			var cur []rune
			for _, ch := range prog + "|" {
				if ch != '|' {
					cur = append(cur, ch)
					continue
				}
				ops := cur
				cur = nil
				fs = append(fs, func() {
					for _, o := range ops {
						if o == 'a' {
							c.Add(bg, 1)
							continue
						}
						iv := t.collect(int(o - 'A'))
						mu.Lock()
						ivs = append(ivs, iv)
						mu.Unlock()
					}
				})
			}
			r.Par(fs...)
			ivs = append(ivs, t.collect(0), t.collect(1))
			t.chain(ivs)
		},
	})
}
