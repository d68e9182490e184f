package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// Measurements of equal, zero and opposite values, which are measurements
// like any other.

type agg1 struct {
	n                   uint64
	sum, min, max, last float64
}

func (a *agg1) add(v float64) {
	if a.n == 0 || v < a.min {
		a.min = v
	}
	if a.n == 0 || v > a.max {
		a.max = v
	}
	a.n++
	a.sum += v
	a.last = v
}

var equalVals = map[string][][2]int64{
	"counter": {{1, 0}, {2, 2}}, "updown": {{1, -1}, {0, -1}},
	"histogram": {{1, 0}, {2, 1}}, "mmsc": {{1, 0}, {2, 1}}, "gauge": {{5, 7}, {0, 5}},
}

func equalScenario(prop string, kinds ...string) {
	mc.Register(&mc.Scenario{
		Name: "equal-" + strings.ToLower(prop), Props: []string{prop}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0, 1},
		Doc: "sequences of measurements that repeat two values (equal, zero or opposite) on two attribute sets, merged by a view or not, and collections",
		Body: func(r *mc.R) {
			c := syncCfg{kind: pick(r, kinds...), readers: pick(r, "d", "c", "D", "C")}
			c.inactive = 1
			n := 5
			if r.Thorough {
				c.inactive = uint32(1 + r.Choose(2))
				n = 6
			}
			base := strings.SplitN(c.kind, "-", 2)[0]
			vals := equalVals[base][r.Choose(2)]
			s := newSyncRun(r, c)
			filtered := c.readers == "D" || c.readers == "C"
			delta := s.delta[0]
			now, all := map[string]*agg1{}, map[string]*agg1{}
			at := func(m map[string]*agg1, k string) *agg1 {
				if m[k] == nil {
					m[k] = &agg1{}
				}
				return m[k]
			}
			r.Logf("%s reader %s inactive %d", c.kind, c.readers, c.inactive)
			collect := func() {
				pts := pointsOf(s.readers[0].Produce(nil))
				want := all
				if delta {
					want = now
				}
				seen := map[string]bool{}
				for _, p := range pts {
					r.Logf("collected %v", p)
					w := want[p.Attrs]
					if seen[p.Attrs] || w == nil {
						r.Failf(prop, "%v is reported, times in this collection before: %v, measured: %v", p, seen[p.Attrs], w != nil)
						continue
					}
					seen[p.Attrs] = true
					bad := false
					switch base {
					case "gauge":
						bad = p.Val != w.last
					case "histogram", "mmsc":
						bad = p.Count != w.n || p.Min != w.min || p.Max != w.max || p.Val != w.sum
					default:
						bad = p.Val != w.sum
					}
					if bad {
						r.Failf(prop, "%s: %v is reported, want of %d measurements the sum %v, from %v to %v, last %v", c.kind, p, w.n, w.sum, w.min, w.max, w.last)
					}
				}
				for k, w := range want {
					if !seen[k] && !(delta && w.sum == 0 && (base == "counter" || base == "updown")) {
						r.Failf(prop, "%s: series {%s} of %d measurements (sum %v, last %v) is not reported", c.kind, k, w.n, w.sum, w.last)
					}
				}
				now = map[string]*agg1{}
			}
			for i := 0; i < n; i++ {
				o := r.Choose(5)
				if o == 4 {
					collect()
					continue
				}
				attr, v := o%2, vals[o/2]
				r.Logf("%c: %d", 'a'+attr, v)
				s.record(v, attr)
				k := s.outKey(0, filtered, attr)
				at(now, k).add(float64(v))
				at(all, k).add(float64(v))
			}
			collect()
			collect()
		},
	})
}

func init() {
	equalScenario("C01", "counter", "updown-f", "counter-k", "counter-fk")
	equalScenario("C03", "histogram", "mmsc-f", "histogram-fk", "mmsc")
	equalScenario("C04", "gauge", "gauge-f", "gauge-tf")

	// C07: the overflow series is dropped like any other.
	mc.Register(&mc.Scenario{
		Name: "idle-overflow", Props: []string{"C07"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0, 1},
		Doc: "instruments filled up to and beyond their limit, further measurements and collections, then idle for the configured periods: a full set of new series has room",
		Body: func(r *mc.R) {
			c := syncCfg{kind: pick(r, "counter", "gauge", "histogram-k"), readers: pick(r, "d", "c", "dc"), inactive: uint32(1 + r.Choose(3))}
			lim := 2 + r.Choose(3)
			c.perf.InstrumentCardinalityLimit = uint32(lim)
			c.perf.IgnoreCollisions = r.ChooseBool()
			s := newSyncRun(r, c)
			n := 3
			if r.Thorough {
				n = 5
			}
			r.Logf("%s readers %s limit %d inactive %d", c.kind, c.readers, lim, c.inactive)
			for a := 0; a < lim+r.Choose(2); a++ {
				s.record(1, a)
			}
			for i := 0; i < n; i++ {
				switch o := r.Choose(4); o {
				case 0, 1:
					s.readers[o%len(s.readers)].Produce(nil)
					r.Logf("collect")
				case 2:
					s.record(1, 0)
					r.Logf("record the first")
				case 3:
					s.record(1, lim)
					r.Logf("record the last")
				}
			}
			for i := 0; i < int(c.inactive)+1; i++ {
				s.readers[i%len(s.readers)].Produce(nil)
			}
			own := map[string]bool{}
			for a := 0; a < lim-1; a++ {
				s.record(2, 7-a)
				own[s.outKey(0, false, 7-a)] = false
			}
			for _, p := range pointsOf(s.readers[0].Produce(nil)) {
				if _, ok := own[p.Attrs]; ok {
					own[p.Attrs] = true
				}
			}
			for k, ok := range own {
				if !ok {
					r.Failf("C07", "%s limit %d inactive %d: after all series were idle there is no room for series {%s}", c.kind, lim, c.inactive, k)
				}
			}
		},
	})

	// C07: no reader and no view clause keeps an idle series.
	mc.Register(&mc.Scenario{
		Name: "idle-readers", Props: []string{"C07"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0, 1},
		Doc: "one to three readers or view clauses of either temporality, measurements of new and old series and collections, then idle for the configured periods: every delta output has room for a full set of new series",
		Body: func(r *mc.R) {
			kind := []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram, sdkinstrument.SyncUpDownCounter}[r.Choose(3)]
			cfg := pick(r, "d", "dd", "cd", "dc", "2", "2d", "d2", "ddd")
			inactive := 1 + r.Choose(2)
			lim := 3
			var rds []*metric.ManualReader
			var opts []metric.Option
			for i, ch := range cfg {
				rd := metric.NewManualReader(fmt.Sprint("rd", i))
				rds = append(rds, rd)
				vo := []view.Option{tempoOpt(ch != 'c')}
				if ch == '2' {
					vo = append(vo, view.WithClause(view.WithName("one")), view.WithClause(view.WithName("two")))
				}
				opts = append(opts, metric.WithReader(rd, vo...))
			}
			p := newProvider(sdkinstrument.Performance{InactiveCollectionPeriods: uint32(inactive), AggregatorCardinalityLimit: uint32(lim)}, opts...)
			inst, err := mkInst(p.Meter("m"), "i", kind, r.ChooseBool(), pathSet, "", "")
			if err != nil {
				panic(err)
			}
			r.Logf("%v readers %s inactive %d", kind, cfg, inactive)
			next := 0
			n := 4
			if r.Thorough {
				n = 6
			}
			for i := 0; i < n; i++ {
				switch o := r.Choose(4); o {
				case 0:
					inst.rec(bg, 1, plainAttrs(next))
					next++
					r.Logf("record a new one")
				case 1:
					if next > 0 {
						inst.rec(bg, 1, plainAttrs(next-1))
					}
					r.Logf("record the latest")
				case 2, 3:
					rds[(o-2)%len(rds)].Produce(nil)
					r.Logf("reader %d collects", (o-2)%len(rds))
				}
			}
			for i := 0; i < inactive+3; i++ {
				for _, rd := range rds {
					rd.Produce(nil)
				}
			}
			want := map[string]bool{}
			for i := 0; i < lim-1; i++ {
				inst.rec(bg, 1, plainAttrs(100+i))
				want[attrString(attribute.NewSet(plainAttrs(100+i)...))] = true
			}
			for i, ch := range cfg {
				got := map[string]int{}
				for _, pt := range pointsOf(rds[i].Produce(nil)) {
					if want[pt.Attrs] {
						got[pt.Name]++
					}
				}
				names := []string{"i"}
				if ch == '2' {
					names = []string{"one", "two"}
				}
				for _, nm := range names {
					if ch != 'c' && got[nm] != len(want) {
						r.Failf("C07", "readers %s: after all series were idle, reader %d has room for %d of %d new series in %s", cfg, i, got[nm], len(want), nm)
					}
				}
			}
		},
	})

	// C21: instruments of differing configuration that appear in any order in
	// two meters.
	mc.Register(&mc.Scenario{
		Name: "reuse-shift", Props: []string{"C21"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Doc: "instruments of differing sizes and aggregations created over time in two or three meters, synchronous or asynchronous, recorded and collected into the previous output, against a twin collected afresh",
		Body: func(r *mc.R) {
			delta := r.ChooseBool()
			n := 6
			if r.Thorough {
				n = 7
			}
			type side struct {
				rd   *metric.ManualReader
				ms   []apimetric.Meter
				recs []func(float64)
			}
			descs := []string{`{"config":{"histogram":{"max_size":2}}}`, ``, `{"aggregation":"minmaxsumcount"}`}
			mk := func() *side {
				s := &side{rd: metric.NewManualReader("rd")}
				vo := []view.Option{tempoOpt(delta)}
				p := newProvider(sdkinstrument.Performance{InactiveCollectionPeriods: 1}, metric.WithReader(s.rd, vo...))
				for _, m := range []string{"a", "b"} {
					s.ms = append(s.ms, p.Meter(m))
				}
				return s
			}
			sides := [2]*side{mk(), mk()}
			async := r.ChooseBool()
			made := 0
			add := func(s *side, m, d int) {
				h, _ := s.ms[m].Float64Histogram(fmt.Sprint("h", made), apimetric.WithDescription(descs[d]))
				s.recs = append(s.recs, func(v float64) { h.Record(bg, v) })
				if async {
					g, _ := s.ms[m].Float64ObservableGauge(fmt.Sprint("g", made))
					cur := 0.0
					_, _ = s.ms[m].RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
						if cur != 0 {
							o.ObserveFloat64(g, cur)
						}
						return nil
					}, g)
					s.recs = append(s.recs, func(v float64) { cur = v })
				}
			}
			var buf data.Metrics
			collect := func() {
				got, want := sides[0].rd.Produce(&buf), sides[1].rd.Produce(nil)
				buf = got
				gs, ws := shape(got), shape(want)
				r.Logf("collects:\n%s", gs)
				if gs != ws {
					r.Failf("C21", "collected into earlier output:\n%s\nafresh:\n%s", gs, ws)
				}
			}
			for i := 0; i < n; i++ {
				switch o := r.Choose(6); o {
				case 0:
					collect()
				case 1:
					for _, s := range sides {
						for _, f := range s.recs {
							f(1)
							f(1000)
							f(7)
						}
					}
					r.Logf("record")
				default:
					m, d := (o-2)%2, (o-2)/2
					if d == 1 && made%2 == 1 {
						d = 2
					}
					for _, s := range sides {
						add(s, m, d)
					}
					made++
					r.Logf("new instrument in meter %d of size %d", m, d)
				}
			}
			for i := 0; i < 2; i++ {
				for _, s := range sides {
					for _, f := range s.recs {
						f(2)
						f(500)
						f(3)
					}
				}
				collect()
			}
		},
	})
}
