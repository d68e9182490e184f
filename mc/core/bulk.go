package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// Large numbers of measurements, series, readers, rounds, callbacks and
// attributes: whatever is counted must not wrap, saturate or stop.

func pickKind(r *mc.R, ks []sdkinstrument.Kind) sdkinstrument.Kind { return ks[r.Choose(len(ks))] }

func pickN(r *mc.R, ns ...int) int { return ns[r.Choose(len(ns))] }

// pathOf chooses a recording path the kind has.
func pathOf(r *mc.R, k sdkinstrument.Kind) int {
	if hasKV(k) {
		return r.Choose(3)
	}
	return r.Choose(2)
}

// bulkReaders makes one reader per letter: d or c; upper case keeps only
// key "k".
func bulkReaders(readers string) ([]*metric.ManualReader, []metric.Option) {
	var rds []*metric.ManualReader
	var opts []metric.Option
	for i, ch := range readers {
		rd := metric.NewManualReader(fmt.Sprint("rd", i))
		vo := []view.Option{tempoOpt(ch == 'd' || ch == 'D')}
		if ch == 'D' || ch == 'C' {
			vo = append(vo, view.WithClause(view.WithKeys([]attribute.Key{"k"})))
		}
		rds = append(rds, rd)
		opts = append(opts, metric.WithReader(rd, vo...))
	}
	return rds, opts
}

// bulkTotals is what a reader is to report: per series, sum (or last value)
// and count.
type bulkTotals struct {
	sum  map[string]float64
	n    map[string]uint64
	last map[string]float64
}

func newTotals() *bulkTotals {
	return &bulkTotals{map[string]float64{}, map[string]uint64{}, map[string]float64{}}
}

func (t *bulkTotals) add(key string, v float64) {
	t.sum[key] += v
	t.n[key]++
	t.last[key] = v
}

// differ says how the points differ from the totals, or nothing.
func (t *bulkTotals) differ(k sdkinstrument.Kind, pts []Point) string {
	got := map[string]bool{}
	for _, p := range pts {
		if got[p.Attrs] {
			return fmt.Sprintf("series {%s} twice", p.Attrs)
		}
		got[p.Attrs] = true
		n, ok := t.n[p.Attrs]
		if !ok {
			return fmt.Sprintf("series {%s} reported, which has nothing to report", p.Attrs)
		}
		want := t.sum[p.Attrs]
		if k == sdkinstrument.SyncGauge {
			want = t.last[p.Attrs]
		}
		if p.Val != want {
			return fmt.Sprintf("series {%s} reports %v, want %v (%d measurements)", p.Attrs, p.Val, want, n)
		}
		if k == sdkinstrument.SyncHistogram && p.Count != n {
			return fmt.Sprintf("series {%s} reports %d measurements, want %d", p.Attrs, p.Count, n)
		}
	}
	if len(got) != len(t.n) {
		return fmt.Sprintf("%d series reported, want %d", len(got), len(t.n))
	}
	return ""
}

// bulk is one provider with one synchronous instrument.
type bulk struct {
	r       *mc.R
	kind    sdkinstrument.Kind
	readers string
	rds     []*metric.ManualReader
	inst    kinst
	exp     []*bulkTotals
	keys    map[string][2]string
}

func newBulk(r *mc.R, perf sdkinstrument.Performance, kind sdkinstrument.Kind, float bool, path int, readers string) *bulk {
	b := &bulk{r: r, kind: kind, readers: readers, keys: map[string][2]string{}}
	var opts []metric.Option
	b.rds, opts = bulkReaders(readers)
	var err error
	b.inst, err = mkInst(newProvider(perf, opts...).Meter("m"), "i", kind, float, path, "", "")
	if err != nil {
		r.Failf(r.Prop(), "creating the instrument: %v", err)
	}
	for range readers {
		b.exp = append(b.exp, newTotals())
	}
	return b
}

func (b *bulk) record(v float64, name string, kvs []attribute.KeyValue) {
	b.inst.rec(bg, v, kvs)
	ks, ok := b.keys[name]
	if !ok {
		ks[0] = attrString(attribute.NewSet(append([]attribute.KeyValue(nil), kvs...)...))
		for _, kv := range kvs {
			if kv.Key == "k" {
				ks[1] = attrString(attribute.NewSet(kv))
			}
		}
		b.keys[name] = ks
	}
	for i, ch := range b.readers {
		f := 0
		if ch == 'D' || ch == 'C' {
			f = 1
		}
		b.exp[i].add(ks[f], v)
	}
}

// collect lets reader i collect and judges what it got.
func (b *bulk) collect(i int, what string) {
	pts := pointsOf(b.rds[i].Produce(nil))
	if d := b.exp[i].differ(b.kind, pts); d != "" {
		b.r.Failf(b.r.Prop(), "reader %d of %s, %s: %s", i, b.readers, what, d)
	}
	if b.readers[i] == 'd' || b.readers[i] == 'D' {
		b.exp[i] = newTotals()
	}
}

func bulkAttrs(i int) []attribute.KeyValue {
	return []attribute.KeyValue{attribute.Int("x", i), attribute.Int("k", i%2)}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "bulk-updates", Props: []string{"C01", "C03", "C04"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			var ks []sdkinstrument.Kind
			switch r.Prop() {
			case "C03":
				ks = []sdkinstrument.Kind{sdkinstrument.SyncHistogram}
			case "C04":
				ks = []sdkinstrument.Kind{sdkinstrument.SyncGauge}
			default:
				ks = []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncHistogram}
			}
			k := pickKind(r, ks)
			float := r.ChooseBool()
			path := pathOf(r, k)
			readers := pick(r, "d", "c", "dC", "Dc")
			var n [2]int
			if r.Choose(2) == 0 {
				ns := []int{0, 1, 127, 128, 255, 256, 257, 512, 1024}
				n[0], n[1] = pickN(r, ns...), pickN(r, ns...)
			} else {
				// Few of the very large ones.
				n = [][2]int{{65536, 1}, {65535, 65537}}[r.Choose(2)]
				if !r.Thorough && (float || path == pathOpts || len(readers) > 1) {
					return
				}
			}
			r.Logf("%v float %v path %d readers %s: %d and %d measurements", k, float, path, readers, n[0], n[1])
			b := newBulk(r, sdkinstrument.Performance{}, k, float, path, readers)
			for round, m := range n {
				for i := 0; i < m; i++ {
					b.record(float64(1+i%5), "a", plainAttrs(0))
				}
				b.record(float64(7), "b", plainAttrs(1))
				for i := range b.rds {
					b.collect(i, fmt.Sprint("round ", round))
				}
			}
			for i := range b.rds {
				b.collect(i, "last collection")
			}
		},
	})

	mc.Register(&mc.Scenario{
		Name: "bulk-readers", Props: []string{"C01", "C20"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			k := pickKind(r, syncKinds)
			path := pathOf(r, k)
			n := pickN(r, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32, 33, 64, 65)
			pat := pick(r, "d", "c", "dc", "ddc", "dD", "cdC")
			readers := strings.Repeat(pat, n)[:n]
			rev := r.ChooseBool()
			r.Logf("%v path %d readers %s reverse %v", k, path, readers, rev)
			b := newBulk(r, sdkinstrument.Performance{InactiveCollectionPeriods: 1}, k, false, path, readers)
			v := 0.0
			for round := 0; round < 3; round++ {
				v++
				b.record(v, "a", plainAttrs(0))
				for i := range b.rds {
					j := i
					if rev {
						j = len(b.rds) - 1 - i
					}
					if i == len(b.rds)/2 {
						v++
						b.record(v, "b", plainAttrs(1))
					}
					if round == 1 && i%2 == 1 {
						continue // every other reader leaves out a round
					}
					b.collect(j, fmt.Sprint("round ", round))
				}
			}
		},
	})

	// Default limits.
	mc.Register(&mc.Scenario{
		Name: "bulk-series", Props: []string{"C06"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			k := pickKind(r, []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram})
			path := pathKV * r.Choose(2)
			readers := pick(r, "d", "c", "dc")
			n := pickN(r, 100, 1999, 2000, 2001, 2999, 3000, 3001, 3300)
			perf := sdkinstrument.Performance{}
			agg, inst := sdkinstrument.DefaultAggregatorCardinalityLimit, sdkinstrument.DefaultInstrumentCardinalityLimit
			switch r.Choose(4) {
			case 1:
				perf.AggregatorCardinalityLimit = 5000
				agg = 5000
			case 2:
				perf.AggregatorCardinalityLimit, perf.InstrumentCardinalityLimit = 257, 513
				agg, inst = 257, 513
			case 3:
				perf.AggregatorCardinalityLimit, perf.InstrumentCardinalityLimit = 3000, 1024
				agg, inst = 3000, 1024
			}
			lim := agg
			if inst < lim {
				lim = inst
			}
			r.Logf("%v path %d readers %s: %d series, limits %d/%d", k, path, readers, n, agg, inst)
			rds, opts := bulkReaders(readers)
			in, err := mkInst(newProvider(perf, opts...).Meter("m"), "i", k, false, path, "", "")
			if err != nil {
				r.Failf("C06", "creating the instrument: %v", err)
				return
			}
			key := make([]string, n)
			for i := range key {
				key[i] = attrString(attribute.NewSet(bulkAttrs(i)...))
			}
			total := make([]map[string]float64, len(rds))
			for i := range total {
				total[i] = map[string]float64{}
			}
			for round := 1; round <= 2; round++ {
				for i := 0; i < n; i++ {
					in.rec(bg, float64(round), bulkAttrs(i))
				}
				for i, rd := range rds {
					pts := pointsOf(rd.Produce(nil))
					if len(pts) > lim {
						r.Failf("C06", "reader %d: %d series in one collection, the limit is %d", i, len(pts), lim)
					}
					got := map[string]float64{}
					for _, p := range pts {
						got[p.Attrs] = p.Val
					}
					if len(got) != len(pts) {
						r.Failf("C06", "reader %d: a series is reported twice", i)
					}
					var mult, sum float64 = float64(round), 0
					if readers[i] == 'c' && round == 2 {
						mult = 3
					}
					for a, v := range got {
						sum += v
						if a != overflowKey && v != mult {
							r.Failf("C06", "reader %d: series {%s} reports %v, want %v", i, a, v, mult)
						}
					}
					if sum != mult*float64(n) {
						r.Failf("C06", "reader %d: total is %v, want %v", i, sum, mult*float64(n))
					}
					if _, over := got[overflowKey]; over && n < lim {
						r.Failf("C06", "reader %d: overflow with %d series and a limit of %d", i, n, lim)
					}
					if n < lim {
						for _, a := range key {
							if _, ok := got[a]; !ok {
								r.Failf("C06", "reader %d: series {%s} is missing", i, a)
							}
						}
					}
					if round == 2 {
						// Existing series are unaffected.
						for a := range total[i] {
							if _, ok := got[a]; !ok {
								r.Failf("C06", "reader %d: existing series {%s} went elsewhere", i, a)
							}
						}
					}
					total[i] = got
				}
			}
		},
	})

	// Long inactivity settings, and the default one.
	mc.Register(&mc.Scenario{
		Name: "idle-long", Props: []string{"C07"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			k := pickKind(r, syncKinds)
			path := pathOf(r, k)
			set := pickN(r, 0, 1, 2, 9, 10, 11, 127, 128, 255, 256, 257, 300)
			want := set
			if set == 0 {
				want = sdkinstrument.DefaultInactiveCollectionPeriods
			}
			idle := want + r.Choose(3) - 1
			before := pickN(r, 1, 2, 3)
			r.Logf("%v path %d, %d inactive periods, %d idle collections after %d active ones", k, path, set, idle, before)
			rd := metric.NewManualReader("rd")
			perf := sdkinstrument.Performance{InactiveCollectionPeriods: uint32(set), InstrumentCardinalityLimit: 2}
			in, err := mkInst(newProvider(perf, metric.WithReader(rd, tempoOpt(true))).Meter("m"), "i", k, false, path, "", "")
			if err != nil {
				r.Failf("C07", "creating the instrument: %v", err)
				return
			}
			for i := 0; i < before; i++ {
				in.rec(bg, 1, plainAttrs(0))
				rd.Produce(nil)
				if i+1 < before {
					// Idle for as long as is allowed, each time.
					for j := 0; j+1 < want; j++ {
						rd.Produce(nil)
					}
				}
			}
			for i := 0; i < idle; i++ {
				rd.Produce(nil)
			}
			in.rec(bg, 2, plainAttrs(1))
			pts := pointsOf(rd.Produce(nil))
			if len(pts) != 1 {
				r.Failf("C07", "%d series reported, want 1", len(pts))
				return
			}
			held := pts[0].Attrs == overflowKey
			if held && idle >= want {
				r.Failf("C07", "a series idle for %d collections was not dropped (setting %d)", idle, want)
			}
			if !held && idle < want {
				r.Failf("C07", "a series idle for %d collections was dropped (setting %d)", idle, want)
			}
		},
	})

	// Many collections in a row.
	mc.Register(&mc.Scenario{
		Name: "bulk-rounds", Props: []string{"C08", "C12"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			k := pickKind(r, allKinds)
			float := r.ChooseBool()
			delta := r.ChooseBool()
			rounds := pickN(r, 20, 300)
			reuse := r.ChooseBool()
			r.Logf("%v float %v delta %v, %d rounds, reuse %v", k, float, delta, rounds, reuse)
			rd := metric.NewManualReader("rd")
			m := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(delta))).Meter("m")
			in, err := mkInst(m, "i", k, float, pathSet, "", "")
			if err != nil {
				r.Failf(r.Prop(), "creating the instrument: %v", err)
				return
			}
			obs := 0.0
			if in.obs != nil {
				m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
					in.observe(o, obs, plainAttrs(0))
					return nil
				}, in.obs)
			}
			prior := rd.Produce(nil)
			var last Point
			sum := 0.0
			for i := 1; i <= rounds; i++ {
				step := float64(1 + i%7)
				obs += step
				sum += step
				if in.rec != nil {
					in.rec(bg, step, plainAttrs(0))
				}
				if reuse {
					prior = rd.Produce(&prior)
				} else {
					prior = rd.Produce(nil)
				}
				pts := pointsOf(prior)
				if len(pts) != 1 {
					r.Failf(r.Prop(), "round %d: %d points, want 1", i, len(pts))
					return
				}
				p := pts[0]
				want := sum
				switch {
				case k == sdkinstrument.SyncGauge:
					want = step
				case k == sdkinstrument.AsyncGauge:
					want = obs
				case delta:
					want = step
				}
				if p.Val != want {
					r.Failf("C08", "round %d reports %v, want %v", i, p.Val, want)
				}
				if i > 1 && k != sdkinstrument.AsyncGauge && k != sdkinstrument.SyncGauge {
					if delta && !p.Start.Equal(last.End) {
						r.Failf("C12", "round %d starts at %v, the previous one ended at %v", i, p.Start, last.End)
					}
					if !delta && !p.Start.Equal(last.Start) {
						r.Failf("C12", "round %d starts at %v, the previous one at %v", i, p.Start, last.Start)
					}
				}
				if p.End.Before(p.Start) || i > 1 && p.End.Before(last.End) {
					r.Failf("C12", "round %d ends at %v, start %v, previous end %v", i, p.End, p.Start, last.End)
				}
				last = p
			}
		},
	})

	// Any number of callbacks, unregistered in any order.
	mc.Register(&mc.Scenario{
		Name: "cb-many", Props: []string{"C09"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			max := 5
			if r.Thorough {
				max = 6
			}
			n := 1 + r.Choose(max)
			many := r.Choose(3) // further callbacks that stay
			rd := metric.NewManualReader("rd")
			m := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(false))).Meter("m")
			total := n + []int{0, 1, 40}[many]
			ran := make([]int, total)
			var regs []apimetric.Registration
			for i := 0; i < total; i++ {
				in, _ := m.Int64ObservableGauge(fmt.Sprint("g", i))
				reg, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
					ran[i]++
					o.ObserveInt64(in, int64(i))
					return nil
				}, in)
				if err != nil {
					r.Failf("C09", "RegisterCallback: %v", err)
					return
				}
				regs = append(regs, reg)
			}
			gone := map[int]bool{}
			check := func() {
				for i := range ran {
					ran[i] = 0
				}
				pts := pointsOf(rd.Produce(nil))
				got := map[string]bool{}
				for _, p := range pts {
					got[p.Name] = true
				}
				for i := range ran {
					want := 1
					if gone[i] {
						want = 0
					}
					if ran[i] != want || got[fmt.Sprint("g", i)] != (want == 1) {
						r.Failf("C09", "%d callbacks, unregistered %v: callback %d ran %d times, reported %v", total, gone, i, ran[i], got[fmt.Sprint("g", i)])
					}
				}
			}
			check()
			left := make([]int, n)
			for i := range left {
				left[i] = i
			}
			for len(left) > 0 {
				j := r.Choose(len(left))
				i := left[j]
				left = append(append([]int(nil), left[:j]...), left[j+1:]...)
				if err := regs[i].Unregister(); err != nil {
					r.Failf("C09", "Unregister: %v", err)
				}
				gone[i] = true
				check()
			}
		},
	})

	// Long attribute lists.
	mc.Register(&mc.Scenario{
		Name: "attrs-long", Props: []string{"C05"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			k := pickKind(r, []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram, sdkinstrument.SyncGauge})
			path := pathOf(r, k)
			n := pickN(r, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 65, 130)
			order := r.Choose(4) // how the second list is ordered
			change := r.Choose(6)
			mk := func() []attribute.KeyValue {
				l := make([]attribute.KeyValue, n)
				for i := range l {
					l[i] = attribute.Int64(fmt.Sprintf("key%03d", i), int64(i))
				}
				return l
			}
			a, b := mk(), mk()
			same := false
			switch change {
			case 0:
				same = true
			case 1: // first value
				b[0].Value = attribute.Int64Value(-1)
			case 2: // last value
				b[n-1].Value = attribute.Int64Value(-1)
			case 3: // last key
				b[n-1].Key += "x"
			case 4: // one more
				b = append(b, attribute.Int64("more", 1))
			case 5: // middle value, of another type
				b[n/2].Value = attribute.StringValue(fmt.Sprint(n / 2))
			}
			switch order {
			case 1: // reversed
				for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
			case 2: // rotated
				b = append(append([]attribute.KeyValue(nil), b[1:]...), b[0])
			case 3: // each key earlier with another value
				l := make([]attribute.KeyValue, 0, 2*len(b))
				for _, kv := range b {
					l = append(l, attribute.String(string(kv.Key), "old"))
				}
				b = append(l, b...)
			}
			r.Logf("%v path %d, %d attributes, order %d, change %d", k, path, n, order, change)
			rd := metric.NewManualReader("rd")
			in, err := mkInst(newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(true))).Meter("m"), "i", k, false, path, "", "")
			if err != nil {
				r.Failf("C05", "creating the instrument: %v", err)
				return
			}
			ka := attrString(attribute.NewSet(append([]attribute.KeyValue(nil), a...)...))
			kb := attrString(attribute.NewSet(append([]attribute.KeyValue(nil), b...)...))
			for round := 0; round < 2; round++ {
				in.rec(bg, 1, append([]attribute.KeyValue(nil), a...))
				in.rec(bg, 2, append([]attribute.KeyValue(nil), b...))
				in.rec(bg, 4, append([]attribute.KeyValue(nil), a...))
				got := map[string]float64{}
				for _, p := range pointsOf(rd.Produce(nil)) {
					got[p.Attrs] += p.Val
				}
				want := map[string]float64{ka: 5, kb: 2}
				if k == sdkinstrument.SyncGauge {
					want[ka] = 4
				}
				if same {
					want = map[string]float64{ka: 7}
					if k == sdkinstrument.SyncGauge {
						want[ka] = 4
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					r.Failf("C05", "round %d reports %v, want %v", round, got, want)
				}
			}
		},
	})

	// The default size limit, and ones around what strings are made of.
	mc.Register(&mc.Scenario{
		Name: "attrs-size", Props: []string{"C05"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			k := pickKind(r, append([]sdkinstrument.Kind{sdkinstrument.AsyncGauge}, sdkinstrument.SyncCounter, sdkinstrument.SyncGauge))
			path := 0
			if k.Synchronous() {
				path = pathOf(r, k)
			}
			lim := uint32(pickN(r, 0, 1, 255, 256, 257, 8192, 10000))
			eff := int(lim)
			if lim == 0 {
				eff = sdkinstrument.DefaultAttributeSizeLimit
			}
			n := eff + r.Choose(4) - 1
			slice := r.ChooseBool()
			r.Logf("%v path %d, limit %d, string of %d bytes, slice %v", k, path, lim, n, slice)
			rd := metric.NewManualReader("rd")
			m := newProvider(sdkinstrument.Performance{AttributeSizeLimit: lim}, metric.WithReader(rd, tempoOpt(false))).Meter("m")
			in, err := mkInst(m, "i", k, false, path, "", "")
			if err != nil {
				r.Failf("C05", "creating the instrument: %v", err)
				return
			}
			long := strings.Repeat("s", n)
			// Strings made on the stack do not survive in a StringSlice of
			// this otel and Go version (reflect.Copy), so make them before.
			longs := map[string]string{"1": strings.Join([]string{long, "1"}, ""), "2": strings.Join([]string{long, "2"}, "")}
			kvs := func(tail string) []attribute.KeyValue {
				if slice {
					return []attribute.KeyValue{attribute.StringSlice("s", []string{"a", longs[tail], "", longs["1"]})}
				}
				return []attribute.KeyValue{attribute.String("s", longs[tail])}
			}
			if in.obs != nil {
				m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
					in.observe(o, 1, kvs("1"))
					in.observe(o, 1, kvs("2"))
					return nil
				}, in.obs)
			} else {
				in.rec(bg, 1, kvs("1"))
				in.rec(bg, 1, kvs("2"))
			}
			cut := func(s string) string {
				if len(s) > eff {
					return s[:eff]
				}
				return s
			}
			want := map[string]bool{}
			for _, t := range []string{"1", "2"} {
				kv := attribute.String("s", cut(longs[t]))
				if slice {
					kv = attribute.StringSlice("s", []string{cut("a"), cut(longs[t]), "", cut(longs["1"])})
				}
				want[attrString(attribute.NewSet(kv))] = true
			}
			got := map[string]bool{}
			for _, p := range pointsOf(rd.Produce(nil)) {
				got[p.Attrs] = true
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.Failf("C05", "limit %d, strings of %d bytes: %d series, want %d, or of other attributes %.300v %.300v", lim, n+1, len(got), len(want), got, want)
			}
		},
	})
}
