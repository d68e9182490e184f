package main

import (
	"fmt"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"go.opentelemetry.io/otel/attribute"
)

// keyCollisions are lists of different keys and lengths of which several have
// the same fingerprint (found by solving for it; the oracle does not use it).
var keyCollisions = [][]attribute.KeyValue{
	{attribute.Int64("a", 2663888702474161404)},
	{attribute.Int("b", 1), attribute.Int("c", 1)},
	{attribute.Int64("a", 4790742183805982503)},
	{attribute.Int("c", 1), attribute.Bool("b", true)},
	{attribute.Int("b", 1)},
	{attribute.Int64("a", 7221127778018704367)},
	{attribute.Int64("a", 356606860866299036)},
	{attribute.Int64("a", 356606860866299036), attribute.Int("c", 1)},
	{attribute.Int("c", 1), attribute.Int("b", 1)},
}

// overflowAliases look like the overflow attribute.
var overflowAliases = []attribute.KeyValue{
	attribute.Int("otel.metric.overflow", 1),
	attribute.BoolSlice("otel.metric.overflow", []bool{true}),
	attribute.IntSlice("otel.metric.overflow", []int{0, 1}),
	attribute.Bool("otel.metric.overflow", true),
	attribute.Int("a", 1),
	attribute.Int("b", 1),
	attribute.IntSlice("otel.metric.overflow", []int{1, 0}),
	attribute.Bool("otel.metric.overflow", false),
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "collide-keys", Props: []string{"C05", "C06"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Doc: "lists of different keys and lengths with equal fingerprints, with collections in between",
		Body: func(r *mc.R) {
			path := []int{pathKV, pathOpts, pathSet}[r.Choose(3)]
			delta := r.ChooseBool()
			perf := sdkinstrument.Performance{InactiveCollectionPeriods: 1}
			rd := metric.NewManualReader("r")
			c, _ := mkInst(newProvider(perf, metric.WithReader(rd, tempoOpt(delta))).Meter("m"), "i", sdkinstrument.SyncCounter, false, path, "", "")
			n := 4
			if r.Thorough {
				n = 5
			}
			total, interval := map[string]float64{}, map[string]float64{}
			for k := 0; k <= n; k++ {
				i := len(keyCollisions)
				if k < n {
					i = r.Choose(len(keyCollisions) + 1)
				}
				if i < len(keyCollisions) {
					l := append([]attribute.KeyValue(nil), keyCollisions[i]...)
					c.rec(bg, float64(int(1)<<(3*k)), l)
					key := attrString(attribute.NewSet(keyCollisions[i]...))
					total[key] += float64(int(1) << (3 * k))
					interval[key] += float64(int(1) << (3 * k))
					continue
				}
				want := total
				if delta {
					want = interval
				}
				got := map[string]float64{}
				for _, p := range pointsOf(rd.Produce(nil)) {
					got[p.Attrs] += p.Val
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					r.Failf(r.Prop(), "path %d delta %v: reported %v, want %v", path, delta, got, want)
				}
				interval = map[string]float64{}
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "limit-alias", Props: []string{"C06"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Doc: "attributes that have the fingerprint, the key or the text of the overflow attribute count like any other",
		Body: func(r *mc.R) {
			lim := 2 + r.Choose(2)
			small := r.ChooseBool() // the limit of the aggregator, else of the instrument
			perf := sdkinstrument.Performance{InstrumentCardinalityLimit: 50, AggregatorCardinalityLimit: uint32(lim)}
			if !small {
				perf = sdkinstrument.Performance{InstrumentCardinalityLimit: uint32(lim), AggregatorCardinalityLimit: 50}
			}
			delta := r.ChooseBool()
			rd := metric.NewManualReader("r")
			path := []int{pathKV, pathSet}[r.Choose(2)]
			c, _ := mkInst(newProvider(perf, metric.WithReader(rd, tempoOpt(delta))).Meter("m"), "i", sdkinstrument.SyncCounter, false, path, "", "")
			n := 5
			na := 6
			if r.Thorough {
				na = len(overflowAliases)
			}
			total, own := 0.0, map[string]bool{}
			sums := map[string]float64{}
			for k := 0; k < n; k++ {
				kv := overflowAliases[r.Choose(na)]
				v := float64(int(1) << (3 * k))
				c.rec(bg, v, []attribute.KeyValue{kv})
				total += v
				key := attrString(attribute.NewSet(kv))
				sums[key] += v
				own[key] = true
			}
			pts := pointsOf(rd.Produce(nil))
			sum := 0.0
			for _, p := range pts {
				sum += p.Val
				if p.Attrs != overflowKey && p.Val != sums[p.Attrs] {
					// A series that exists before the limit is not affected;
					// one that does not has no point of its own.
					r.Failf("C06", "%v is reported as %v, recorded %v", p.Attrs, p.Val, sums[p.Attrs])
				}
			}
			if len(pts) > lim {
				r.Failf("C06", "limit %d (aggregator %v): %d series, %v", lim, small, len(pts), pts)
			}
			if sum != total {
				r.Failf("C06", "limit %d (aggregator %v): the total is %v, recorded %v", lim, small, sum, total)
			}
		},
	})
}
