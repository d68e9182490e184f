package main

import (
	"math"

	histostruct "github.com/lightstep/go-expohisto/structure"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
)

// C03: contents of histogram and min/max/sum/count points, for all short
// sequences of values and collections.

var histFloats = []float64{1, 0, 3.5, 1024, 1e-300, math.MaxFloat64, 0x1p-1074, 0.25, 1023.9999, 1e9, 5e-5}
var histNegs = []float64{1, -1, -3.5, 0, 1e6, -1e-300, -math.MaxFloat64, math.Copysign(0, -1), -1024}
var histInts = []float64{1, 0, 3, 1024, 1 << 53, 1 << 60, 7, 1000}

// near compares sums of the same values added in different order.
func near(a, b, scale float64) bool {
	if a == b || (math.IsInf(b, 0) && math.Abs(a) > 1e308) || (math.IsInf(a, 0) && math.Abs(scale) > 1e308) {
		return true
	}
	return math.Abs(a-b) <= 1e-12*scale
}

func valuesProblem(p Point, vals []float64, size int32) string {
	var sum, abs float64
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range vals {
		sum += v
		abs += math.Abs(v)
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	switch {
	case p.Count != uint64(len(vals)):
		return "count"
	case !near(p.Val, sum, abs):
		return "sum"
	case p.Min != lo:
		return "minimum"
	case p.Max != hi:
		return "maximum"
	}
	if p.Agg != aggregation.HistogramKind {
		return ""
	}
	if len(p.Pos) > int(size) || len(p.Neg) > int(size) {
		return "number of buckets"
	}
	return histProblem(p, vals)
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "hist-values", Props: []string{"C03"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			mode := r.Choose(3)
			vals := [][]float64{histFloats, histNegs, histInts}[mode]
			sizes := []int32{160, 2, 5}
			size := sizes[r.Choose(3)]
			agg := []aggregation.Kind{aggregation.HistogramKind, aggregation.MinMaxSumCountKind}[r.Choose(2)]
			delta, merge := r.ChooseBool(), r.ChooseBool()
			n := 4
			if r.Thorough {
				n = 5
			}
			if size != 160 && agg != aggregation.HistogramKind {
				return
			}
			rd := metric.NewManualReader("rd")
			cfg := aggregator.Config{Histogram: histostruct.NewConfig(histostruct.WithMaxSize(size))}
			co := []view.ClauseOption{view.WithAggregatorConfig(cfg)}
			if mode != 1 {
				co = append(co, view.WithAggregation(agg))
			}
			if merge {
				co = append(co, view.WithKeys([]attribute.Key{"k"}))
			}
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(delta), view.WithClause(co...)))
			kind, desc := sdkinstrument.SyncHistogram, ""
			if mode == 1 {
				kind, desc = sdkinstrument.SyncUpDownCounter, `{"aggregation":"histogram"}`
				if agg == aggregation.MinMaxSumCountKind {
					desc = `{"aggregation":"minmaxsumcount"}`
				}
			}
			h, err := mkInst(p.Meter("m"), "h", kind, mode != 2, pathSet, desc, "")
			if err != nil {
				r.Failf("C03", "%v", err)
			}
			pend := map[string][]float64{}
			collect := func() {
				pts := pointsOf(rd.Produce(nil))
				if r.Keeping() {
					r.Logf("collected:\n%s", render(pts))
				}
				got := map[string]bool{}
				for _, pt := range pts {
					got[pt.Attrs] = true
					if pt.Agg != agg {
						r.Failf("C03", "aggregation %v", pt.Agg)
					}
					if w := valuesProblem(pt, pend[pt.Attrs], size); w != "" {
						r.Failf("C03", "point %v of the measurements %v (maximum size %d): %s", pt, pend[pt.Attrs], size, w)
					}
				}
				for k, v := range pend {
					if !got[k] && len(v) != 0 {
						r.Failf("C03", "measurements %v not reported", v)
					}
				}
				if delta {
					pend = map[string][]float64{}
				}
			}
			for i := 0; i < n; i++ {
				c := r.Choose(len(vals) + 1)
				if c == len(vals) {
					collect()
					continue
				}
				at := i % 2
				if !merge {
					at = 0
				}
				r.Logf("record %v", vals[c])
				h.rec(bg, vals[c], plainAttrs(at))
				s := attribute.NewSet(plainAttrs(at)...)
				if merge {
					s, _ = s.Filter(func(kv attribute.KeyValue) bool { return kv.Key == "k" })
				}
				pend[attrString(s)] = append(pend[attrString(s)], vals[c])
			}
			collect()
			if !delta {
				collect()
			}
		},
	})
}
