package main

import (
	"context"
	"errors"
	"math"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C22: which values are accepted.

var oddFloats = []float64{1, math.NaN(), math.Inf(1), -1, 0, math.Inf(-1), -5e-324, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.Copysign(0, -1), 2.5}
var oddInts = []float64{1, -1, 0, math.MinInt64, 1 << 62, -7, 5}

// refReject says which error a value deserves.
func refReject(k sdkinstrument.Kind, v float64) error {
	switch {
	case math.IsInf(v, 0):
		return aggregator.ErrInfInput
	case math.IsNaN(v):
		return aggregator.ErrNaNInput
	case v < 0 && (k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram):
		return aggregator.ErrNegativeInput
	}
	return nil
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "odd-values", Props: []string{"C22"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			kind := allKinds[r.Choose(7)]
			float := r.ChooseBool()
			path := 0
			if hasKV(kind) {
				path = r.Choose(3)
			} else if kind.Synchronous() {
				path = r.Choose(2)
			}
			delta := r.ChooseBool()
			vals := oddInts
			if float {
				vals = oddFloats
			}
			n := 3
			if r.Thorough {
				n = 4
			}
			rd := metric.NewManualReader("rd")
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(delta)))
			m := p.Meter("m")
			c, err := mkInst(m, "i", kind, float, path, "", "")
			if err != nil {
				r.Failf("C22", "%v", err)
			}
			type op struct {
				v  float64
				at int
			}
			var ops []op
			for i := 0; i < n; i++ {
				ops = append(ops, op{vals[r.Choose(len(vals))], r.Choose(2)})
			}
			r.Logf("%v float %v path %d delta %v: %v", kind, float, path, delta, ops)
			sink.take()
			acc := map[string][]float64{}
			want := map[error]bool{}
			for _, o := range ops {
				if e := refReject(kind, o.v); e != nil {
					want[e] = true
					continue
				}
				s := attribute.NewSet(plainAttrs(o.at)...)
				acc[attrString(s)] = append(acc[attrString(s)], o.v)
			}
			if c.rec != nil {
				for _, o := range ops {
					c.rec(bg, o.v, plainAttrs(o.at))
				}
			} else {
				_, _ = m.RegisterCallback(func(_ context.Context, ob apimetric.Observer) error {
					for _, o := range ops {
						c.observe(ob, o.v, plainAttrs(o.at))
					}
					return nil
				}, c.obs)
			}
			pts := pointsOf(rd.Produce(nil))
			got := map[error]bool{}
			for _, e := range sink.take() {
				known := false
				for _, x := range []error{aggregator.ErrInfInput, aggregator.ErrNaNInput, aggregator.ErrNegativeInput} {
					if errors.Is(e, x) {
						got[x] = true
						known = true
					}
				}
				if !known {
					r.Failf("C22", "unexpected error report: %v", e)
				}
			}
			for e := range want {
				if !got[e] {
					r.Failf("C22", "the rejected value was not reported: %v", e)
				}
			}
			for e := range got {
				if !want[e] {
					r.Failf("C22", "reported %v without such a value", e)
				}
			}
			if r.Keeping() {
				r.Logf("collected:\n%s", render(pts))
			}
			seen := map[string]bool{}
			for _, pt := range pts {
				seen[pt.Attrs] = true
				vs := acc[pt.Attrs]
				if len(vs) == 0 {
					r.Failf("C22", "a series that got no valid value is reported: %v", pt)
					continue
				}
				switch kind {
				case sdkinstrument.SyncHistogram:
					if !float && hasBig(vs) {
						continue // the sum may wrap around
					}
					if w := valuesProblem(pt, vs, 160); w != "" {
						r.Failf("C22", "point %v of the valid values %v: %s", pt, vs, w)
					}
				case sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter:
					var sum, abs float64
					var isum int64
					for _, v := range vs {
						sum += v
						abs += math.Abs(v)
						isum += int64(v)
					}
					if float && !near(pt.Val, sum, abs) && !math.IsInf(abs, 0) {
						r.Failf("C22", "point %v of the valid values %v", pt, vs)
					}
					if !float && pt.Val != float64(isum) {
						r.Failf("C22", "point %v of the valid values %v", pt, vs)
					}
				default:
					if pt.Val != vs[len(vs)-1] {
						r.Failf("C22", "point %v of the valid values %v", pt, vs)
					}
				}
			}
			for k, vs := range acc {
				if seen[k] {
					continue
				}
				// A delta sum of zero need not be reported.
				zero := true
				for _, v := range vs {
					zero = zero && v == 0
				}
				var sum float64
				var isum int64
				for _, v := range vs {
					sum += v
					isum += int64(v)
				}
				if !float {
					sum = float64(isum)
				}
				if delta && (kind == sdkinstrument.SyncCounter || kind == sdkinstrument.SyncUpDownCounter) && (zero || sum == 0) {
					continue
				}
				r.Failf("C22", "the valid values %v of series {%s} are not reported", vs, k)
			}
		},
	})
}

func hasBig(vs []float64) bool {
	for _, v := range vs {
		if math.Abs(v) > 1e15 {
			return true
		}
	}
	return false
}
