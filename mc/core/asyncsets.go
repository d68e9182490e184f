package main

import (
	"context"
	"fmt"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// setVariants are attribute lists with the series they belong to, when no
// key or value is longer than four.
var setVariants = []struct {
	kvs    []attribute.KeyValue
	series string
}{
	{[]attribute.KeyValue{attribute.String("k", "abcd1")}, "k=STRING:abcd;"},
	{[]attribute.KeyValue{attribute.String("k", "abcd2")}, "k=STRING:abcd;"},
	{[]attribute.KeyValue{attribute.Int("a", 1), attribute.String("k", "ab")}, "a=INT64:1;k=STRING:ab;"},
	{[]attribute.KeyValue{attribute.String("k", "ab"), attribute.Int("a", 1)}, "a=INT64:1;k=STRING:ab;"},
	{[]attribute.KeyValue{attribute.String("a", "1"), attribute.String("k", "ab")}, "a=STRING:1;k=STRING:ab;"},
	{[]attribute.KeyValue{attribute.Int("a", 2), attribute.String("k", "ab"), attribute.Int("a", 1)}, "a=INT64:1;k=STRING:ab;"},
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "async-sets", Props: []string{"C08"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Doc: "two observations in each of two collections, of attribute sets that are the same series or not for various reasons, with values that repeat",
		Body: func(r *mc.R) {
			kinds := asyncKinds[1:]
			if r.Thorough {
				kinds = asyncKinds
			}
			kind := kinds[r.Choose(len(kinds))]
			delta := r.ChooseBool()
			rd := metric.NewManualReader("rd")
			p := newProvider(sdkinstrument.Performance{AttributeSizeLimit: 4}, metric.WithReader(rd, tempoOpt(delta)))
			m := p.Meter("m")
			c, err := mkInst(m, "i", kind, false, 0, "", "")
			if err != nil {
				r.Failf("C08", "%v", err)
			}
			type ob struct {
				variant int
				val     float64
			}
			var script []ob
			if _, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				for _, x := range script {
					c.observe(o, x.val, setVariants[x.variant].kvs)
				}
				return nil
			}, c.obs); err != nil {
				r.Failf("C08", "%v", err)
			}
			diffs := delta && kind != sdkinstrument.AsyncGauge
			prior := map[string]float64{}
			for round := 0; round < 2; round++ {
				script = nil
				for len(script) < 2 {
					script = append(script, ob{r.Choose(len(setVariants)), []float64{3, 5}[r.Choose(2)]})
				}
				seen := map[string]float64{}
				for _, x := range script {
					seen[setVariants[x.variant].series] = x.val
				}
				want := map[string]float64{}
				for k, v := range seen {
					if diffs {
						if was, ok := prior[k]; ok && was == v {
							continue
						}
						v -= prior[k]
					}
					want[k] = v
				}
				prior = seen
				pts := pointsOf(rd.Produce(nil))
				r.Logf("observes %v, reports:\n%s", script, render(pts))
				got := map[string]float64{}
				for _, pt := range pts {
					if _, twice := got[pt.Attrs]; twice {
						r.Failf("C08", "series {%s} is reported twice", pt.Attrs)
					}
					got[pt.Attrs] = pt.Val
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					r.Failf("C08", "%v delta %v: observed %v, reports %v, want %v", kind, delta, script, got, want)
				}
			}
		},
	})
}
