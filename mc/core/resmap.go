package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/resource"
)

// C15 and C24: exports at the same time share the converted resource.

func resText(m pcommon.Map) string {
	var l []string
	m.Range(func(k string, v pcommon.Value) bool {
		l = append(l, fmt.Sprintf("%s=%s", k, v.AsString()))
		return true
	})
	sort.Strings(l)
	return strings.Join(l, ",")
}

func init() {
	kvs := [][]attribute.KeyValue{
		{attribute.String("a", "1"), attribute.Int("b", 2)},
		{attribute.String("a", "2")},
		{},
	}
	want := []string{"a=1,b=2", "a=2", ""}
	mc.Register(&mc.Scenario{
		Name: "resource-conc", Props: []string{"C15", "C24"}, Bound: [2]int{2, 3}, Race: [2]int{1, 2}, MapOffs: []uint64{0},
		Doc: "two (three) exporters' threads of two exports each, every assignment of equal and different resources: each export gets the attributes of its own",
		Body: func(r *mc.R) {
			var rm internal.ResourceMap
			var in []*resource.Resource
			for _, kv := range kvs {
				in = append(in, resource.NewSchemaless(kv...))
			}
			prop := r.Prop()
			n := 2
			if r.Thorough && prop != "C24" {
				n = 3
			}
			// Got by the threads, judged afterwards: no synchronization of ours.
			which := make([][2]int, n)
			got := make([][2]string, n)
			var fs []func()
			for i := range which {
				which[i] = [2]int{r.Choose(len(in)), r.Choose(len(in))}
				fs = append(fs, func() {
					for j, k := range which[i] {
						out := pcommon.NewResource()
						rm.Get(in[k]).CopyTo(out)
						got[i][j] = resText(out.Attributes())
					}
				})
			}
			r.Par(fs...)
			for i := range which {
				for j, k := range which[i] {
					if got[i][j] != want[k] {
						r.Failf(prop, "resources by thread %v: export %d of thread %d got attributes {%s}, want {%s}", which, j, i, got[i][j], want[k])
						return
					}
				}
			}
		},
	})
}
