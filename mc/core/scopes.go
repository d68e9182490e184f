package main

import (
	"fmt"
	"sort"
	"strings"

	histostruct "github.com/lightstep/go-expohisto/structure"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

// Clauses that tell scopes apart by name, version and schema, with the same
// instruments in several scopes, which have nothing to do with each other.

var libTable = []instrumentation.Scope{
	{Name: "m"},
	{Name: "m", Version: "1"},
	{Name: "m", Version: "2"},
	{Name: "m", SchemaURL: "s"},
	{Name: "m", Version: "1", SchemaURL: "s"},
	{Name: "n", Version: "1"},
	{Name: "n", Version: "1", SchemaURL: "t"},
	{Name: "m1"}, // as long as name and version of another
}

var libPatterns = []instrumentation.Scope{
	{},
	{Name: "m"},
	{Version: "1"},
	{SchemaURL: "s"},
	{Name: "m", Version: "1"},
	{Name: "m", Version: "2"},
	{Name: "n", SchemaURL: "t"},
	{Name: "m1"},
	{Version: "1", SchemaURL: "s"},
	{Name: "m", Version: "1", SchemaURL: "t"},
}

func libMatches(p, s instrumentation.Scope) bool {
	return (p.Name == "" || p.Name == s.Name) && (p.Version == "" || p.Version == s.Version) && (p.SchemaURL == "" || p.SchemaURL == s.SchemaURL)
}

func libText(s instrumentation.Scope) string {
	return s.Name + "/" + s.Version + "/" + s.SchemaURL
}

func viewsScopes(r *mc.R) {
	nr := 1 + r.Choose(2)
	names := []string{"z1", "z2"}
	var clauses [][]int
	var rds []*metric.ManualReader
	var opts []metric.Option
	for i := 0; i < nr; i++ {
		var cs []int
		var vo []view.Option
		n := 2
		if i > 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			np := len(libPatterns)
			if i > 0 && !r.Thorough {
				np = 3
			}
			p := r.Choose(np)
			cs = append(cs, p)
			vo = append(vo, view.WithClause(view.MatchInstrumentationLibrary(libPatterns[p]), view.MatchInstrumentName("c"), view.WithName(names[k])))
		}
		rd := metric.NewManualReader(fmt.Sprint("r", i))
		rds, opts, clauses = append(rds, rd), append(opts, metric.WithReader(rd, vo...)), append(clauses, cs)
	}
	p := newProvider(sdkinstrument.Performance{}, opts...)
	sameKind := r.ChooseBool()
	kinds := []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncHistogram}
	want := make([]map[string]float64, nr)
	for i := range want {
		want[i] = map[string]float64{}
	}
	first := map[string]int{}
	for k := 0; k < 3; k++ {
		s := libTable[r.Choose(len(libTable))]
		var mo []apimetric.MeterOption
		if s.Version != "" {
			mo = append(mo, apimetric.WithInstrumentationVersion(s.Version))
		}
		if s.SchemaURL != "" {
			mo = append(mo, apimetric.WithSchemaURL(s.SchemaURL))
		}
		m := p.Meter(s.Name, mo...)
		if _, ok := first[libText(s)]; !ok {
			first[libText(s)] = k
		}
		kind := kinds[0]
		if !sameKind {
			kind = kinds[first[libText(s)]]
		}
		v := float64(int(1) << (2 * k))
		for _, name := range []string{"c", "d"} {
			c, err := mkInst(m, name, kind, false, pathOpts, "", "")
			if err != nil {
				r.Failf("C10", "creating %q in scope %s: %v", name, libText(s), err)
				return
			}
			c.rec(bg, v, plainAttrs(0))
			for i, cs := range clauses {
				any := false
				for n, pat := range cs {
					if name == "c" && libMatches(libPatterns[pat], s) {
						want[i][libText(s)+" "+names[n]] += v
						any = true
					}
				}
				if !any {
					want[i][libText(s)+" "+name] += v
				}
			}
			v *= 64
		}
	}
	show := func(m map[string]float64) string {
		var l []string
		for k, v := range m {
			l = append(l, fmt.Sprint(k, "=", v))
		}
		sort.Strings(l)
		return strings.Join(l, ", ")
	}
	for i, rd := range rds {
		got := map[string]float64{}
		out := rd.Produce(nil)
		for a := range out.Scopes {
			sc := &out.Scopes[a]
			for b := range sc.Instruments {
				in := &sc.Instruments[b]
				for c := range in.Points {
					k := libText(sc.Library) + " " + in.Descriptor.Name
					if _, ok := got[k]; ok {
						r.Failf("C10", "reader %d: two points for %s", i, k)
					}
					got[k] = pointOf(sc.Library.Name, in.Descriptor, &in.Points[c]).Val
				}
			}
		}
		if g, w := show(got), show(want[i]); g != w {
			r.Failf("C10", "reader %d with clauses for scopes %v: outputs %s, want %s", i, clauses[i], g, w)
		}
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "views-scopes", Props: []string{"C10", "C14"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Doc: "the same instruments in three scopes (name, version, schema) with clauses that match some of them", Body: viewsScopes,
	})
}

// viewsDefaults: the reader's defaults for a kind, valid or not, with other
// ones for all other kinds and for the other kind of number.
func viewsDefaults(r *mc.R) {
	aggs := []aggregation.Kind{aggregation.Kind(99), aggregation.UndefinedKind, aggregation.DropKind, aggregation.AnySumKind, aggregation.MonotonicSumKind,
		aggregation.NonMonotonicSumKind, aggregation.HistogramKind, aggregation.MinMaxSumCountKind, aggregation.GaugeKind}
	tempos := []aggregation.Temporality{aggregation.UndefinedTemporality, aggregation.CumulativeTemporality, aggregation.DeltaTemporality, aggregation.Temporality(99)}
	cfgs := []struct {
		limit, wantLimit uint32
		size, wantSize   int32
	}{{0, perfLimit, 0, 160}, {2, 2, 4, 4}, {0, perfLimit, 1, 2}, {3, 3, 20000, 16384}, {3, 3, 0, 160}, {0, perfLimit, 7, 7}}
	kind, float := allKinds[r.Choose(len(allKinds))], r.ChooseBool()
	agg, tempo, cfg := aggs[r.Choose(len(aggs))], tempos[r.Choose(len(tempos))], cfgs[r.Choose(len(cfgs))]
	v := vreader{
		tempo: func(sdkinstrument.Kind) aggregation.Temporality { return tempo },
		agg:   func(sdkinstrument.Kind) aggregation.Kind { return agg },
		limit: cfg.wantLimit, size: cfg.wantSize,
		bad: cfg.size != 0 && cfg.size != cfg.wantSize,
	}
	if !agg.Valid() {
		v.bad, v.agg = true, refStandard
	}
	if !tempo.Valid() {
		v.bad = true
	}
	v.raw = []view.Option{
		view.WithDefaultAggregationKindSelector(func(k sdkinstrument.Kind) aggregation.Kind {
			if k == kind {
				return agg
			}
			return aggregation.MinMaxSumCountKind
		}),
		view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality {
			if k == kind {
				return tempo
			}
			return aggregation.DeltaTemporality
		}),
		view.WithDefaultAggregationConfigSelector(func(k sdkinstrument.Kind) (aggregator.Config, aggregator.Config) {
			own := aggregator.Config{CardinalityLimit: cfg.limit}
			if cfg.size != 0 {
				own.Histogram = histostruct.NewConfig(histostruct.WithMaxSize(cfg.size))
			}
			other := aggregator.Config{Histogram: histostruct.NewConfig(histostruct.WithMaxSize(9)), CardinalityLimit: 8}
			if k != kind {
				return other, other
			}
			if float {
				return other, own
			}
			return own, other
		}),
	}
	switch r.Choose(3) {
	case 1:
		v.clauses = append(v.clauses, vclause{&vmatches[1], &vprops[1]})
	case 2:
		v.clauses = append(v.clauses, vclause{&vmatches[0], &vprops[5]})
	}
	runViews(r, "C10", v, []vinst{{name: "a", kind: kind, float: float, desc: "d"}}, r.ChooseBool())
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "views-defaults", Props: []string{"C10"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Doc: "a reader's defaults per kind of instrument and number, valid and invalid", Body: viewsDefaults,
	})
}
