package main

import (
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

// C11: hints in descriptions.

var hintRaws = []*vhint{
	{raw: "{", bad: true},
	{raw: "counts {things}", bad: true},
	{raw: `{"aggregation":5,"temporality":"delta"}`, bad: true},
	{raw: `{"config":{"cardinality_limit":-1},"aggregation":"gauge"}`, bad: true},
	{raw: `{}`},
	{raw: `{"unknown":[1],"description":"hd"}`, desc: "hd"},
	{raw: ` {"aggregation":"gauge"} `, agg: "gauge"},
	{raw: `{"aggregation":"gauge"} trailing`, bad: true},
	{raw: `{"Aggregation":"GAUGE","DESCRIPTION":"hd"}`, agg: "gauge", desc: "hd"},
}

var hintAggs = []string{"", "drop", "sum", "monotonic_sum", "nonmonotonic_sum", "gauge", "histogram", "exponential_histogram", "MinMaxSumCount", "bogus"}
var hintTempos = []string{"", "delta", "Cumulative", "bogus"}
var hintSizes = []int32{0, 4, -1, 1, 99999}

func chooseHint(r *mc.R) *vhint {
	if k := r.Choose(len(hintRaws) + 1); k > 0 {
		return hintRaws[k-1]
	}
	h := &vhint{agg: hintAggs[r.Choose(len(hintAggs))], tempo: hintTempos[r.Choose(len(hintTempos))]}
	if r.ChooseBool() {
		h.desc = "hd"
	}
	h.size = hintSizes[r.Choose(len(hintSizes))]
	if r.ChooseBool() {
		h.limit = 2
	}
	if h.text() == "{}" {
		h.raw = "{}"
	}
	return h
}

var hintPairs = []*vhint{
	{agg: "sum"}, {agg: "gauge"}, {agg: "histogram"}, {agg: "histogram", size: 4}, {agg: "drop"},
	{tempo: "delta"}, {tempo: "cumulative"}, {agg: "minmaxsumcount", limit: 2},
	{desc: "short"}, {desc: "a longer one", tempo: "delta"}, {agg: "bogus", tempo: "delta"}, {raw: "{bad", bad: true}, nil,
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "hint-one", Props: []string{"C11"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			v := vdefaults(r.Choose(3))
			inst := vinst{name: "a", kind: allKinds[r.Choose(7)], float: r.ChooseBool()}
			inst.hint = chooseHint(r)
			np := 9
			if r.Thorough {
				np = len(vprops)
			}
			switch r.Choose(3) {
			case 1:
				v.clauses = append(v.clauses, vclause{&vmatches[r.Choose(2)*4], &vprops[r.Choose(np)]})
			case 2:
				v.clauses = append(v.clauses, vclause{&vmatches[0], &vprops[1]}, vclause{&vmatches[1], &vprops[r.Choose(3)]})
			}
			runViews(r, "C11", v, []vinst{inst}, false)
		},
	})
	mc.Register(&mc.Scenario{
		Name: "hint-two", Props: []string{"C11"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			v := vdefaults(r.Choose(3))
			if k := r.Choose(4); k > 0 {
				v.clauses = append(v.clauses, vclause{&vmatches[0], &vprops[k-1]})
			}
			kinds := []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncHistogram, sdkinstrument.AsyncCounter, sdkinstrument.SyncGauge, sdkinstrument.AsyncGauge}
			var insts []vinst
			for i := 0; i < 2; i++ {
				insts = append(insts, vinst{name: "a", kind: kinds[r.Choose(len(kinds))], hint: hintPairs[r.Choose(len(hintPairs))]})
			}
			if r.ChooseBool() {
				insts[1].name = "b"
			}
			runViews(r, "C11", v, insts, true)
		},
	})
}
