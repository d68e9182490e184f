package main

import (
	"context"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C12: two instruments that are output under one name.

func sharedBody(r *mc.R) {
	sel := r.Choose(3)
	selector := []view.Option{tempoOpt(false), tempoOpt(true), view.WithDefaultAggregationTemporalitySelector(view.DeltaPreferredTemporality)}[sel]
	rename := r.ChooseBool()
	opts := []view.Option{selector}
	names := [2]string{"z", "z"}
	if rename {
		names = [2]string{"a", "b"}
		opts = append(opts, view.WithClause(view.MatchInstrumentName("a"), view.WithName("z")), view.WithClause(view.MatchInstrumentName("b"), view.WithName("z")))
	}
	rd := metric.NewManualReader("rd")
	p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, opts...))
	m := p.Meter("m")
	var want [2]aggregation.Temporality
	var insts [2]kinst
	for i := range insts {
		k := allKinds[r.Choose(len(allKinds))]
		hint := []string{"", `{"temporality":"delta"}`, `{"temporality":"cumulative"}`}[r.Choose(3)]
		switch {
		case k == sdkinstrument.AsyncGauge:
			want[i] = aggregation.CumulativeTemporality
		case hint != "":
			if hint == `{"temporality":"cumulative"}` {
				want[i] = aggregation.CumulativeTemporality
			} else {
				want[i] = aggregation.DeltaTemporality
			}
		case sel == 0:
			want[i] = aggregation.CumulativeTemporality
		case sel == 1:
			want[i] = aggregation.DeltaTemporality
		default:
			want[i] = view.DeltaPreferredTemporality(k)
		}
		// A conflict is reported, the instrument works nevertheless.
		insts[i], _ = mkInst(m, names[i], k, false, pathOpts, hint, "")
		r.Logf("instrument %d: %v hint %q", i, k, hint)
	}
	sink.take()
	round := 0
	attr := func(i int) []attribute.KeyValue { return []attribute.KeyValue{attribute.Int("i", i)} }
	for i := range insts {
		i := i
		if insts[i].kind.Synchronous() {
			continue
		}
		if _, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			insts[i].observe(o, float64(round), attr(i))
			return nil
		}, insts[i].obs); err != nil {
			r.Failf("C12", "%v", err)
		}
	}
	var start, end time.Time
	for round = 1; round <= 3; round++ {
		for i := range insts {
			if insts[i].kind.Synchronous() {
				insts[i].rec(bg, 1, attr(i))
			}
		}
		pts := pointsOf(rd.Produce(nil))
		var ends time.Time
		for i := range insts {
			n := 0
			for _, pt := range pts {
				if pt.Attrs != attrString(attribute.NewSet(attr(i)...)) {
					continue
				}
				n++
				if pt.Tempo != want[i] {
					r.Failf("C12", "collection %d: instrument %d is reported as %v, want %v", round, i, pt.Tempo, want[i])
				}
				if start.IsZero() && round == 1 {
					start = pt.Start
				}
				from := start
				if want[i] == aggregation.DeltaTemporality && round > 1 {
					from = end
				}
				if !pt.Start.Equal(from) {
					r.Failf("C12", "collection %d: instrument %d (%v): starts at %v, want %v", round, i, want[i], pt.Start, from)
				}
				if ends.IsZero() {
					ends = pt.End
				}
				if !pt.End.Equal(ends) || pt.End.Before(pt.Start) {
					r.Failf("C12", "collection %d: instrument %d: ends at %v, others at %v, start %v", round, i, pt.End, ends, pt.Start)
				}
			}
			if n != 1 {
				r.Failf("C12", "collection %d: %d points of instrument %d:\n%s", round, n, i, render(pts))
			}
		}
		end = ends
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "times-shared", Props: []string{"C12"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Doc:  "two instruments of any kind and temporality output under one name",
		Body: sharedBody,
	})
}
