package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C05: series identity.

type ctxKey struct{}

// addingProcessor appends an attribute taken from the context, and removes
// key "z", without touching its input.
type addingProcessor struct{}

func (addingProcessor) Process(ctx context.Context, in []attribute.KeyValue) []attribute.KeyValue {
	var out []attribute.KeyValue
	for _, kv := range in {
		if kv.Key != "z" {
			out = append(out, kv)
		}
	}
	if v, ok := ctx.Value(ctxKey{}).(string); ok {
		out = append(out, attribute.String("a", v))
	}
	return out
}

const attrLimit = 4

func trunc(s string) string {
	if len(s) > attrLimit {
		return s[:attrLimit]
	}
	return s
}

// refTruncate is the reference for truncation.
func refTruncate(kvs []attribute.KeyValue) []attribute.KeyValue {
	var out []attribute.KeyValue
	for _, kv := range kvs {
		k := attribute.Key(trunc(string(kv.Key)))
		v := kv.Value
		switch v.Type() {
		case attribute.STRING:
			v = attribute.StringValue(trunc(v.AsString()))
		case attribute.STRINGSLICE:
			var l []string
			for _, s := range v.AsStringSlice() {
				l = append(l, trunc(s))
			}
			v = attribute.StringSliceValue(l)
		}
		out = append(out, attribute.KeyValue{Key: k, Value: v})
	}
	return out
}

// refDedup removes empty keys and keeps the last value of each key.
func refDedup(kvs []attribute.KeyValue) map[attribute.Key]attribute.Value {
	m := map[attribute.Key]attribute.Value{}
	for _, kv := range kvs {
		m[kv.Key] = kv.Value
	}
	delete(m, "")
	return m
}

// refKey renders a canonical identity, keeping only keys in only (nil: all).
func refKey(m map[attribute.Key]attribute.Value, only map[attribute.Key]bool) string {
	var kvs []attribute.KeyValue
	for k, v := range m {
		if only == nil || only[k] {
			kvs = append(kvs, attribute.KeyValue{Key: k, Value: v})
		}
	}
	return attrString(attribute.NewSet(kvs...))
}

var attrAlphabet = []attribute.KeyValue{
	attribute.Int("a", 1),
	attribute.String("a", "1"),
	attribute.IntSlice("a", []int{1, 2}),
	attribute.IntSlice("a", []int{2, 1}),
	attribute.Int("b", 1),
	attribute.String("", "e"),
	attribute.String("aaaaab", "longvalue1"),
	attribute.String("aaaa", "longvalue2"),
	attribute.StringSlice("b", []string{"longer1", "x"}),
	attribute.StringSlice("b", []string{"longer2", "x"}),
	attribute.Bool("a", true),
	attribute.Float64("a", 1),
	attribute.Int("z", 3),
	attribute.Float64Slice("a", []float64{1, 2}),
	attribute.BoolSlice("b", []bool{true, false}),
	attribute.Int("c", 1),
}

// collideAlphabet holds attributes with few fingerprints among them, since
// fingerprints add up and do not include types.
var collideAlphabet = []attribute.KeyValue{
	attribute.Int("a", 0),
	attribute.Bool("a", false),
	attribute.IntSlice("a", []int{}),
	attribute.BoolSlice("a", []bool{}),
	attribute.StringSlice("a", []string{}),
	attribute.Float64Slice("a", []float64{}),
	attribute.Float64("a", 0),
	attribute.IntSlice("a", []int{0}),
	{Key: "a"},
	attribute.BoolSlice("a", []bool{false, false}),
	attribute.Float64Slice("a", []float64{0}),
	attribute.Int("a", 1),
	attribute.Bool("a", true),
	attribute.IntSlice("a", []int{1}),
	attribute.IntSlice("a", []int{0, 1}),
	attribute.IntSlice("a", []int{1, 0}),
	attribute.BoolSlice("a", []bool{true}),
	attribute.BoolSlice("a", []bool{false, true}),
	attribute.StringSlice("a", []string{"x", "y"}),
	attribute.StringSlice("a", []string{"y", "x"}),
	attribute.Int("b", 0),
	attribute.Bool("b", false),
	attribute.IntSlice("b", nil),
}

func chooseList(r *mc.R, max int, alpha []attribute.KeyValue) []attribute.KeyValue {
	n := r.Choose(max + 1)
	l := make([]attribute.KeyValue, 0, n+1)
	for i := 0; i < n; i++ {
		l = append(l, alpha[r.Choose(len(alpha))])
	}
	return l
}

func same(a, b []attribute.KeyValue) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func attrsBody(r *mc.R, max int, alpha []attribute.KeyValue, async bool) {
	perf := sdkinstrument.Performance{AttributeSizeLimit: attrLimit, InactiveCollectionPeriods: 1}
	proc := false
	path := pathOpts
	if !async {
		path = r.Choose(3)
		proc = r.ChooseBool()
		if proc {
			perf.MeasurementProcessor = addingProcessor{}
		}
	}
	if !async {
		perf.IgnoreCollisions = r.ChooseBool()
	}
	mutate := r.ChooseBool()
	delta := r.ChooseBool()
	lists := [][]attribute.KeyValue{chooseList(r, max, alpha), chooseList(r, max, alpha)}

	rds := []*metric.ManualReader{metric.NewManualReader("all"), metric.NewManualReader("keys"), metric.NewManualReader("none")}
	only := []map[attribute.Key]bool{nil, {"a": true, "aaaa": true}, {}}
	p := newProvider(perf,
		metric.WithReader(rds[0], tempoOpt(delta)),
		metric.WithReader(rds[1], tempoOpt(delta), view.WithClause(view.WithKeys([]attribute.Key{"a", "aaaa"}))),
		metric.WithReader(rds[2], tempoOpt(delta), view.WithClause(view.WithKeys([]attribute.Key{}))))
	m := p.Meter("m")

	var want [3]map[string]float64
	for i := range want {
		want[i] = map[string]float64{}
	}
	// When ignoring collisions both may land in the first one's series.
	var merged [3]map[string]float64
	kept := make([][]attribute.KeyValue, 2)
	id := func(i int) map[attribute.Key]attribute.Value {
		kvs := append([]attribute.KeyValue(nil), kept[i]...)
		if path != pathKV {
			// The API builds a set first.
			cp := append([]attribute.KeyValue(nil), kvs...)
			s := attribute.NewSet(cp...)
			kvs = s.ToSlice()
		}
		kvs = refTruncate(kvs)
		if proc {
			ctx := bg
			if i == 1 {
				ctx = context.WithValue(bg, ctxKey{}, "1")
			}
			kvs = addingProcessor{}.Process(ctx, kvs)
		}
		return refDedup(kvs)
	}
	for i := range lists {
		kept[i] = append([]attribute.KeyValue(nil), lists[i]...)
	}
	touch := func(i int) {
		if !same(lists[i], kept[i]) {
			r.Failf("C05", "the caller's attributes %v were changed to %v", kept[i], lists[i])
		}
		if mutate {
			for j := range lists[i] {
				lists[i][j] = attribute.Int("q", 9)
			}
		}
	}

	if async {
		c, _ := mkInst(m, "i", sdkinstrument.AsyncUpDownCounter, false, path, "", "")
		_, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			for i := range lists {
				copy(lists[i], kept[i])
				c.observe(o, []float64{1, 4}[i], lists[i])
				touch(i)
			}
			return nil
		}, c.obs)
		if err != nil {
			r.Failf("C05", "%v", err)
		}
		// The last value observed for a set counts, so a repeated set
		// reports 4 only; sets merged by a view add up.
		ids := []map[attribute.Key]attribute.Value{id(0), id(1)}
		for rd := range want {
			for i := range ids {
				if i == 0 && fullKey(kept[0]) == fullKey(kept[1]) {
					continue
				}
				want[rd][refKey(ids[i], only[rd])] += []float64{1, 4}[i]
			}
		}
	} else {
		c, _ := mkInst(m, "i", sdkinstrument.SyncUpDownCounter, false, path, "", "")
		for i := range lists {
			ctx := bg
			if i == 1 {
				ctx = context.WithValue(bg, ctxKey{}, "1")
			}
			c.rec(ctx, []float64{1, 4}[i], lists[i])
			touch(i)
			for rd := range want {
				want[rd][refKey(id(i), only[rd])] += []float64{1, 4}[i]
				if perf.IgnoreCollisions {
					merged[rd] = map[string]float64{refKey(id(0), only[rd]): 5}
				}
			}
		}
	}
	if r.Keeping() {
		r.Logf("path %d processor %v mutate %v delta %v: %v then %v", path, proc, mutate, delta, kept[0], kept[1])
	}
	for rd := range rds {
		got := map[string]float64{}
		for _, pt := range pointsOf(rds[rd].Produce(nil)) {
			if _, dup := got[pt.Attrs]; dup {
				r.Failf("C05", "reader %d reports series {%s} twice", rd, pt.Attrs)
			}
			got[pt.Attrs] = pt.Val
		}
		if fmt.Sprint(got) != fmt.Sprint(want[rd]) && (merged[rd] == nil || fmt.Sprint(got) != fmt.Sprint(merged[rd])) {
			r.Failf("C05", "attributes %v then %v: reader %d reports %v, want %v", kept[0], kept[1], rd, got, want[rd])
		}
	}
}

// fullKey is the identity within an asynchronous collection: truncated set.
func fullKey(kvs []attribute.KeyValue) string {
	cp := append([]attribute.KeyValue(nil), kvs...)
	s := attribute.NewSet(cp...)
	return attrString(attribute.NewSet(refTruncate(s.ToSlice())...))
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "attrs-seq", Props: []string{"C05"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			if r.Thorough {
				attrsBody(r, 2, attrAlphabet, false)
			} else {
				attrsBody(r, 2, attrAlphabet[:10], false)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "attrs-types", Props: []string{"C05"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) { attrsBody(r, 1, attrAlphabet, false) },
	})
	mc.Register(&mc.Scenario{
		Name: "attrs-collide", Props: []string{"C05"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			if r.Thorough && r.ChooseBool() {
				a := append([]attribute.KeyValue(nil), collideAlphabet[:4]...)
				attrsBody(r, 2, append(a, collideAlphabet[20:]...), false)
			} else {
				attrsBody(r, 1, collideAlphabet, false)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "attrs-async", Props: []string{"C05"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			if r.Thorough {
				attrsBody(r, 2, attrAlphabet, true)
			} else {
				attrsBody(r, 2, attrAlphabet[:10], true)
			}
		},
	})
}

// collideRounds: attribute sets with equal fingerprints (permutations of an
// int slice; the oracle does not depend on it) come, go idle, leave memory and
// come back, in every combination over a number of rounds, with a limit that
// has room for exactly these.
func collideRounds(r *mc.R, n int) {
	vals := [][]int64{{1, 2, 3}, {2, 3, 1}, {3, 1, 2}}
	limited := r.ChooseBool()
	delta := r.ChooseBool()
	shared := r.ChooseBool() // the caller passes the same slice, refilled
	reverse := false
	if r.Thorough {
		reverse = r.ChooseBool()
	}
	perf := sdkinstrument.Performance{InactiveCollectionPeriods: 1}
	if limited {
		perf.InstrumentCardinalityLimit = 4
		perf.AggregatorCardinalityLimit = 4
	}
	rd := metric.NewManualReader("r")
	mp := newProvider(perf, metric.WithReader(rd, tempoOpt(delta)))
	c, _ := mkInst(mp.Meter("m"), "i", sdkinstrument.SyncUpDownCounter, false, pathKV, "", "")
	total := map[string]float64{}
	buf := make([]attribute.KeyValue, 1)
	hist := ""
	for round := 0; round < n+2; round++ {
		set := 7
		if round < n {
			set = r.Choose(8)
		}
		hist += fmt.Sprint(" ", set)
		want := map[string]float64{}
		for k := 0; k < 3; k++ {
			i := k
			if reverse {
				i = 2 - k
			}
			if set&(1<<i) == 0 {
				continue
			}
			kv := attribute.Int64Slice("k", vals[i])
			val := float64(int64(1) << (3*round + i))
			if shared {
				buf[0] = kv
				c.rec(bg, val, buf)
			} else {
				c.rec(bg, val, []attribute.KeyValue{kv})
			}
			key := attrString(attribute.NewSet(kv))
			want[key] += val
			total[key] += val
		}
		if !delta {
			want = total
		}
		got := map[string]float64{}
		for _, pt := range pointsOf(rd.Produce(nil)) {
			got[pt.Attrs] += pt.Val
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.Failf(r.Prop(), "rounds%s (limited %v delta %v shared %v reverse %v): reported %v, want %v", hist, limited, delta, shared, reverse, got, want)
		}
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "collide-rounds", Props: []string{"C05", "C06"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			n := 4
			if r.Thorough {
				n = 5
			}
			collideRounds(r, n)
		},
	})
}

// ignoreTable holds attribute lists that any fingerprint tells apart: no twins
// of different type, no permutations, no zeros.
func ignoreTable() [][]attribute.KeyValue {
	var out [][]attribute.KeyValue
	one := func(kvs ...attribute.KeyValue) { out = append(out, kvs) }
	one()
	for _, k := range []string{"a", "b", "ab", "key"} {
		for i := 0; i < 4; i++ {
			one(attribute.Int(k, 1000+7*i))
			one(attribute.Int(k, -33-i))
			one(attribute.Float64(k, 0.37+float64(i)))
			one(attribute.String(k, fmt.Sprint("value", i)))
			one(attribute.String(k, strings.Repeat("v", 5+8*i)))
			one(attribute.IntSlice(k, []int{i + 50, 1234}))
			one(attribute.Float64Slice(k, []float64{1.75 + float64(i), 3.5, 8.25}))
			one(attribute.StringSlice(k, []string{"one", fmt.Sprint("two", i)}))
		}
		one(attribute.Bool(k, true))
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			x, y := 500+i, 700+j
			one(attribute.Int("a", x), attribute.Int("b", y))
			one(attribute.Int("a", y), attribute.Int("b", x))
			one(attribute.String("a", fmt.Sprint("v", x)), attribute.Int("b", y), attribute.Bool("c", true))
			one(attribute.String("a", fmt.Sprint("v", y)), attribute.Int("b", x), attribute.Bool("c", true))
			one(attribute.String("first", "same"), attribute.String("second", "same"), attribute.Int("z", 10*x+j))
		}
	}
	return out
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "attrs-ignore", Props: []string{"C05"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			// Ignoring collisions merges nothing that does not collide.
			tab := ignoreTable()
			path := r.Choose(3)
			ignore := r.ChooseBool()
			first := r.Choose(len(tab))
			rd := metric.NewManualReader("rd")
			p := newProvider(sdkinstrument.Performance{IgnoreCollisions: ignore}, metric.WithReader(rd))
			c, _ := mkInst(p.Meter("m"), "i", sdkinstrument.SyncUpDownCounter, false, path, "", "")
			want := map[string]float64{}
			for round := 0; round < 2; round++ {
				for i := range tab {
					l := tab[(first+i)%len(tab)]
					v := float64(1 + (first+i)%len(tab))
					c.rec(bg, v, append([]attribute.KeyValue(nil), l...))
					want[attrString(attribute.NewSet(append([]attribute.KeyValue(nil), l...)...))] += v
				}
				got := map[string]float64{}
				for _, pt := range pointsOf(rd.Produce(nil)) {
					got[pt.Attrs] += pt.Val
				}
				r.Logf("path %d ignore %v from %d: %d series of %d", path, ignore, first, len(got), len(tab))
				if len(want) != len(tab) {
					panic("table repeats a set")
				}
				for k, v := range want {
					if got[k] != v {
						r.Failf("C05", "path %d ignoring collisions %v round %d: series {%s} is %v, want %v; %d series of %d", path, ignore, round, k, got[k], v, len(got), len(want))
						return
					}
				}
				if len(got) != len(want) {
					r.Failf("C05", "%d series, want %d", len(got), len(want))
				}
			}
		},
	})
}
