package main

import (
	"context"
	"errors"
	"fmt"
	"sync"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/metric/noop"
)

// C08: what asynchronous instruments report.

type observation struct {
	cb, attr int
	val      float64
}

// asyncScripts are what the callbacks observe in one collection: callback 0
// runs before callback 1.
var asyncScripts = [][]observation{
	{{0, 0, 1}},
	{{0, 0, 4}},
	{{0, 0, 1}, {0, 1, 2}},
	{},
	{{0, 1, 7}},
	{{0, 0, 5}, {0, 0, 3}},
	{{0, 0, 0}},
	{{0, 0, 2}, {1, 0, 6}},
	{{1, 1, 9}, {0, 0, 4}},
	{{0, 0, -3}, {0, 1, 3}},
}

type asyncReader struct {
	delta, merge bool
	// last is the last observed cumulative value per output series, and
	// prev the one of the immediately preceding collection.
	last, prev map[string]float64
}

// expect computes the points of one collection: key to allowed values; known
// holds what the recorded finding produces instead.
func (a *asyncReader) expect(kind sdkinstrument.Kind, script []observation) (want map[string][]float64, known map[string]float64) {
	cur := map[int]float64{}
	for cb := 0; cb < 2; cb++ {
		for _, o := range script {
			if o.cb == cb {
				cur[o.attr] = o.val
			}
		}
	}
	key := func(at int) string {
		s := attribute.NewSet(plainAttrs(at)...)
		if a.merge {
			s, _ = s.Filter(func(kv attribute.KeyValue) bool { return kv.Key == "k" })
		}
		return attrString(s)
	}
	want, known = map[string][]float64{}, map[string]float64{}
	if kind == sdkinstrument.AsyncGauge {
		for at, v := range cur {
			want[key(at)] = append(want[key(at)], v)
		}
		return
	}
	sum := map[string]float64{}
	for at, v := range cur {
		sum[key(at)] += v
	}
	for k, v := range sum {
		if !a.delta {
			want[k] = []float64{v}
			continue
		}
		old, has := a.last[k]
		if !has || v != old {
			want[k] = []float64{v - old}
		}
		if _, inPrev := a.prev[k]; has && !inPrev {
			known[k] = v
		}
	}
	a.prev = sum
	for k, v := range sum {
		a.last[k] = v
	}
	return
}

func checkAsync(r *mc.R, who string, kind sdkinstrument.Kind, delta bool, pts []Point, want map[string][]float64, known map[string]float64) {
	got := map[string]bool{}
	for _, p := range pts {
		if got[p.Attrs] {
			r.Failf("C08", "%s: series {%s} twice", who, p.Attrs)
		}
		got[p.Attrs] = true
		ok := false
		for _, v := range want[p.Attrs] {
			if v == p.Val {
				ok = true
			}
		}
		if !ok {
			if v, is := known[p.Attrs]; is && v == p.Val {
				r.Known("C08", "delta-series-absent-then-back", "%s: series {%s} absent from the previous collection reports its whole value %v instead of the difference %v", who, p.Attrs, p.Val, want[p.Attrs])
				continue
			}
			r.Failf("C08", "%s reports %v, want one of %v", who, p, want[p.Attrs])
		}
		wt := aggregation.CumulativeTemporality
		if delta && kind != sdkinstrument.AsyncGauge {
			wt = aggregation.DeltaTemporality
		}
		if p.Tempo != wt {
			r.Failf("C08", "%s: temporality %v, want %v", who, p.Tempo, wt)
		}
	}
	for k := range want {
		if !got[k] {
			r.Failf("C08", "%s does not report series {%s}, want one of %v", who, k, want[k])
		}
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "async-seq", Props: []string{"C08"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0, 1},
		Body: func(r *mc.R) {
			kind := asyncKinds[r.Choose(3)]
			float := r.ChooseBool()
			cfgs := []string{"dc", "Dd", "cC"}
			cfg := cfgs[r.Choose(3)]
			steps, nscr := 3, 8
			if r.Thorough {
				steps, nscr = 4, 8
			}
			var rds []*metric.ManualReader
			var ms []*asyncReader
			var opts []metric.Option
			for i, ch := range cfg {
				rd := metric.NewManualReader(fmt.Sprint("rd", i))
				a := &asyncReader{delta: ch == 'd' || ch == 'D', merge: ch == 'D' || ch == 'C', last: map[string]float64{}, prev: map[string]float64{}}
				vo := []view.Option{tempoOpt(a.delta)}
				if a.merge {
					vo = append(vo, view.WithClause(view.WithKeys([]attribute.Key{"k"})))
				}
				rds, ms, opts = append(rds, rd), append(ms, a), append(opts, metric.WithReader(rd, vo...))
			}
			p := newProvider(sdkinstrument.Performance{}, opts...)
			m := p.Meter("m")
			c, err := mkInst(m, "i", kind, float, 0, "", "")
			if err != nil {
				r.Failf("C08", "%v", err)
			}
			var script []observation
			runs := [2]int{}
			for cb := 0; cb < 2; cb++ {
				cb := cb
				if _, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
					runs[cb]++
					for _, ob := range script {
						if ob.cb == cb {
							c.observe(o, ob.val, plainAttrs(ob.attr))
						}
					}
					return nil
				}, c.obs); err != nil {
					r.Failf("C08", "%v", err)
				}
			}
			r.Logf("%v float %v readers %s", kind, float, cfg)
			for i := 0; i < steps; i++ {
				rd := r.Choose(len(rds))
				script = asyncScripts[r.Choose(nscr)]
				runs = [2]int{}
				pts := pointsOf(rds[rd].Produce(nil))
				want, known := ms[rd].expect(kind, script)
				if r.Keeping() {
					r.Logf("reader %d observes %v, reports:\n%s", rd, script, render(pts))
				}
				if runs != [2]int{1, 1} {
					r.Failf("C08", "callbacks ran %v times in one collection", runs)
				}
				checkAsync(r, fmt.Sprintf("collection %d by reader %d", i, rd), kind, ms[rd].delta, pts, want, known)
			}
		},
	})
	// More scripts, fewer steps.
	mc.Register(&mc.Scenario{
		Name: "async-multi", Props: []string{"C08"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0, 1},
		Body: func(r *mc.R) {
			// One callback for two instruments of different kinds, a
			// constructor callback for a third, in two meters.
			delta := r.ChooseBool()
			rd := metric.NewManualReader("rd")
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(delta)))
			k1, k2 := asyncKinds[r.Choose(3)], asyncKinds[r.Choose(3)]
			m := p.Meter("m")
			i1, _ := mkInst(m, "i1", k1, false, 0, "", "")
			i2, _ := mkInst(m, "i2", k2, true, 0, "", "")
			var s1, s2, s3 []observation
			_, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				for _, x := range s1 {
					i1.observe(o, x.val, plainAttrs(x.attr))
				}
				for _, x := range s2 {
					i2.observe(o, x.val, plainAttrs(x.attr))
				}
				return errors.New("ignored")
			}, i1.obs, i2.obs)
			if err != nil {
				r.Failf("C08", "%v", err)
			}
			_, err = p.Meter("m2").Int64ObservableCounter("i3", apimetric.WithInt64Callback(func(_ context.Context, o apimetric.Int64Observer) error {
				for _, x := range s3 {
					o.Observe(int64(x.val), apimetric.WithAttributes(plainAttrs(x.attr)...))
				}
				return nil
			}))
			if err != nil {
				r.Failf("C08", "%v", err)
			}
			var ms [3]*asyncReader
			for i := range ms {
				ms[i] = &asyncReader{delta: delta, last: map[string]float64{}, prev: map[string]float64{}}
			}
			flat := func(sc []observation) []observation {
				var o []observation
				for _, x := range sc {
					x.cb = 0
					o = append(o, x)
				}
				return o
			}
			for i := 0; i < 2; i++ {
				s1 = flat(asyncScripts[r.Choose(4)])
				s2 = flat(asyncScripts[r.Choose(len(asyncScripts)-1)])
				s3 = flat(asyncScripts[r.Choose(3)])
				pts := pointsOf(rd.Produce(nil))
				by := map[string][]Point{}
				for _, pt := range pts {
					by[pt.Scope+"/"+pt.Name] = append(by[pt.Scope+"/"+pt.Name], pt)
				}
				for j, x := range []struct {
					n string
					k sdkinstrument.Kind
					s []observation
				}{{"m/i1", k1, s1}, {"m/i2", k2, s2}, {"m2/i3", sdkinstrument.AsyncCounter, s3}} {
					want, known := ms[j].expect(x.k, x.s)
					checkAsync(r, fmt.Sprintf("collection %d of %s observing %v", i, x.n, x.s), x.k, delta, by[x.n], want, known)
				}
			}
		},
	})
	// Concurrent collections, also by one reader: callbacks observe the same
	// values each time, so every collection has to report those.
	mc.Register(&mc.Scenario{
		Name: "async-conc", Props: []string{"C08", "C09"}, Bound: [2]int{2, 3}, Race: [2]int{1, 2}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			kind := asyncKinds[r.Choose(2)]
			cfg := pickT(r, 3, "cc", "dd", "cD", "dC")
			prog := pick(r, "A|B", "A|A", "AA|B", "AB|A")
			var rds []*metric.ManualReader
			var opts []metric.Option
			for i, ch := range cfg {
				rd := metric.NewManualReader(fmt.Sprint("rd", i))
				vo := []view.Option{tempoOpt(ch == 'd' || ch == 'D')}
				if ch == 'D' || ch == 'C' {
					vo = append(vo, view.WithClause(view.WithKeys([]attribute.Key{"k"})))
				}
				rds, opts = append(rds, rd), append(opts, metric.WithReader(rd, vo...))
			}
			p := newProvider(sdkinstrument.Performance{}, opts...)
			m := p.Meter("m")
			c, _ := mkInst(m, "i", kind, false, 0, "", "")
			var mu sync.Mutex
			runs := 0
			_, _ = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				mu.Lock()
				runs++
				mu.Unlock()
				c.observe(o, 1, plainAttrs(0))
				c.observe(o, 4, plainAttrs(1))
				return nil
			}, c.obs)
			res := [2][]Point{}
			n := [2]int{}
			colls := 0
			do := func(ops string) {
				for _, o := range ops {
					i := int(o - 'A')
					pts := pointsOf(rds[i].Produce(nil))
					mu.Lock()
					colls++
					n[i]++
					res[i] = append(res[i], pts...)
					if cfg[i] == 'c' || cfg[i] == 'C' {
						r.Logf("reader %c: %s", o, render(pts))
						checkConst(r, pts, cfg[i] == 'C', 1)
					}
					mu.Unlock()
				}
			}
			var fs []func()
			for _, part := range []string{prog[:len(prog)-2], prog[len(prog)-1:]} {
				part := part
				fs = append(fs, func() { do(part) })
			}
			r.Par(fs...)
			do("AB")
			if runs != colls {
				r.Failf("C08", "%d callback runs in %d collections", runs, colls)
				r.Failf("C09", "%d callback runs in %d collections", runs, colls)
			}
			for i := range rds {
				if cfg[i] == 'd' || cfg[i] == 'D' {
					// The values never changed: exactly one point each.
					checkConst(r, res[i], cfg[i] == 'D', 1)
				}
			}
		},
	})
}

func checkConst(r *mc.R, pts []Point, merged bool, times float64) {
	want := map[string]float64{}
	if merged {
		s := attribute.NewSet(attribute.Int("k", 0))
		want[attrString(s)] = 5 * times
	} else {
		want[attrString(attribute.NewSet(plainAttrs(0)...))] = 1 * times
		want[attrString(attribute.NewSet(plainAttrs(1)...))] = 4 * times
	}
	got := map[string]float64{}
	for _, p := range pts {
		got[p.Attrs] += p.Val
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		r.Failf("C08", "collected %v, the callback observes %v", got, want)
	}
}

// C09: registration.

type cbEvent struct {
	regCall, regRet, unCall, unRet int64
}

type cbColl struct {
	call, ret int64
	runs      map[int]int
	vals      map[string]float64
}

// cbRun executes register (a..), unregister (x: a, y: b) and collect (A, B).
type cbRun struct {
	r     *mc.R
	rds   []*metric.ManualReader
	m     apimetric.Meter
	inst  kinst
	mu    sync.Mutex
	ev    map[int]*cbEvent
	reg   map[int]apimetric.Registration
	colls []*cbColl
	// cur is the collection that a thread is in.
	cur map[int]*cbColl
}

func newCbRun(r *mc.R, readers int) *cbRun {
	c := &cbRun{r: r, ev: map[int]*cbEvent{}, reg: map[int]apimetric.Registration{}, cur: map[int]*cbColl{}}
	var opts []metric.Option
	for i := 0; i < readers; i++ {
		rd := metric.NewManualReader(fmt.Sprint("rd", i))
		c.rds = append(c.rds, rd)
		opts = append(opts, metric.WithReader(rd))
	}
	c.m = newProvider(sdkinstrument.Performance{}, opts...).Meter("m")
	c.inst, _ = mkInst(c.m, "i", sdkinstrument.AsyncGauge, false, 0, "", "")
	return c
}

func (c *cbRun) do(ops string) {
	for _, o := range ops {
		switch {
		case o >= 'a' && o <= 'd':
			i := int(o - 'a')
			e := &cbEvent{regCall: vsched.Stamp()}
			reg, err := c.m.RegisterCallback(func(_ context.Context, ob apimetric.Observer) error {
				c.mu.Lock()
				if x := c.cur[vsched.Me()]; x != nil {
					x.runs[i]++
				}
				c.mu.Unlock()
				c.inst.observe(ob, float64(i+1), plainAttrs(i))
				return nil
			}, c.inst.obs)
			e.regRet = vsched.Stamp()
			if err != nil {
				c.r.Failf("C09", "registration: %v", err)
			}
			c.mu.Lock()
			c.ev[i], c.reg[i] = e, reg
			c.mu.Unlock()
		case o >= 'w' && o <= 'z':
			i := int(o - 'w')
			c.mu.Lock()
			e, reg := c.ev[i], c.reg[i]
			c.mu.Unlock()
			if e == nil {
				continue
			}
			again := e.unRet != 0
			call := vsched.Stamp()
			err := reg.Unregister()
			ret := vsched.Stamp()
			if again != (err != nil) {
				c.r.Failf("C09", "unregistering again=%v returns %v", again, err)
			}
			if !again {
				e.unCall, e.unRet = call, ret
			}
		default:
			x := &cbColl{runs: map[int]int{}, vals: map[string]float64{}}
			c.mu.Lock()
			c.cur[vsched.Me()] = x
			c.mu.Unlock()
			x.call = vsched.Stamp()
			d := c.rds[int(o-'A')].Produce(nil)
			x.ret = vsched.Stamp()
			c.mu.Lock()
			c.cur[vsched.Me()] = nil
			c.colls = append(c.colls, x)
			c.mu.Unlock()
			for _, p := range pointsOf(d) {
				x.vals[p.Attrs] += p.Val
			}
		}
	}
}

func (c *cbRun) check() {
	for i, e := range c.ev {
		c.r.Logf("callback %d: registered [%d,%d] unregistered [%d,%d]", i, e.regCall, e.regRet, e.unCall, e.unRet)
	}
	for _, x := range c.colls {
		c.r.Logf("collection [%d,%d]: runs %v values %v", x.call, x.ret, x.runs, x.vals)
		for i, e := range c.ev {
			n := x.runs[i]
			must := e.regRet < x.call && (e.unCall == 0 || x.ret < e.unCall)
			not := x.ret < e.regCall || e.unRet != 0 && e.unRet < x.call
			if n > 1 || must && n != 1 {
				c.r.Failf("C09", "callback %d (registered [%d,%d], unregistered [%d,%d]) ran %d times in collection [%d,%d]", i, e.regCall, e.regRet, e.unCall, e.unRet, n, x.call, x.ret)
			}
			if not && n != 0 {
				c.r.Failf("C09", "callback %d (registered [%d,%d], unregistered [%d,%d]) ran in collection [%d,%d]", i, e.regCall, e.regRet, e.unCall, e.unRet, x.call, x.ret)
			}
			key := attrString(attribute.NewSet(plainAttrs(i)...))
			v, has := x.vals[key]
			if has != (n > 0) || has && v != float64(i+1) {
				c.r.Failf("C09", "callback %d ran %d times in collection [%d,%d], its value is reported as %v (%v)", i, n, x.call, x.ret, v, has)
			}
		}
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "cb-seq", Props: []string{"C09"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			c := newCbRun(r, 2)
			n := 6
			if r.Thorough {
				n = 7
			}
			ops := ""
			reg := 0
			for i := 0; i < n; i++ {
				o := pick(r, "A", "+", "w", "x", "y", "B")
				if o == "+" {
					if reg == 4 {
						o = "A"
					} else {
						o = string(rune('a' + reg))
						reg++
					}
				}
				ops += o
			}
			r.Logf("%s", ops)
			c.do(ops)
			c.do("AB")
			c.check()
		},
	})
	for i, prog := range [][]string{
		{"abc", "w", "A"},
		{"abc", "wx", "A", "A"},
		{"abc", "y", "AA"},
		{"ab", "w", "x", "A"},
		{"ab", "c", "w", "A"},
		{"a", "b", "c", "A"},
		{"abc", "w", "A", "B"},
		{"abc", "wd", "AB"},
		{"abc", "xw", "d", "A"},
	} {
		prog := prog
		b := [2]int{2, 3}
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("cb-conc-%d", i), Props: []string{"C09"}, Bound: b, Race: [2]int{1, 2},
			Body: func(r *mc.R) {
				c := newCbRun(r, 2)
				c.do(prog[0])
				var fs []func()
				for _, p := range prog[1:] {
					p := p
					fs = append(fs, func() { c.do(p) })
				}
				r.Par(fs...)
				c.do("AB")
				c.check()
			},
		})
	}
	// Misuse has no effect on the data.
	mc.Register(&mc.Scenario{
		Name: "cb-misuse", Props: []string{"C09"}, Bound: [2]int{1, 2}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			float := r.ChooseBool()
			kind := asyncKinds[r.Choose(3)]
			rd := metric.NewManualReader("rd")
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd))
			m, m2 := p.Meter("m"), p.Meter("m2")
			i1, _ := mkInst(m, "i1", kind, float, 0, "", "")
			i2, _ := mkInst(m, "i2", kind, float, 0, "", "")
			o1, _ := mkInst(m2, "o1", kind, float, 0, "", "")
			f1, _ := mkInst(noop.NewMeterProvider().Meter("n"), "f1", kind, float, 0, "", "")
			// The API's global provider hands out instruments that wrap those of the SDK.
			switch r.Choose(3) {
			case 1:
				i1.obs, o1.obs = wrapped(i1.obs), wrapped(o1.obs)
			case 2:
				i1.obs, i2.obs, f1.obs = wrapped(i1.obs), wrapped(i2.obs), wrapped(f1.obs)
			}
			var fails error
			if r.ChooseBool() {
				fails = errors.New("callback error")
			}
			for _, l := range [][]apimetric.Observable{{f1.obs}, {i1.obs, f1.obs}, {f1.obs, i1.obs}} {
				if _, err := m.RegisterCallback(func(context.Context, apimetric.Observer) error { r.Failf("C09", "refused callback ran"); return nil }, l...); err == nil {
					r.Failf("C09", "registration accepted an instrument of another implementation")
				}
			}
			if _, err := m.RegisterCallback(func(context.Context, apimetric.Observer) error { r.Failf("C09", "refused callback ran"); return nil }, i1.obs, o1.obs); err == nil {
				r.Failf("C09", "registration accepted an instrument of another meter")
			}
			if _, err := m.RegisterCallback(func(context.Context, apimetric.Observer) error { r.Failf("C09", "refused callback ran"); return nil }); err == nil {
				r.Failf("C09", "registration accepted without instruments")
			}
			if _, err := m.RegisterCallback(nil, i1.obs); err == nil {
				r.Failf("C09", "registration accepted a nil function")
			}
			var kept apimetric.Observer
			_, _ = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				kept = o
				i1.observe(o, 1, nil)
				i2.observe(o, 7, nil) // not declared
				o1.observe(o, 7, nil) // other meter
				f1.observe(o, 7, nil) // other implementation
				return fails
			}, i1.obs)
			_, _ = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				if r.ChooseBool() && kept != nil {
					i1.observe(kept, 100, plainAttrs(1)) // after return of its callback
				}
				i2.observe(o, 3, nil)
				return fails
			}, i2.obs)
			sink.take()
			check := func() {
				got := map[string]float64{}
				for _, pt := range pointsOf(rd.Produce(nil)) {
					got[pt.Name+pt.Attrs] += pt.Val
				}
				if fmt.Sprint(got) != "map[i1:1 i2:3]" {
					r.Failf("C09", "collected %v", got)
				}
			}
			check()
			if len(sink.take()) == 0 {
				r.Failf("C09", "observing an undeclared instrument was not reported")
			}
			// A late observation concurrent with a collection.
			late := kept
			r.Par(func() { i1.observe(late, 50, nil) }, check)
			check()
		},
	})
}

func init() {
	// Each misuse is reported.
	mc.Register(&mc.Scenario{
		Name: "cb-reported", Props: []string{"C09"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			float := r.ChooseBool()
			kind := asyncKinds[r.Choose(3)]
			wrap := r.ChooseBool()
			rd := metric.NewManualReader("rd")
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd))
			i1, _ := mkInst(p.Meter("m"), "i1", kind, float, 0, "", "")
			i2, _ := mkInst(p.Meter("m"), "i2", kind, float, 0, "", "")
			i3, _ := mkInst(p.Meter("m2"), "i2", kind, float, 0, "", "")
			f1, _ := mkInst(noop.NewMeterProvider().Meter("n"), "f1", kind, float, 0, "", "")
			if wrap {
				i2.obs, i3.obs, f1.obs = wrapped(i2.obs), wrapped(i3.obs), wrapped(f1.obs)
			}
			what := r.Choose(5)
			r.Logf("%v float %v wrapped %v: %s", kind, float, wrap, []string{"nothing wrong", "undeclared", "of another meter", "of another implementation", "after the callback returned"}[what])
			var kept apimetric.Observer
			_, err := p.Meter("m").RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				i1.observe(o, 1, nil)
				switch what {
				case 1:
					i2.observe(o, 7, nil)
				case 2:
					i3.observe(o, 7, nil)
				case 3:
					f1.observe(o, 7, nil)
				}
				kept = o
				return nil
			}, i1.obs)
			if err != nil {
				r.Failf("C09", "%v", err)
				return
			}
			sink.take()
			for n := 0; n < 2; n++ {
				got := fmt.Sprint(pointsOf(rd.Produce(nil)))
				if what == 4 {
					i1.observe(kept, 7, nil)
				}
				if es := sink.take(); (len(es) > 0) != (what > 0) {
					r.Failf("C09", "collection %d: the error handler got %v", n, es)
				}
				if pts := pointsOf(rd.Produce(nil)); len(pts) != 1 || pts[0].Val != 1 {
					r.Failf("C09", "collected %v, before that %v", pts, got)
				}
				sink.take()
			}
		},
	})
	// Callbacks given with the instrument, any number of them.
	mc.Register(&mc.Scenario{
		Name: "cb-constructor", Props: []string{"C08", "C09"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			float := r.ChooseBool()
			kind := asyncKinds[r.Choose(3)]
			n := r.Choose(4)
			again := r.ChooseBool()
			delta := r.ChooseBool()
			r.Logf("%v float %v with %d callbacks, twice %v, delta %v", kind, float, n, again, delta)
			rds := []*metric.ManualReader{metric.NewManualReader("a"), metric.NewManualReader("b")}
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rds[0], tempoOpt(delta)), metric.WithReader(rds[1]))
			m := p.Meter("m")
			// Another instrument of the name makes this a conflict, which
			// is reported but does not keep the callbacks from running.
			conflict := pick(r, "none", "number", "unit", "sync")
			switch conflict {
			case "number":
				if float {
					_, _ = m.Int64ObservableUpDownCounter("i")
				} else {
					_, _ = m.Float64ObservableUpDownCounter("i")
				}
			case "unit":
				_, _ = m.Int64ObservableGauge("i", apimetric.WithUnit("By"))
			case "sync":
				_, _ = m.Int64Histogram("i")
			}
			r.Logf("conflict: %s", conflict)
			runs := make([]int, 2*n)
			round := 0
			mk := func(base int) {
				var err error
				if float {
					var cbs []apimetric.Float64Callback
					for i := base; i < base+n; i++ {
						i := i
						cbs = append(cbs, func(_ context.Context, o apimetric.Float64Observer) error {
							runs[i]++
							o.Observe(float64(10*round+i+1), apimetric.WithAttributes(attribute.Int("i", i)))
							return nil
						})
					}
					switch kind {
					case sdkinstrument.AsyncCounter:
						var opts []apimetric.Float64ObservableCounterOption
						for _, cb := range cbs {
							opts = append(opts, apimetric.WithFloat64Callback(cb))
						}
						_, err = m.Float64ObservableCounter("i", opts...)
					case sdkinstrument.AsyncUpDownCounter:
						var opts []apimetric.Float64ObservableUpDownCounterOption
						for _, cb := range cbs {
							opts = append(opts, apimetric.WithFloat64Callback(cb))
						}
						_, err = m.Float64ObservableUpDownCounter("i", opts...)
					default:
						var opts []apimetric.Float64ObservableGaugeOption
						for _, cb := range cbs {
							opts = append(opts, apimetric.WithFloat64Callback(cb))
						}
						_, err = m.Float64ObservableGauge("i", opts...)
					}
				} else {
					var cbs []apimetric.Int64Callback
					for i := base; i < base+n; i++ {
						i := i
						cbs = append(cbs, func(_ context.Context, o apimetric.Int64Observer) error {
							runs[i]++
							o.Observe(int64(10*round+i+1), apimetric.WithAttributes(attribute.Int("i", i)))
							return nil
						})
					}
					switch kind {
					case sdkinstrument.AsyncCounter:
						var opts []apimetric.Int64ObservableCounterOption
						for _, cb := range cbs {
							opts = append(opts, apimetric.WithInt64Callback(cb))
						}
						_, err = m.Int64ObservableCounter("i", opts...)
					case sdkinstrument.AsyncUpDownCounter:
						var opts []apimetric.Int64ObservableUpDownCounterOption
						for _, cb := range cbs {
							opts = append(opts, apimetric.WithInt64Callback(cb))
						}
						_, err = m.Int64ObservableUpDownCounter("i", opts...)
					default:
						var opts []apimetric.Int64ObservableGaugeOption
						for _, cb := range cbs {
							opts = append(opts, apimetric.WithInt64Callback(cb))
						}
						_, err = m.Int64ObservableGauge("i", opts...)
					}
				}
				if (err != nil) != (conflict != "none") {
					r.Failf(r.Prop(), "conflict %s: error %v", conflict, err)
				}
			}
			// Asking for the instrument again adds its callbacks to it.
			mk(0)
			all := n
			if again {
				mk(n)
				all = 2 * n
			}
			last := map[string]float64{}
			for c := 0; c < 4; c++ {
				round++
				who := c % 2
				got := map[string]float64{}
				for _, pt := range pointsOf(rds[who].Produce(nil)) {
					got[pt.Attrs] += pt.Val
				}
				want := map[string]float64{}
				for i := 0; i < all; i++ {
					k := attrString(attribute.NewSet(attribute.Int("i", i)))
					v := float64(10*round + i + 1)
					want[k] = v
					if who == 0 && delta && kind != sdkinstrument.AsyncGauge {
						want[k] = v - last[k]
						last[k] = v
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					r.Failf(r.Prop(), "collection %d reports %v, want %v", c, got, want)
				}
				for i := 0; i < all; i++ {
					if runs[i] != round {
						r.Failf(r.Prop(), "callback %d ran %d times in %d collections", i, runs[i], round)
					}
				}
			}
		},
	})
}

type wrapInt struct{ apimetric.Int64Observable }

func (w wrapInt) Unwrap() apimetric.Observable { return w.Int64Observable }

type wrapFloat struct{ apimetric.Float64Observable }

func (w wrapFloat) Unwrap() apimetric.Observable { return w.Float64Observable }

func wrapped(o apimetric.Observable) apimetric.Observable {
	if i, ok := o.(apimetric.Int64Observable); ok {
		return wrapInt{i}
	}
	return wrapFloat{o.(apimetric.Float64Observable)}
}

// innerConc: a callback that observes from several goroutines, one of which
// may go on after the callback has returned.
func innerConc(r *mc.R) {
	kind := asyncKinds[r.Choose(3)]
	late := r.ChooseBool()
	same := r.ChooseBool()
	rd := metric.NewManualReader("rd")
	p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(false)))
	m := p.Meter("m")
	c, _ := mkInst(m, "i", kind, r.ChooseBool(), 0, "", "")
	var left *vsched.Handle
	on := true
	_, _ = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		if !on {
			return nil
		}
		at := 1
		if same {
			at = 0
		}
		a := vsched.Start("a", func() { c.observe(o, 1, plainAttrs(0)) })
		b := vsched.Start("b", func() { c.observe(o, 4, plainAttrs(at)) })
		c.observe(o, 16, plainAttrs(2))
		a.Join()
		if late {
			left = b
		} else {
			b.Join()
		}
		return nil
	}, c.obs)
	k := func(i int) string { return attrString(attribute.NewSet(plainAttrs(i)...)) }
	vsched.Quiet(false)
	pts := pointsOf(rd.Produce(nil))
	vsched.Quiet(true)
	got := map[string]float64{}
	for _, pt := range pts {
		if _, has := got[pt.Attrs]; has {
			r.Failf("C08", "series {%s} twice", pt.Attrs)
		}
		got[pt.Attrs] = pt.Val
	}
	ok := got[k(2)] == 16
	v, has := got[k(1)]
	switch {
	case same:
		ok = ok && len(got) == 2 && (got[k(0)] == 1 || got[k(0)] == 4)
	case late && !has:
		ok = ok && len(got) == 2 && got[k(0)] == 1
	default:
		ok = ok && len(got) == 3 && got[k(0)] == 1 && v == 4
	}
	if !ok {
		r.Failf("C08", "observed from three goroutines (one after the callback returned: %v, two on one series: %v): reported %v", late, same, got)
	}
	if left != nil {
		left.Join()
	}
	on = false
	if pts := pointsOf(rd.Produce(nil)); len(pts) != 0 {
		r.Failf("C08", "reported %v in a collection without observations", pts)
	}
}

func init() {
	mc.Register(&mc.Scenario{Name: "async-inner", Props: []string{"C08", "C24"}, Bound: [2]int{2, 3}, Race: [2]int{1, 2}, MapOffs: []uint64{0}, Body: innerConc})
}
