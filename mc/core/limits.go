package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

const overflowKey = "otel.metric.overflow=BOOL:true;"

// checkLimits judges a synchronous program under cardinality limits.
func (s *syncRun) checkLimits(c syncCfg) {
	s.describe()
	agg, inst := int(c.perf.AggregatorCardinalityLimit), int(c.perf.InstrumentCardinalityLimit)
	var all []upd
	for _, us := range s.upds {
		all = append(all, us...)
	}
	distinct := map[int]bool{}
	for _, u := range all {
		distinct[u.attr] = true
	}
	var total int64
	for _, u := range all {
		total += u.val
	}
	for rd := range s.readers {
		var cs []coll
		for _, l := range s.colls {
			for _, x := range l {
				if x.reader == rd {
					cs = append(cs, x)
				}
			}
		}
		keyOf := map[int]string{}
		keys := map[string]int{}
		for a := range distinct {
			keyOf[a] = s.outKey(rd, false, a)
			keys[keyOf[a]] = a
		}
		var got int64
		// seenOwn: collections in which an attribute had its own series.
		incl := make([]map[string]int64, len(cs))
		for i, x := range cs {
			incl[i] = map[string]int64{}
			if agg > 0 && len(x.pts) > agg {
				s.r.Failf("C06", "reader %c: %d series in one collection, the aggregator limit is %d", 'A'+rd, len(x.pts), agg)
			}
			if inst > 0 && (s.delta[rd] || c.inactive >= 10) && len(s.readers) == 1 && len(x.pts) > inst {
				s.r.Failf("C06", "reader %c: %d series in one collection, the instrument limit is %d", 'A'+rd, len(x.pts), inst)
			}
			for _, p := range x.pts {
				if _, dup := incl[i][p.Attrs]; dup {
					s.r.Failf("C06", "reader %c: series {%s} twice", 'A'+rd, p.Attrs)
				}
				incl[i][p.Attrs] = int64(p.Val)
				if p.Attrs == overflowKey {
					s.r.Cover("overflow")
					lim := agg
					if lim == 0 || inst > 0 && inst < lim {
						lim = inst
					}
					if len(distinct) < lim {
						s.r.Failf("C06", "reader %c: overflow with only %d series, the limit is %d", 'A'+rd, len(distinct), lim)
					}
					continue
				}
				a, ok := keys[p.Attrs]
				if !ok {
					s.r.Failf("C06", "reader %c: series {%s} was never recorded", 'A'+rd, p.Attrs)
					continue
				}
				// Its own measurements only.
				for _, u := range all {
					if u.attr != a && digit(int64(p.Val), log4(u.val)) != 0 {
						s.r.Failf("C06", "reader %c: series {%s} contains a measurement of another", 'A'+rd, p.Attrs)
					}
				}
			}
			if s.delta[rd] || i == len(cs)-1 {
				for _, v := range incl[i] {
					got += v
				}
			}
		}
		if got != total {
			s.r.Failf("C06", "reader %c: total over all series is %d, recorded %d (difference in base 4: %s)", 'A'+rd, got, total, base4(total-got))
		}
		// A series that a collection reported and that is not dropped
		// takes all its later measurements.
		if c.inactive >= 10 {
			for i, x := range cs {
				for key := range incl[i] {
					a, ok := keys[key]
					if !ok {
						continue
					}
					for _, u := range all {
						if u.attr != a || u.call < x.ret {
							continue
						}
						own := false
						for k := range cs {
							if digit(incl[k][key], log4(u.val)) != 0 {
								own = true
							}
						}
						if !own {
							s.r.Failf("C06", "reader %c: a measurement of the existing series {%s} went elsewhere", 'A'+rd, key)
						}
					}
				}
			}
		}
	}
}

func limitScenario(name string, bound, race [2]int, offs []uint64, cfg func(r *mc.R) syncCfg) {
	mc.Register(&mc.Scenario{
		Name: name, Props: []string{"C06"}, Bound: bound, Race: race, MapOffs: offs,
		Body: func(r *mc.R) {
			c := cfg(r)
			if r.Keeping() {
				r.Logf("program %s readers %s kind %s inactive %d limits %d/%d", c.program, c.readers, c.kind, c.inactive, c.perf.AggregatorCardinalityLimit, c.perf.InstrumentCardinalityLimit)
			}
			s := newSyncRun(r, c)
			s.run(c.program)
			s.checkLimits(c)
		},
	})
}

func limits(r *mc.R, thorough int) sdkinstrument.Performance {
	l := []sdkinstrument.Performance{
		{AggregatorCardinalityLimit: 2},
		{InstrumentCardinalityLimit: 2},
		{AggregatorCardinalityLimit: 3},
		{InstrumentCardinalityLimit: 3},
		{AggregatorCardinalityLimit: 2, InstrumentCardinalityLimit: 3},
		{AggregatorCardinalityLimit: 1},
		{InstrumentCardinalityLimit: 1},
		{AggregatorCardinalityLimit: 3, InstrumentCardinalityLimit: 2},
	}
	if !r.Thorough {
		l = l[:thorough]
	}
	return l[r.Choose(len(l))]
}

func init() {
	limitScenario("limit-conc-1", [2]int{2, 3}, [2]int{-1, -1}, nil, func(r *mc.R) syncCfg {
		return syncCfg{kind: "counter", readers: pick(r, "d", "c"), inactive: 10, perf: limits(r, 4), program: pickT(r, 2, "|a|b|A", "a|b|c|A", "|ab|ba|A")}
	})
	limitScenario("limit-conc-2", [2]int{2, 3}, [2]int{-1, -1}, nil, func(r *mc.R) syncCfg {
		return syncCfg{kind: pickT(r, 1, "counter", "counter-k"), readers: pick(r, "d", "c"), inactive: 1, perf: limits(r, 4), program: pickT(r, 2, "aA|a|b|AA", "abA|b|c|AA", "aA|b|AAA")}
	})
	limitScenario("limit-collide", [2]int{2, 2}, [2]int{-1, -1}, nil, func(r *mc.R) syncCfg {
		return syncCfg{kind: "counter", readers: pick(r, "d", "c"), inactive: 10, perf: limits(r, 4), collide: true, program: pickT(r, 2, "|a|b|A", "a|b|cd|A", "abc|d|A")}
	})
	limitScenario("limit-alias-conc", [2]int{1, 2}, [2]int{-1, -1}, nil, func(r *mc.R) syncCfg {
		return syncCfg{kind: pick(r, "counter", "counter-k"), readers: pick(r, "d", "c"), inactive: 10, perf: limits(r, 4), alias: true, program: pickT(r, 3, "|ab|c|A", "a|b|cd|A", "|a|b|cA", "ab|c|d|A")}
	})
	limitScenario("limit-conc-3", [2]int{1, 2}, [2]int{-1, -1}, nil, func(r *mc.R) syncCfg {
		return syncCfg{kind: pick(r, "updown-f", "histogram"), readers: pick(r, "dc", "dd"), inactive: 1 + uint32(r.Choose(2)), perf: limits(r, 5), program: pickT(r, 2, "abAB|a|c|AB", "|a|b|c|BA", "aB|b|c|AA")}
	})
	limitScenario("limit-seq", [2]int{0, 0}, [2]int{-1, -1}, []uint64{0, 1}, func(r *mc.R) syncCfg {
		c := syncCfg{kind: "counter", readers: pick(r, "d", "c"), perf: limits(r, 8)}
		c.inactive = []uint32{1, 10, 2}[r.Choose(2)]
		n := 6
		if r.Thorough {
			n = 7
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(pick(r, "a", "b", "c", "d", "A"))
		}
		c.program = b.String()
		return c
	})
	// Asynchronous instruments: every sequence of observed sets.
	mc.Register(&mc.Scenario{
		Name: "limit-async", Props: []string{"C06"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0, 1, 3},
		Body: func(r *mc.R) {
			kind := asyncKinds[r.Choose(3)]
			lim := 1 + r.Choose(3)
			delta := r.ChooseBool()
			rd := metric.NewManualReader("a")
			p := newProvider(sdkinstrument.Performance{AggregatorCardinalityLimit: uint32(lim)}, metric.WithReader(rd, tempoOpt(delta)))
			m := p.Meter("m")
			c, _ := mkInst(m, "i", kind, r.ChooseBool(), 0, "", "")
			var obs, step int
			val := func(a int) float64 { return float64(pow4(a) << (8 * step)) }
			_, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				for a := 0; a < 4; a++ {
					if obs&(1<<a) != 0 {
						c.observe(o, val(a), plainAttrs(a))
					}
				}
				return nil
			}, c.obs)
			if err != nil {
				r.Failf("C06", "%v", err)
			}
			n := 3
			if r.Thorough {
				n = 4
			}
			last := map[int]float64{}
			for ; step < n; step++ {
				obs = r.Choose(16)
				pts := pointsOf(rd.Produce(nil))
				r.Logf("observe set %04b limit %d", obs, lim)
				for _, pt := range pts {
					r.Logf("   %v", pt)
				}
				if len(pts) > lim {
					r.Failf("C06", "%d series in one collection, the limit is %d", len(pts), lim)
				}
				cnt, sum := 0, 0.0
				for a := 0; a < 4; a++ {
					if obs&(1<<a) != 0 {
						cnt++
						sum += val(a)
					}
				}
				var got float64
				own := map[string]bool{}
				for _, pt := range pts {
					got += pt.Val
					if own[pt.Attrs] {
						r.Failf("C06", "series {%s} twice", pt.Attrs)
					}
					own[pt.Attrs] = true
					if pt.Attrs == overflowKey {
						if cnt < lim && step == 0 {
							r.Failf("C06", "overflow with %d series, the limit is %d", cnt, lim)
						}
						continue
					}
					if kind != sdkinstrument.AsyncGauge && !delta {
						ok := false
						for a := 0; a < 4; a++ {
							if obs&(1<<a) != 0 && pt.Attrs == attrString(attribute.NewSet(plainAttrs(a)...)) && pt.Val == val(a) {
								ok = true
							}
						}
						if !ok {
							r.Failf("C06", "unexpected point %v", pt)
						}
					}
				}
				if kind == sdkinstrument.AsyncGauge {
					continue
				}
				if (!delta || step == 0) && got != sum {
					r.Failf("C06", "total over all series is %v, observed %v", got, sum)
				}
				if delta {
					// Every value differs from the one before, so
					// that a set with its own series is reported.
					// What overflows counts in full in each interval.
					over := 0.0
					for a := 0; a < 4; a++ {
						if obs&(1<<a) == 0 {
							continue
						}
						k := attrString(attribute.NewSet(plainAttrs(a)...))
						if !own[k] {
							over += val(a)
							continue
						}
						for _, pt := range pts {
							if pt.Attrs == k && pt.Val != val(a) && pt.Val != val(a)-last[a] {
								r.Failf("C06", "series {%s} changes by %v, observed %v and before that %v", k, pt.Val, val(a), last[a])
							}
						}
					}
					var ov float64
					for _, pt := range pts {
						if pt.Attrs == overflowKey {
							ov = pt.Val
						}
					}
					if ov != over {
						r.Failf("C06", "the overflow series changes by %v, %v overflowed in this interval", ov, over)
					}
				}
				for a := 0; a < 4; a++ {
					if obs&(1<<a) != 0 {
						last[a] = val(a)
					}
				}
			}
		},
	})

	// C07: idle series.  Whether a series is still held is observed through
	// the limits: with a limit of two (one series and the overflow one), a
	// new series gets its own place only when the old one is gone.
	type idleProbe struct {
		readers  string
		inst     bool // probe the instrument's memory, else reader A's
		inactive uint32
	}
	runIdle := func(r *mc.R, ip idleProbe, prog string) {
		c := syncCfg{kind: pick(r, "counter", "histogram-k", "gauge", "updown-f"), readers: ip.readers, inactive: ip.inactive, program: prog}
		if ip.inst {
			c.perf.InstrumentCardinalityLimit = 2
		} else {
			c.perf.AggregatorCardinalityLimit = 2
		}
		if r.Keeping() {
			r.Logf("program %s readers %s kind %s inactive %d, probing instrument memory: %v", prog, c.readers, c.kind, c.inactive, ip.inst)
		}
		s := newSyncRun(r, c)
		parts := strings.Split(prog, "|")
		s.upds = make([][]upd, len(parts)+2)
		s.colls = make([][]coll, len(parts)+2)
		id := 0
		s.do(0, parts[0], id)
		id += updates(parts[0])
		var fs []func()
		for i := 1; i < len(parts)-1; i++ {
			i, id0 := i, id
			id += updates(parts[i])
			fs = append(fs, func() { s.do(i, parts[i], id0) })
		}
		if len(fs) > 0 {
			r.Par(fs...)
		}
		tail := ""
		if len(parts) > 1 {
			tail = parts[len(parts)-1]
			s.do(len(parts)-1, tail, id)
			id += updates(tail)
		}
		// Reference: consecutive idle collections since the last activity.
		held, entry, idle, dirty := false, make([]bool, len(s.readers)), 0, false
		// fresh: has data for the reader; maybe: reported for the last time
		// in the collection that finds it unused, which may drop it at once.
		fresh, maybe := make([]bool, len(s.readers)), make([]bool, len(s.readers))
		seq := parts[0]
		if len(fs) == 0 {
			seq += tail
		} else {
			// After the concurrent part the series is either there or
			// not; the tail has enough collections to settle it.
			seq = ""
			settle := 0
			for _, ch := range tail {
				if ch >= 'A' && ch <= 'Z' {
					settle++
				}
			}
			if settle < int(ip.inactive)+1 || updates(tail) > 0 {
				panic("tail too short")
			}
			if !ip.inst {
				for i := range entry {
					entry[i] = !s.delta[i]
				}
			}
		}
		for _, ch := range seq {
			if ch >= 'a' && ch <= 'z' {
				held, dirty = true, true
				for i := range entry {
					entry[i], fresh[i], maybe[i] = true, true, false
				}
				continue
			}
			i := int(ch - 'A')
			if held {
				if dirty {
					dirty, idle = false, 0
				} else {
					idle++
					if idle >= int(ip.inactive) {
						held, idle = false, 0
					}
				}
			}
			// A delta reader lets go of the entry at its first
			// collection that finds it unused and unchanged.
			// (a collection by any reader moves all readers' data).
			if s.delta[i] && !held {
				maybe[i] = fresh[i]
				entry[i] = fresh[i]
			}
			fresh[i] = false
		}
		wantOwn := !held
		if !ip.inst {
			wantOwn = !entry[0]
			if !s.delta[0] {
				entry[0] = entry[0] && updates(prog) > 0
				wantOwn = updates(prog) == 0
			}
		}
		// Probe: a new series, then reader A collects.
		s.do(len(parts), "b", id)
		s.do(len(parts), "A", id+1)
		s.describe()
		own, over := false, false
		last := s.colls[len(parts)][0]
		for _, p := range last.pts {
			if p.Attrs == s.outKey(0, false, 1) {
				own = true
			} else if p.Attrs == overflowKey {
				over = true
			}
		}
		if own == over {
			r.Failf("C07", "probe series reported %v as itself and %v as overflow", own, over)
			return
		}
		what := "the instrument's memory"
		if !ip.inst {
			what = "the reader"
		}
		if !ip.inst && maybe[0] {
			return
		}
		if own && !wantOwn {
			r.Failf("C07", "program %s (inactive periods %d): the series was dropped from %s too early", prog, ip.inactive, what)
		}
		if !own && wantOwn {
			r.Failf("C07", "program %s (inactive periods %d): the idle series was not dropped from %s", prog, ip.inactive, what)
		}
	}
	mc.Register(&mc.Scenario{
		Name: "idle-seq", Props: []string{"C07"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			ip := idleProbe{readers: pick(r, "d", "c", "dc", "cd", "dd", "ddd"), inst: r.ChooseBool(), inactive: uint32(1 + r.Choose(3))}
			n := 7
			ops := []string{"a", "A"}
			if len(ip.readers) > 1 {
				ops = append(ops, "B")
				n = 6
			}
			if r.Thorough {
				n += 2
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(pick(r, ops...))
			}
			runIdle(r, ip, b.String())
		},
	})
	mc.Register(&mc.Scenario{
		Name: "idle-conc", Props: []string{"C07"}, Bound: [2]int{2, 3}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			ip := idleProbe{readers: pick(r, "d", "c"), inst: r.ChooseBool(), inactive: uint32(1 + r.Choose(2))}
			runIdle(r, ip, pickT(r, 2, "aA|a|a|AA|AAAA", "aA|aa|A|AAAA", "|a|a|A|AAAA", "aA|a|A|A|AAAA"))
		},
	})
	// What readers get while series come and go (nothing lost or repeated,
	// cumulative totals for ever).
	mc.Register(&mc.Scenario{
		Name: "idle-totals", Props: []string{"C07", "C01", "C02"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Body: func(r *mc.R) {
			c := syncCfg{kind: pick(r, "counter", "histogram-k"), readers: pick(r, "d", "c", "dc", "cD"), inactive: uint32(1 + r.Choose(2))}
			n := 6
			if r.Thorough {
				n = 8
			}
			ops := []string{"a", "A", "b"}
			if len(c.readers) > 1 {
				ops = append(ops, "B")
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(pick(r, ops...))
			}
			c.program = b.String()
			r.Logf("program %s readers %s kind %s inactive %d", c.program, c.readers, c.kind, c.inactive)
			s := newSyncRun(r, c)
			s.run(c.program)
			s.check(c)
			s.checkPresence(c)
		},
	})
}

// checkPresence: in a sequential program a delta reader reports a series
// exactly when it was recorded since the reader's last collection, and a
// cumulative one always, once recorded.
func (s *syncRun) checkPresence(c syncCfg) {
	for rd := range s.readers {
		filtered := c.readers[rd] == 'D' || c.readers[rd] == 'C'
		var since int64
		for _, l := range s.colls {
			for _, x := range l {
				if x.reader != rd {
					continue
				}
				want := map[string]bool{}
				for _, us := range s.upds {
					for _, u := range us {
						if u.ret < x.call && (!s.delta[rd] || u.call > since) {
							want[s.outKey(rd, filtered, u.attr)] = true
						}
					}
				}
				got := map[string]bool{}
				for _, p := range x.pts {
					got[p.Attrs] = true
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					s.r.Failf("C07", "reader %c: collection [%d,%d] reports series %v, want %v", 'A'+rd, x.call, x.ret, got, want)
				}
				since = x.ret
			}
		}
	}
}
