package main

import (
	"strings"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

// checkGauge judges a gauge program: value id is pow4(id), all distinct.
func (s *syncRun) checkGauge(c syncCfg) {
	s.describe()
	var all []upd
	for _, us := range s.upds {
		all = append(all, us...)
	}
	for rd := range s.readers {
		filtered := c.readers[rd] == 'D' || c.readers[rd] == 'C'
		delta := s.delta[rd]
		var cs []coll
		for _, l := range s.colls {
			for _, x := range l {
				if x.reader == rd {
					cs = append(cs, x)
				}
			}
		}
		byKey := map[string][]upd{}
		for _, u := range all {
			k := s.outKey(rd, filtered, u.attr)
			byKey[k] = append(byKey[k], u)
		}
		for i, x := range cs {
			seen := map[string]bool{}
			for _, p := range x.pts {
				if seen[p.Attrs] {
					s.r.Failf("C04", "reader %c: series {%s} twice in one collection", 'A'+rd, p.Attrs)
				}
				seen[p.Attrs] = true
				var from *upd
				for j := range byKey[p.Attrs] {
					if u := &byKey[p.Attrs][j]; float64(u.val) == p.Val {
						from = u
					}
				}
				if from == nil {
					s.r.Failf("C04", "reader %c reports %v, which was never set", 'A'+rd, p)
					continue
				}
				if from.call > x.ret {
					s.r.Failf("C04", "reader %c: collection [%d,%d] reports value %d set later at [%d,%d]", 'A'+rd, x.call, x.ret, from.val, from.call, from.ret)
				}
				for _, w := range byKey[p.Attrs] {
					if from.ret < w.call && w.ret < x.call {
						s.r.Failf("C04", "reader %c: collection [%d,%d] reports value %d set at [%d,%d], which was overwritten by %d at [%d,%d]", 'A'+rd, x.call, x.ret, from.val, from.call, from.ret, w.val, w.call, w.ret)
					}
				}
			}
			for k, us := range byKey {
				must, may := false, false
				for _, u := range us {
					if u.call < x.ret {
						may = true
					}
					if u.ret < x.call {
						must = true
					}
				}
				if delta {
					// What the reader has seen already.
					must, may = false, false
					for _, u := range us {
						fresh, old := true, false
						for i2, y := range cs {
							if i2 == i {
								continue
							}
							if !(y.ret < u.call || x.ret < y.call) {
								fresh = false
							}
							if u.ret < y.call && y.ret < x.call {
								old = true
							}
						}
						if u.ret < x.call && fresh {
							must = true
						}
						if u.call < x.ret && !old {
							may = true
						}
					}
				}
				if must && !seen[k] {
					s.r.Failf("C04", "reader %c: collection [%d,%d] does not report series {%s}", 'A'+rd, x.call, x.ret, k)
				}
				if !may && seen[k] {
					s.r.Failf("C04", "reader %c: collection [%d,%d] reports series {%s}, not set since the last one", 'A'+rd, x.call, x.ret, k)
				}
			}
		}
	}
}

func gaugeScenario(name string, bound [2]int, offs []uint64, cfg func(r *mc.R) syncCfg) {
	mc.Register(&mc.Scenario{
		Name: name, Props: []string{"C04"}, Bound: bound, Race: [2]int{-1, -1}, MapOffs: offs,
		Body: func(r *mc.R) {
			c := cfg(r)
			if r.Keeping() {
				r.Logf("program %s readers %s kind %s inactive %d", c.program, c.readers, c.kind, c.inactive)
			}
			s := newSyncRun(r, c)
			s.run(c.program)
			s.checkGauge(c)
		},
	})
}

func init() {
	for i, d := range []string{
		"|a|a|A", "a|a|a|AA", "aA|aa|a|AA", "aA|a|a|a|A",
	} {
		d := d
		b := [2]int{3, 4}
		if i == 3 {
			b = [2]int{2, 3}
		}
		gaugeScenario("gauge-deep-"+string(rune('0'+i)), b, nil, func(r *mc.R) syncCfg {
			return syncCfg{kind: "gauge", readers: pick(r, "d", "c"), inactive: 1, program: d}
		})
	}
	for i, d := range []string{
		"|a|b|A", "|ab|A|A", "abA|a|b|AA", "ab|ab|AA",
	} {
		d := d
		gaugeScenario("gauge-merge-"+string(rune('0'+i)), [2]int{2, 3}, []uint64{0, 1}, func(r *mc.R) syncCfg {
			return syncCfg{kind: "gauge-f", readers: pick(r, "D", "C"), inactive: 1, program: d}
		})
	}
	for i, d := range []string{
		"|a|b|A", "ab|ab|AA", "abA|ab|ab|A", "|aba|AA", "ab|b|a|AA",
	} {
		d := d
		gaugeScenario("gauge-twin-"+string(rune('0'+i)), [2]int{2, 3}, nil, func(r *mc.R) syncCfg {
			return syncCfg{kind: "gauge-tf", readers: pick(r, "d", "c"), inactive: 1, program: d}
		})
	}
	for i, d := range []string{
		"|a|a|AB", "aAB|a|AB|B", "aA|aa|A|BB",
	} {
		d := d
		gaugeScenario("gauge-two-"+string(rune('0'+i)), [2]int{2, 3}, nil, func(r *mc.R) syncCfg {
			return syncCfg{kind: "gauge", readers: pick(r, "dd", "dc", "cc"), inactive: 1 + uint32(r.Choose(2)), program: d}
		})
	}
	gaugeScenario("gauge-family", [2]int{1, 2}, []uint64{0, 1}, func(r *mc.R) syncCfg {
		c := syncCfg{kind: pickT(r, 1, "gauge", "gauge-f"), readers: pickT(r, 3, "d", "c", "D", "C")}
		c.inactive = []uint32{1, 2}[r.Choose(2)]
		c.program = pickT(r, 3, "", "aA", "abA", "a", "aAA") + "|" + pickT(r, 2, "aa", "ab", "a") + "|" + pickT(r, 2, "a", "b", "A") + "|" + pickT(r, 1, "AA", "A")
		return c
	})
	// Sequential histories, exhaustively.
	gaugeScenario("gauge-seq", [2]int{0, 0}, []uint64{0, 1}, func(r *mc.R) syncCfg {
		c := syncCfg{kind: "gauge", readers: pick(r, "dc", "cd", "DC", "cD")}
		c.inactive = []uint32{1, 2}[r.Choose(2)]
		n := 6
		if r.Thorough {
			n = 8
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(pick(r, "a", "b", "A", "B"))
		}
		c.program = b.String()
		return c
	})
}
