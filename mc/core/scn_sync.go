package main

import (
	"fmt"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

var syncProps = []string{"C01", "C02", "C03"}

func syncScenario(name string, props []string, bound, race [2]int, offs []uint64, cfg func(r *mc.R) syncCfg) {
	mc.Register(&mc.Scenario{
		Name: name, Props: props, Bound: bound, Race: race, MapOffs: offs,
		Body: func(r *mc.R) {
			c := cfg(r)
			if r.Keeping() {
				r.Logf("program %s readers %s kind %s inactive %d", c.program, c.readers, c.kind, c.inactive)
			}
			s := newSyncRun(r, c)
			s.run(c.program)
			s.check(c)
		},
	})
}

func pick(r *mc.R, opts ...string) string { return opts[r.Choose(len(opts))] }

// pickT is pick, from the first n only in the quick tier.
func pickT(r *mc.R, n int, opts ...string) string {
	if !r.Thorough {
		opts = opts[:n]
	}
	return opts[r.Choose(len(opts))]
}

func init() {
	// Selected shapes, explored deeply.
	deep := []struct {
		prog, readers string
		inactive      uint32
		kind          string
		offs          []uint64
	}{
		{"|a|a|A", "d", 1, "counter", nil},
		{"aA|a|a|AA", "d", 1, "counter", nil},
		{"aA|a|a|AA", "c", 1, "counter", nil},
		{"aA|a|a|AA", "d", 10, "counter-k", nil},
		{"aA|aa|AA", "d", 1, "counter-f", nil},
		{"a|A|A|a", "d", 1, "counter", nil},
		{"aAB|a|A|B|AB", "dd", 1, "counter", nil},
		{"aAB|a|A|BBB", "dd", 2, "counter", nil},
		{"aAB|a|A|BBB", "dc", 2, "updown", nil},
		{"aA|a|AB|BA", "cd", 1, "counter", nil},
		{"ab|a|b|AA", "D", 1, "counter", []uint64{0, 1}},
		{"abA|a|b|AA", "D", 2, "updown-f", []uint64{0, 1}},
		{"aA|a|a|AA", "d", 1, "histogram", nil},
		{"aA|aa|AA", "c", 1, "histogram-f", nil},
		{"ab|a|b|AA", "D", 1, "histogram", []uint64{0, 1}},
		{"aA|a|a|AA", "d", 1, "mmsc", nil},
		{"ab|a|b|AA", "D", 1, "mmsc-f", []uint64{0, 1}},
	}
	for i, d := range deep {
		d := d
		props := []string{"C01", "C02"}
		if d.kind[0] == 'h' || d.kind[0] == 'm' {
			props = syncProps
		}
		bound := [2]int{2, 3}
		if i < 6 {
			bound = [2]int{3, 4}
		}
		syncScenario(fmt.Sprintf("sync-deep-%02d", i), props, bound, [2]int{1, 2}, d.offs, func(r *mc.R) syncCfg {
			return syncCfg{kind: d.kind, readers: d.readers, inactive: d.inactive, program: d.prog}
		})
	}

	// All small programs of a family, with fewer preemptions.
	syncScenario("sync-family-1", []string{"C01", "C02"}, [2]int{1, 2}, [2]int{0, 1}, nil, func(r *mc.R) syncCfg {
		c := syncCfg{kind: pickT(r, 1, "counter", "updown-f"), readers: pick(r, "d", "c")}
		c.inactive = []uint32{1, 2, 10}[r.Choose(2)]
		c.program = pickT(r, 3, "", "aA", "aAA", "a") + "|" + pick(r, "a", "aa", "ab") + "|" + pickT(r, 3, "A", "a", "b", "aA") + "|" + pickT(r, 2, "A", "AA", "AAA")
		return c
	})
	syncScenario("sync-family-2", []string{"C01", "C02"}, [2]int{1, 2}, [2]int{-1, 1}, nil, func(r *mc.R) syncCfg {
		c := syncCfg{kind: "counter-k", readers: pickT(r, 2, "dc", "cD", "dd", "DC")}
		c.inactive = []uint32{1, 2}[r.Choose(2)]
		c.program = pickT(r, 2, "", "aAB", "a", "aA") + "|" + pickT(r, 2, "aa", "ab", "a") + "|" + pickT(r, 2, "A", "AB", "B", "BA") + "|" + pickT(r, 2, "B", "BB", "BBB")
		return c
	})
	syncScenario("sync-family-3", syncProps, [2]int{1, 2}, [2]int{-1, 1}, nil, func(r *mc.R) syncCfg {
		c := syncCfg{kind: pick(r, "histogram", "mmsc", "histogram-fk", "mmsc-k"), readers: pickT(r, 2, "c", "D", "d", "C")}
		c.inactive = []uint32{1, 2}[r.Choose(2)]
		c.program = pickT(r, 2, "", "aA", "a") + "|" + pick(r, "a", "ab") + "|" + pickT(r, 2, "A", "a", "b") + "|" + pick(r, "A", "AA")
		return c
	})
	// Same fingerprint, different attribute sets.
	syncScenario("sync-collide", []string{"C01", "C02", "C05"}, [2]int{1, 2}, [2]int{0, 1}, nil, func(r *mc.R) syncCfg {
		c := syncCfg{kind: pickT(r, 1, "counter", "counter-k"), readers: pick(r, "d", "c"), collide: true}
		c.inactive = []uint32{1, 2}[r.Choose(2)]
		c.program = pickT(r, 3, "", "abA", "aAbA", "a", "ab", "aAb") + "|" + pickT(r, 2, "ab", "b", "a") + "|" + pickT(r, 2, "b", "ba", "a") + "|" + pick(r, "A", "AA")
		return c
	})
}
