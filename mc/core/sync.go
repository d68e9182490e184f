package main

import (
	"fmt"
	"strings"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// A synchronous-instrument program is written as a string of operations:
// lower case letters record a measurement with attribute set a, b, ...;
// upper case letters collect with reader A, B, ...  Programs have a prelude
// and one string per thread: "aA|a|AB".

type upd struct {
	attr      int
	val       int64
	call, ret int64
}

type coll struct {
	reader    int
	call, ret int64
	pts       []Point
	seq       int
}

type syncRun struct {
	r       *mc.R
	kind    string // counter, updown, histogram, mmsc; with f for float, k for key-values
	twin    bool   // odd attributes go to a second instrument of the same metric
	delta   []bool
	readers []*metric.ManualReader
	record  func(val int64, attr int)
	attrs   func(attr int) []attribute.KeyValue
	upds    [][]upd
	colls   [][]coll
	nextID  int
	reuse   bool
	prior   []data.Metrics
	ids     map[string][]int
}

type syncCfg struct {
	kind     string
	readers  string // per reader: d or c; upper case adds a view keeping only key "k"
	inactive uint32
	program  string
	collide  bool
	alias    bool // attributes that look like the overflow one
	perf     sdkinstrument.Performance
}

// attributes: distinct sets; sets a,b,... carry key k with the same value 0
// for a/b, so that a view keeping only k merges them, and a distinct x.
func plainAttrs(i int) []attribute.KeyValue {
	return []attribute.KeyValue{attribute.Int("x", i), attribute.Int("k", 0)}
}

func aliasAttrs(i int) []attribute.KeyValue {
	if i == 3 {
		i = 6
	}
	return []attribute.KeyValue{overflowAliases[i]}
}

// collideAttrs produce the same fingerprint but different sets.
func collideAttrs(i int) []attribute.KeyValue {
	v := []int{1, 2}
	if i%2 == 1 {
		v = []int{2, 1}
	}
	return []attribute.KeyValue{attribute.IntSlice("x", v), attribute.Int("k", i/2)}
}

func newSyncRun(r *mc.R, c syncCfg) *syncRun {
	s := &syncRun{r: r, kind: c.kind, attrs: plainAttrs}
	if c.alias {
		s.attrs = aliasAttrs
	}
	if c.collide {
		s.attrs = collideAttrs
	}
	perf := c.perf
	perf.InactiveCollectionPeriods = c.inactive
	var opts []metric.Option
	for i, ch := range c.readers {
		rd := metric.NewManualReader(fmt.Sprint("rd", i))
		s.readers = append(s.readers, rd)
		delta := ch == 'd' || ch == 'D'
		s.delta = append(s.delta, delta)
		vo := []view.Option{tempoOpt(delta)}
		if ch == 'D' || ch == 'C' {
			vo = append(vo, view.WithClause(view.WithKeys([]attribute.Key{"k"})))
		}
		if strings.HasPrefix(c.kind, "mmsc") {
			vo = append(vo, view.WithDefaultAggregationKindSelector(func(k sdkinstrument.Kind) aggregation.Kind {
				if k == sdkinstrument.SyncHistogram {
					return aggregation.MinMaxSumCountKind
				}
				return view.StandardAggregationKind(k)
			}))
		}
		opts = append(opts, metric.WithReader(rd, vo...))
	}
	p := newProvider(perf, opts...)
	m := p.Meter("m")
	// Attribute sets are built up front, in canonical order.
	var kvs [8][]attribute.KeyValue
	var sets [8]attribute.Set
	for i := range kvs {
		sets[i] = attribute.NewSet(s.attrs(i)...)
		kvs[i] = sets[i].ToSlice()
	}
	flavor := ""
	if i := strings.IndexByte(c.kind, '-'); i >= 0 {
		flavor = c.kind[i+1:]
	}
	float := strings.Contains(flavor, "f")
	if s.twin = strings.Contains(flavor, "t"); s.twin {
		for i := range sets {
			kvs[i], sets[i] = kvs[0], sets[0]
		}
	}
	fast := strings.Contains(flavor, "k")
	switch strings.SplitN(c.kind, "-", 2)[0] {
	case "counter":
		if float {
			i, _ := m.Float64Counter("i")
			s.record = func(v int64, a int) {
				if fast {
					i.(bypass.FastFloat64Adder).AddWithKeyValues(bg, float64(v), kvs[a]...)
				} else {
					i.Add(bg, float64(v), apimetric.WithAttributeSet(sets[a]))
				}
			}
		} else {
			i, _ := m.Int64Counter("i")
			s.record = func(v int64, a int) {
				if fast {
					i.(bypass.FastInt64Adder).AddWithKeyValues(bg, v, kvs[a]...)
				} else {
					i.Add(bg, v, apimetric.WithAttributeSet(sets[a]))
				}
			}
		}
	case "updown":
		if float {
			i, _ := m.Float64UpDownCounter("i")
			s.record = func(v int64, a int) { i.Add(bg, float64(v), apimetric.WithAttributeSet(sets[a])) }
		} else {
			i, _ := m.Int64UpDownCounter("i")
			s.record = func(v int64, a int) { i.Add(bg, v, apimetric.WithAttributeSet(sets[a])) }
		}
	case "gauge":
		if float {
			i, _ := m.Float64Gauge("i")
			if s.twin {
				// Another instrument that reports into the same metric.
				i2, _ := m.Float64Gauge("i", apimetric.WithDescription("d"))
				s.record = func(v int64, a int) {
					[]apimetric.Float64Gauge{i, i2}[a%2].Record(bg, float64(v), apimetric.WithAttributeSet(sets[a]))
				}
				break
			}
			s.record = func(v int64, a int) { i.Record(bg, float64(v), apimetric.WithAttributeSet(sets[a])) }
		} else {
			i, _ := m.Int64Gauge("i")
			s.record = func(v int64, a int) { i.Record(bg, v, apimetric.WithAttributeSet(sets[a])) }
		}
	case "histogram", "mmsc":
		if float {
			i, _ := m.Float64Histogram("i")
			s.record = func(v int64, a int) {
				if fast {
					i.(bypass.FastFloat64Recorder).RecordWithKeyValues(bg, float64(v), kvs[a]...)
				} else {
					i.Record(bg, float64(v), apimetric.WithAttributeSet(sets[a]))
				}
			}
		} else {
			i, _ := m.Int64Histogram("i")
			s.record = func(v int64, a int) {
				if fast {
					i.(bypass.FastInt64Recorder).RecordWithKeyValues(bg, v, kvs[a]...)
				} else {
					i.Record(bg, v, apimetric.WithAttributeSet(sets[a]))
				}
			}
		}
	default:
		panic("kind " + c.kind)
	}
	return s
}

// do runs one thread's operations.  ids are assigned by the caller.
func (s *syncRun) do(slot int, ops string, id int) {
	for _, o := range ops {
		if o >= 'a' && o <= 'z' {
			u := upd{attr: int(o - 'a'), val: pow4(id)}
			id++
			u.call = vsched.Stamp()
			s.record(u.val, u.attr)
			u.ret = vsched.Stamp()
			s.upds[slot] = append(s.upds[slot], u)
		} else {
			c := coll{reader: int(o - 'A')}
			c.call = vsched.Stamp()
			m := s.readers[c.reader].Produce(nil)
			c.ret = vsched.Stamp()
			c.pts = pointsOf(m)
			s.colls[slot] = append(s.colls[slot], c)
		}
	}
}

func updates(ops string) int {
	n := 0
	for _, o := range ops {
		if o >= 'a' && o <= 'z' {
			n++
		}
	}
	return n
}

// run executes prelude, threads, and the final collection by every reader.
func (s *syncRun) run(program string) {
	parts := strings.Split(program, "|")
	s.upds = make([][]upd, len(parts)+1)
	s.colls = make([][]coll, len(parts)+1)
	id := 0
	s.do(0, parts[0], id)
	id += updates(parts[0])
	var fs []func()
	for i := 1; i < len(parts); i++ {
		i, id0 := i, id
		id += updates(parts[i])
		fs = append(fs, func() { s.do(i, parts[i], id0) })
	}
	s.nextID = id
	s.r.Par(fs...)
	fin := ""
	for i := range s.readers {
		fin += string(rune('A' + i))
	}
	s.do(len(parts), fin, id)
}

// outKey is the attribute set under which reader rd reports attr.
func (s *syncRun) outKey(rd int, filtered bool, attr int) string {
	if s.twin {
		attr = 0
	}
	set := attribute.NewSet(s.attrs(attr)...)
	if filtered {
		set, _ = set.Filter(func(kv attribute.KeyValue) bool { return kv.Key == "k" })
	}
	return attrString(set)
}

func (s *syncRun) describe() {
	if !s.r.Keeping() {
		return
	}
	for i, us := range s.upds {
		for _, u := range us {
			s.r.Logf("thread %d: record %d attr %c [%d,%d]", i, u.val, 'a'+u.attr, u.call, u.ret)
		}
	}
	for i, cs := range s.colls {
		for _, c := range cs {
			s.r.Logf("thread %d: collect reader %c [%d,%d]", i, 'A'+c.reader, c.call, c.ret)
			for _, p := range c.pts {
				s.r.Logf("    %v", p)
			}
		}
	}
}

// check evaluates the oracles of exactly-once (C01), visibility (C02) and
// point consistency (C03).
func (s *syncRun) check(c syncCfg) {
	s.describe()
	var all []upd
	for _, us := range s.upds {
		all = append(all, us...)
	}
	isHist := strings.HasPrefix(s.kind, "histogram") || strings.HasPrefix(s.kind, "mmsc")
	for rd := range s.readers {
		filtered := c.readers[rd] == 'D' || c.readers[rd] == 'C'
		delta := s.delta[rd]
		var cs []coll
		for _, l := range s.colls {
			for _, x := range l {
				if x.reader == rd {
					cs = append(cs, x)
				}
			}
		}
		// incl[i] is the sum of measurements that collection i reports, by key.
		keyOf := map[int]string{}
		keys := map[string]bool{}
		for _, u := range all {
			if _, ok := keyOf[u.attr]; !ok {
				keyOf[u.attr] = s.outKey(rd, filtered, u.attr)
				keys[keyOf[u.attr]] = true
			}
		}
		incl := make([]map[string]int64, len(cs))
		for i, x := range cs {
			incl[i] = map[string]int64{}
			seen := map[string]bool{}
			for _, p := range x.pts {
				if p.Name != "i" {
					s.r.Failf("C01", "unexpected metric %v", p)
					continue
				}
				if seen[p.Attrs] {
					s.r.Failf("C01", "reader %c: duplicate series {%s} in one collection", 'A'+rd, p.Attrs)
				}
				seen[p.Attrs] = true
				if !keys[p.Attrs] {
					s.r.Failf("C01", "reader %c: series {%s} was never recorded", 'A'+rd, p.Attrs)
				}
				want := aggregation.CumulativeTemporality
				if delta {
					want = aggregation.DeltaTemporality
				}
				if p.Tempo != want {
					s.r.Failf("C01", "reader %c: temporality %v, want %v", 'A'+rd, p.Tempo, want)
				}
				incl[i][p.Attrs] = int64(p.Val)
				if isHist {
					s.checkHist(p, keyOf, all)
				}
			}
		}
		final := len(cs) - 1
		for key := range keys {
			var total int64
			if delta {
				for i := range cs {
					total += incl[i][key]
				}
			} else {
				total = incl[final][key]
			}
			for _, u := range all {
				if keyOf[u.attr] != key {
					continue
				}
				total -= u.val
			}
			if total != 0 {
				s.r.Failf("C01", "reader %c series {%s}: reported total differs from recorded total by %d (base 4: lost %s)", 'A'+rd, key, total, base4(-total))
			}
		}
		// has says whether update j is counted n times in collection i.
		has := func(i int, u upd, j int) int64 { return digit(incl[i][keyOf[u.attr]], j) }
		for _, u := range all {
			j := log4(u.val)
			for i, x := range cs {
				n := has(i, u, j)
				if n > 1 {
					s.r.Failf("C01", "reader %c: measurement %d counted %d times in one collection", 'A'+rd, u.val, n)
				}
				if n > 0 && u.call > x.ret {
					s.r.Failf("C02", "reader %c: collection [%d,%d] reports a measurement made later [%d,%d]", 'A'+rd, x.call, x.ret, u.call, u.ret)
				}
				if u.ret < x.call {
					ok := n > 0
					if delta && !ok {
						for i2, y := range cs {
							if i2 != i && y.call < x.ret && has(i2, u, j) > 0 {
								ok = true
							}
						}
					}
					if !ok {
						s.r.Failf("C02", "reader %c: collection [%d,%d] misses measurement %d that completed at %d", 'A'+rd, x.call, x.ret, u.val, u.ret)
					}
				}
				if !delta {
					for i2, y := range cs {
						if x.ret < y.call && n > 0 && has(i2, u, j) == 0 {
							s.r.Failf("C02", "reader %c: cumulative total went backwards: measurement %d in [%d,%d] but not in [%d,%d]", 'A'+rd, u.val, x.call, x.ret, y.call, y.ret)
						}
					}
				}
			}
		}
	}
}

func (s *syncRun) checkHist(p Point, keyOf map[int]string, all []upd) {
	// The sum says exactly which measurements are in the point.
	var n uint64
	min, max := int64(-1), int64(-1)
	var in []float64
	for _, u := range all {
		if keyOf[u.attr] != p.Attrs || digit(int64(p.Val), log4(u.val)) == 0 {
			continue
		}
		n++
		in = append(in, float64(u.val))
		if min < 0 || u.val < min {
			min = u.val
		}
		if u.val > max {
			max = u.val
		}
	}
	if n == 0 {
		if p.Count != 0 {
			s.r.Failf("C03", "point %v has a count and no sum", p)
		}
		return
	}
	if p.Count != n || p.Min != float64(min) || p.Max != float64(max) {
		s.r.Failf("C03", "point %v: measurements in the sum are %d with min %d max %d", p, n, min, max)
	}
	if p.Agg == aggregation.HistogramKind {
		if msg := histProblem(p, in); msg != "" {
			s.r.Failf("C03", "%v: %s", p, msg)
		}
	}
}

func log4(v int64) int {
	i := 0
	for v > 1 {
		v >>= 2
		i++
	}
	return i
}

func base4(v int64) string {
	neg := ""
	if v < 0 {
		v, neg = -v, "-"
	}
	o := ""
	for ; v > 0; v >>= 2 {
		o = fmt.Sprint(v&3) + o
	}
	return neg + o
}

var _ = apimetric.WithAttributes
