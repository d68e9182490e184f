package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"

	histostruct "github.com/lightstep/go-expohisto/structure"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/viewstate"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

// C10, C11: a reference model of views and hints.

type vhint struct {
	raw   string // the description, when it is not built from the fields
	bad   bool   // raw does not parse
	desc  string
	agg   string
	tempo string
	size  int32
	limit uint32
}

func (h *vhint) text() string {
	if h.raw != "" {
		return h.raw
	}
	m := map[string]interface{}{}
	if h.desc != "" {
		m["description"] = h.desc
	}
	if h.agg != "" {
		m["aggregation"] = h.agg
	}
	if h.tempo != "" {
		m["temporality"] = h.tempo
	}
	cfg := map[string]interface{}{}
	if h.size != 0 {
		cfg["histogram"] = map[string]interface{}{"max_size": h.size}
	}
	if h.limit != 0 {
		cfg["cardinality_limit"] = h.limit
	}
	if len(cfg) != 0 {
		m["config"] = cfg
	}
	b, _ := json.Marshal(m)
	return string(b)
}

type vinst struct {
	name       string
	kind       sdkinstrument.Kind
	float      bool
	desc, unit string
	hint       *vhint
}

func (i vinst) String() string {
	d := i.desc
	if i.hint != nil {
		d = i.hint.text()
	}
	return fmt.Sprintf("%s %v float=%v desc=%q unit=%q", i.name, i.kind, i.float, d, i.unit)
}

func (i vinst) description() string {
	if i.hint != nil {
		return i.hint.text()
	}
	return i.desc
}

type vmatch struct {
	text string
	opts func() []view.ClauseOption
	is   func(vinst) bool
}

type vprop struct {
	text   string
	opts   []view.ClauseOption
	rename func(string) string
	desc   string
	keys   *[]string
	agg    aggregation.Kind
	limit  uint32 // with size: the whole configuration
	size   int32
}

type vclause struct {
	m *vmatch
	p *vprop
}

func cl(o ...view.ClauseOption) func() []view.ClauseOption {
	return func() []view.ClauseOption { return o }
}

var vmatches = []vmatch{
	{"all", cl(), func(vinst) bool { return true }},
	{"name a", cl(view.MatchInstrumentName("a")), func(i vinst) bool { return i.name == "a" }},
	{"kind counter", cl(view.MatchInstrumentKind(sdkinstrument.SyncCounter)), func(i vinst) bool { return i.kind == sdkinstrument.SyncCounter }},
	{"float", cl(view.MatchNumberKind(number.Float64Kind)), func(i vinst) bool { return i.float }},
	{"name b", cl(view.MatchInstrumentName("b")), func(i vinst) bool { return i.name == "b" }},
	{"regexp ^[ac]$", cl(view.MatchInstrumentNameRegexp(regexp.MustCompile("^[ac]$"))), func(i vinst) bool { return i.name == "a" || i.name == "c" }},
	{"kind async gauge", cl(view.MatchInstrumentKind(sdkinstrument.AsyncGauge)), func(i vinst) bool { return i.kind == sdkinstrument.AsyncGauge }},
	{"library m", cl(view.MatchInstrumentationLibrary(instrumentation.Scope{Name: "m"})), func(vinst) bool { return true }},
	{"library m version 2", cl(view.MatchInstrumentationLibrary(instrumentation.Scope{Name: "m", Version: "2"})), func(vinst) bool { return false }},
	{"name a, regexp ^b$", cl(view.MatchInstrumentName("a"), view.MatchInstrumentNameRegexp(regexp.MustCompile("^b$"))), func(i vinst) bool { return i.name == "a" }},
	{"int counter", cl(view.MatchNumberKind(number.Int64Kind), view.MatchInstrumentKind(sdkinstrument.SyncCounter)), func(i vinst) bool { return !i.float && i.kind == sdkinstrument.SyncCounter }},
	{"library version 1, schema s", cl(view.MatchInstrumentationLibrary(instrumentation.Scope{Version: "1", SchemaURL: "s"})), func(vinst) bool { return true }},
	{"library schema t", cl(view.MatchInstrumentationLibrary(instrumentation.Scope{SchemaURL: "t"})), func(vinst) bool { return false }},
}

func aggProp(k aggregation.Kind) vprop {
	p := vprop{text: fmt.Sprint("aggregation ", k), opts: []view.ClauseOption{view.WithAggregation(k)}, agg: k}
	if !k.Valid() {
		p.agg = aggregation.UndefinedKind
	}
	return p
}

func keyList(k ...string) *[]string { return &k }

func keyOpt(k ...string) view.ClauseOption {
	l := []attribute.Key{}
	for _, x := range k {
		l = append(l, attribute.Key(x))
	}
	return view.WithKeys(l)
}

func constName(n string) func(string) string { return func(string) string { return n } }

var vprops = []vprop{
	{text: "nothing"},
	{text: "name z", opts: []view.ClauseOption{view.WithName("z")}, rename: constName("z")},
	{text: "keys k", opts: []view.ClauseOption{keyOpt("k")}, keys: keyList("k")},
	aggProp(aggregation.DropKind),
	aggProp(aggregation.NonMonotonicSumKind),
	aggProp(aggregation.HistogramKind),
	{text: "limit 2", opts: []view.ClauseOption{view.WithAggregatorConfig(aggregator.Config{CardinalityLimit: 2})}, limit: 2, size: 160},
	{text: "size 4", opts: []view.ClauseOption{view.WithAggregatorConfig(aggregator.Config{Histogram: histostruct.NewConfig(histostruct.WithMaxSize(4))})}, limit: 50, size: 4},
	{text: "description", opts: []view.ClauseOption{view.WithDescription("view description")}, desc: "view description"},
	{text: "name z, keys k", opts: []view.ClauseOption{view.WithName("z"), keyOpt("k")}, rename: constName("z"), keys: keyList("k")},
	{text: "name z, monotonic sum", opts: []view.ClauseOption{view.WithName("z"), view.WithAggregation(aggregation.MonotonicSumKind)}, rename: constName("z"), agg: aggregation.MonotonicSumKind},
	{text: "no keys", opts: []view.ClauseOption{keyOpt()}, keys: keyList()},
	aggProp(aggregation.MonotonicSumKind),
	aggProp(aggregation.AnySumKind),
	aggProp(aggregation.MinMaxSumCountKind),
	aggProp(aggregation.GaugeKind),
	{text: "rename p_", opts: []view.ClauseOption{view.WithRenameFunction(func(s string) string { return "p_" + s })}, rename: func(s string) string { return "p_" + s }},
	{text: "keys x,k", opts: []view.ClauseOption{keyOpt("x", "k")}, keys: keyList("k", "x")},
	aggProp(aggregation.Kind(99)),
	{text: "keys y", opts: []view.ClauseOption{keyOpt("y")}, keys: keyList("y")},
}

// vreader is a reader's configuration.
type vreader struct {
	tempo   func(sdkinstrument.Kind) aggregation.Temporality
	agg     func(sdkinstrument.Kind) aggregation.Kind
	limit   uint32
	size    int32
	clauses []vclause

	raw []view.Option // in place of the defaults
	bad bool          // the raw options hold an error
}

const perfLimit = 50

func vdefaults(i int) vreader {
	switch i {
	case 0:
		return vreader{tempo: cumulSel, agg: refStandard, limit: perfLimit, size: 160}
	case 1:
		return vreader{tempo: deltaSel, agg: refStandard, limit: 2, size: 5}
	}
	return vreader{
		tempo: func(k sdkinstrument.Kind) aggregation.Temporality {
			if k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram || k == sdkinstrument.AsyncGauge {
				return aggregation.DeltaTemporality
			}
			return aggregation.CumulativeTemporality
		},
		agg: func(k sdkinstrument.Kind) aggregation.Kind {
			switch k {
			case sdkinstrument.SyncHistogram:
				return aggregation.MinMaxSumCountKind
			case sdkinstrument.AsyncUpDownCounter:
				return aggregation.DropKind
			}
			return refStandard(k)
		},
		limit: perfLimit, size: 160,
	}
}

func (v vreader) options() []view.Option {
	o := []view.Option{
		view.WithDefaultAggregationTemporalitySelector(v.tempo),
		view.WithDefaultAggregationKindSelector(v.agg),
	}
	if v.limit != perfLimit || v.size != 160 {
		o = append(o, view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) {
			c := aggregator.Config{Histogram: histostruct.NewConfig(histostruct.WithMaxSize(v.size)), CardinalityLimit: v.limit}
			return c, c
		}))
	}
	if v.raw != nil {
		o = append([]view.Option{}, v.raw...)
	}
	for _, c := range v.clauses {
		o = append(o, view.WithClause(append(append([]view.ClauseOption{}, c.m.opts()...), c.p.opts...)...))
	}
	return o
}

func refStandard(k sdkinstrument.Kind) aggregation.Kind {
	switch k {
	case sdkinstrument.SyncHistogram:
		return aggregation.HistogramKind
	case sdkinstrument.SyncGauge, sdkinstrument.AsyncGauge:
		return aggregation.GaugeKind
	case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
		return aggregation.NonMonotonicSumKind
	}
	return aggregation.MonotonicSumKind
}

// sensible is the table of pairings that make sense.
func sensible(k sdkinstrument.Kind, a aggregation.Kind) bool {
	switch a {
	case aggregation.MonotonicSumKind:
		return k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram || k == sdkinstrument.AsyncCounter
	case aggregation.NonMonotonicSumKind:
		return k != sdkinstrument.SyncGauge && k != sdkinstrument.AsyncGauge
	case aggregation.HistogramKind, aggregation.MinMaxSumCountKind:
		return k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram
	case aggregation.GaugeKind:
		return k == sdkinstrument.SyncGauge || k == sdkinstrument.AsyncGauge
	}
	return false
}

// vout is one expected output.
type vout struct {
	name, unit string
	float      bool
	sync       bool
	agg        aggregation.Kind
	keys       string // "*" for all
	limit      uint32
	size       int32
	delta      bool
}

type vleaf struct {
	vout
	kind  sdkinstrument.Kind
	desc  string
	insts []int
}

type vbehavior struct {
	vout
	desc     string
	semantic bool
}

// errUnspecified says that the statement does not cover a combination.
var errUnspecified = errors.New("unspecified")

// behaviors is what the reader makes of one instrument; hintErrs counts the
// problems the hint has.
func (v vreader) behaviors(i vinst) (out []vbehavior, hintErrs int, err error) {
	agg, delta, limit, size, desc := v.agg(i.kind), v.tempo(i.kind) == aggregation.DeltaTemporality, v.limit, v.size, i.desc
	hinted, hintAgg := false, false
	if h := i.hint; h != nil {
		desc = h.desc
		if h.bad {
			hintErrs++
			desc = h.raw
		} else {
			hinted = true
			if h.agg != "" {
				switch strings.ToLower(h.agg) {
				case "drop":
					agg, hintAgg = aggregation.DropKind, true
				case "sum":
					agg, hintAgg = aggregation.AnySumKind, true
				case "monotonic_sum":
					agg, hintAgg = aggregation.MonotonicSumKind, true
				case "nonmonotonic_sum":
					agg, hintAgg = aggregation.NonMonotonicSumKind, true
				case "gauge":
					agg, hintAgg = aggregation.GaugeKind, true
				case "histogram", "exponential_histogram":
					agg, hintAgg = aggregation.HistogramKind, true
				case "minmaxsumcount":
					agg, hintAgg = aggregation.MinMaxSumCountKind, true
				default:
					hintErrs++
				}
			}
			switch strings.ToLower(h.tempo) {
			case "":
			case "delta":
				delta = true
			case "cumulative":
				delta = false
			default:
				hintErrs++
			}
			switch {
			case h.size == 0:
			case h.size < 0:
				hintErrs++
				size = 160
			case h.size < 2:
				hintErrs++
				size = 2
			case h.size > 16384:
				hintErrs++
				size = 16384
			default:
				size = h.size
			}
			if h.limit != 0 {
				limit = h.limit
			}
		}
	}
	add := func(c *vprop) {
		b := vbehavior{vout: vout{name: i.name, unit: i.unit, float: i.float, sync: i.kind.Synchronous(), agg: agg, keys: "*", limit: limit, size: size, delta: delta}, desc: desc}
		own := false
		if c != nil {
			if c.rename != nil {
				b.name = c.rename(b.name)
			}
			if c.desc != "" {
				b.desc = c.desc
			}
			if c.keys != nil {
				b.keys = strings.Join(*c.keys, ",")
			}
			if c.agg != aggregation.UndefinedKind {
				b.agg, own = c.agg, true
			}
			if c.limit != 0 {
				b.limit, b.size = c.limit, c.size
			}
		}
		if b.agg == aggregation.DropKind {
			if c != nil && !own && !hintAgg {
				// The reader's default is to drop, but a clause
				// matches and says nothing about it.
				err = errUnspecified
			}
			return
		}
		if b.agg == aggregation.AnySumKind {
			switch i.kind {
			case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram, sdkinstrument.AsyncCounter:
				b.agg = aggregation.MonotonicSumKind
			case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
				b.agg = aggregation.NonMonotonicSumKind
			}
		}
		if !sensible(i.kind, b.agg) {
			asyncHist := !b.sync && (b.agg == aggregation.HistogramKind || b.agg == aggregation.MinMaxSumCountKind)
			if b.agg != aggregation.AnySumKind && !asyncHist && hinted {
				if !hintAgg || own {
					err = errUnspecified
				}
				// An explicit hint may pair anything.
			} else {
				b.semantic = true
				b.agg = refStandard(i.kind)
			}
		}
		if b.agg == aggregation.GaugeKind && !b.sync {
			b.delta = false
		}
		out = append(out, b)
	}
	matched, dropped := false, true
	for _, c := range v.clauses {
		if c.m.is(i) {
			matched = true
			dropped = dropped && c.p.agg == aggregation.DropKind
			add(c.p)
		}
	}
	if !matched {
		add(nil)
	} else if dropped {
		// Nothing needs the hint.
		hintErrs = 0
	}
	return
}

type vmodel struct {
	v      vreader
	leaves []*vleaf
}

type vconflict struct {
	dups     int
	semantic bool
}

// create applies one instrument creation.
func (m *vmodel) create(idx int, i vinst) (conf []vconflict, hintErrs int, err error) {
	bs, hintErrs, err := m.v.behaviors(i)
	for _, b := range bs {
		var leaf *vleaf
		for _, l := range m.leaves {
			if l.vout == b.vout {
				leaf = l
			}
		}
		if leaf == nil {
			leaf = &vleaf{vout: b.vout, kind: i.kind, desc: b.desc}
			m.leaves = append(m.leaves, leaf)
		} else if len(b.desc) > len(leaf.desc) {
			leaf.desc = b.desc
		}
		dups := 0
		for _, l := range m.leaves {
			if l.name == leaf.name {
				dups++
			}
		}
		if dups > 1 || b.semantic {
			conf = append(conf, vconflict{dups, b.semantic})
		}
		have := false
		for _, x := range leaf.insts {
			have = have || x == idx
		}
		if !have {
			leaf.insts = append(leaf.insts, idx)
		}
	}
	return
}

func conflictString(c []vconflict) string {
	var l []string
	for _, x := range c {
		l = append(l, fmt.Sprintf("%d duplicates semantic=%v", x.dups, x.semantic))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func conflictsOf(r *mc.R, prop string, err error) map[string]string {
	out := map[string]string{}
	if err == nil {
		return out
	}
	var ve viewstate.ViewConflictsError
	if !errors.As(err, &ve) {
		r.Failf(prop, "creation error is %T %v, not a conflict", err, err)
	}
	if err.Error() == "" {
		r.Failf(prop, "empty error text")
	}
	for rd, l := range ve {
		var c []vconflict
		for _, x := range l {
			d := len(x.Duplicates)
			c = append(c, vconflict{d, x.Semantic != nil})
			if x.Error() == "" {
				r.Failf(prop, "empty conflict text")
			}
		}
		out[rd] = conflictString(c)
	}
	return out
}

var vattrs = [][]attribute.KeyValue{
	{attribute.Int("k", 1), attribute.Int("x", 1)},
	{attribute.Int("k", 1), attribute.Int("x", 2)},
	{attribute.Int("k", 2), attribute.Int("x", 1)},
}

// vvalue is what instrument i records for attribute list a.
func vvalue(i, a int) float64 { return float64(int64(1) << uint(3*i+a*7)) }

// runViews creates the instruments with two readers (the configured one and
// one without clauses), uses each, and compares everything with the model.
func runViews(r *mc.R, prop string, v vreader, insts []vinst, second bool) {
	cfgs := []vreader{v}
	if second {
		cfgs = append(cfgs, vdefaults(0))
	}
	if r.Keeping() {
		for _, c := range v.clauses {
			r.Logf("clause: %s -> %s", c.m.text, c.p.text)
		}
		for _, i := range insts {
			r.Logf("instrument: %v", i)
		}
	}
	var models []*vmodel
	var rds []*metric.ManualReader
	var opts []metric.Option
	for n, c := range cfgs {
		models = append(models, &vmodel{v: c})
		rd := metric.NewManualReader(fmt.Sprint("rd", n))
		rds = append(rds, rd)
		opts = append(opts, metric.WithReader(rd, c.options()...))
	}
	sink.take()
	p := newProvider(sdkinstrument.Performance{AggregatorCardinalityLimit: perfLimit}, opts...)
	if errs := sink.take(); v.raw != nil && v.bad != (len(errs) != 0) {
		r.Failf(prop, "errors of the reader's defaults: %v, reported: %v", v.bad, errs)
	}
	m := p.Meter("m", apimetric.WithInstrumentationVersion("1"), apimetric.WithSchemaURL("s"))
	sink.take()
	made := make([]kinst, len(insts))
	create := func(n int) kinst {
		i := insts[n]
		// The same descriptor gives the same instrument.
		idx := n
		for k := 0; k < n; k++ {
			if insts[k] == i {
				idx = k
				break
			}
		}
		k, err := mkInst(m, i.name, i.kind, i.float, pathSet, i.description(), i.unit)
		got := conflictsOf(r, prop, err)
		errs := len(sink.take())
		hintErrs := 0
		for c, mod := range models {
			conf, he, uerr := mod.create(idx, i)
			if uerr != nil {
				return k
			}
			hintErrs += he
			rd := fmt.Sprint("rd", c)
			if w := conflictString(conf); got[rd] != w {
				r.Failf(prop, "creating %v: reader %d reports conflicts [%s], want [%s]", i, c, got[rd], w)
			}
		}
		if hintErrs > 0 && errs == 0 {
			r.Failf(prop, "creating %v: the invalid hint was not reported", i)
		}
		if hintErrs == 0 && err == nil && errs != 0 {
			r.Failf(prop, "creating %v: %d errors reported for a valid instrument", i, errs)
		}
		return k
	}
	for _, i := range insts {
		for _, c := range cfgs {
			if _, _, err := c.behaviors(i); err != nil {
				r.Cover("unspecified")
				return
			}
		}
	}
	for n := range insts {
		made[n] = create(n)
	}
	// Creating the first again changes nothing.
	again := create(0)
	if again.any != made[0].any {
		r.Failf(prop, "creating %v again gives another instrument", insts[0])
	}
	uniq := func(n int) bool {
		for k := 0; k < n; k++ {
			if insts[k] == insts[n] {
				return false
			}
		}
		return true
	}
	for n := range insts {
		n := n
		if !uniq(n) {
			continue
		}
		k := made[n]
		if k.rec != nil {
			for a := range vattrs {
				k.rec(bg, vvalue(n, a), vattrs[a])
			}
			continue
		}
		_, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			for a := range vattrs {
				k.observe(o, vvalue(n, a), vattrs[a])
			}
			return nil
		}, k.obs)
		if err != nil {
			r.Failf(prop, "registering a callback for %v: %v", insts[n], err)
		}
	}
	for c, mod := range models {
		pts := rds[c].Produce(nil)
		mod.compare(r, prop, c, pts)
	}
}

func (m *vmodel) compare(r *mc.R, prop string, rd int, out data.Metrics) {
	if r.Keeping() {
		r.Logf("reader %d:\n%s", rd, render(pointsOf(out)))
	}
	// One list of points per output metric; metrics without points are
	// not told from metrics that are not there.
	var outs [][]Point
	for i := range out.Scopes {
		for j := range out.Scopes[i].Instruments {
			in := &out.Scopes[i].Instruments[j]
			var l []Point
			for k := range in.Points {
				l = append(l, pointOf(out.Scopes[i].Library.Name, in.Descriptor, &in.Points[k]))
			}
			if len(l) != 0 {
				outs = append(outs, l)
			}
		}
	}
	used := make([]bool, len(outs))
leaves:
	for _, l := range m.leaves {
		series := map[string][]float64{}
		for _, n := range l.insts {
			for a, kvs := range vattrs {
				s := attribute.NewSet(append([]attribute.KeyValue(nil), kvs...)...)
				if l.keys != "*" {
					s, _ = s.Filter(func(kv attribute.KeyValue) bool {
						for _, k := range strings.Split(l.keys, ",") {
							if k == string(kv.Key) {
								return true
							}
						}
						return false
					})
				}
				key := attrString(s)
				series[key] = append(series[key], vvalue(n, a))
			}
		}
		why := ""
		for i, pts := range outs {
			if used[i] || pts[0].Name != l.name {
				continue
			}
			w := l.mismatch(pts, series)
			if w == "" {
				used[i] = true
				continue leaves
			}
			why += "; " + w
		}
		r.Failf(prop, "reader %d: no metric fits output %+v desc %q with %v%s:\n%s", rd, l.vout, l.desc, series, why, render(pointsOf(out)))
		return
	}
	for i := range used {
		if !used[i] {
			r.Failf(prop, "reader %d: unexpected metric %v", rd, outs[i])
		}
	}
}

// mismatch says why the points are not those of the output, or nothing.
func (l *vleaf) mismatch(pts []Point, series map[string][]float64) string {
	overflow := len(series) >= int(l.limit)
	want := len(series)
	if overflow {
		want = int(l.limit)
	}
	nk := number.Int64Kind
	if l.float {
		nk = number.Float64Kind
	}
	seen := map[string]bool{}
	var total, wtotal float64
	for _, p := range pts {
		switch {
		case p.Unit != l.unit:
			return "unit"
		case p.NK != nk:
			return "number kind"
		case p.Agg != l.agg:
			return "aggregation"
		case p.Mono != (l.agg == aggregation.MonotonicSumKind):
			return "monotonicity"
		case p.Kind.Synchronous() != l.sync:
			return "synchronousness"
		case p.Desc != l.desc:
			return "description"
		case (p.Tempo == aggregation.DeltaTemporality) != l.delta:
			return "temporality"
		case seen[p.Attrs]:
			return "a series twice"
		}
		seen[p.Attrs] = true
		total += p.Val
		if !fits(p, l, series, overflow) {
			return "point " + p.String()
		}
	}
	if len(pts) != want {
		return "number of series"
	}
	for _, vs := range series {
		for _, v := range vs {
			wtotal += v
		}
	}
	if l.agg != aggregation.GaugeKind && total != wtotal {
		return "total"
	}
	return ""
}

func fits(p Point, l *vleaf, series map[string][]float64, overflow bool) bool {
	vals, has := series[p.Attrs]
	if !has {
		return overflow && p.Attrs == overflowKey
	}
	var sum float64
	lo, hi := vals[0], vals[0]
	for _, v := range vals {
		sum += v
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	switch p.Agg {
	case aggregation.GaugeKind:
		if l.sync && !overflow {
			// All sets are in sequence: the last one wins.
			last := 0.0
			for _, v := range vals {
				last = v
			}
			return p.Val == last
		}
		for _, v := range vals {
			if v == p.Val {
				return true
			}
		}
		return false
	case aggregation.MinMaxSumCountKind:
		return p.Val == sum && p.Count == uint64(len(vals)) && p.Min == lo && p.Max == hi
	case aggregation.HistogramKind:
		if p.Val != sum || p.Count != uint64(len(vals)) || p.Min != lo || p.Max != hi || histProblem(p, vals) != "" {
			return false
		}
		if len(p.Pos) > int(l.size) {
			return false
		}
		// The scale is the best the size allows; the reference is
		// the largest scale at which the values span no more than
		// size buckets.
		return len(vals) == 1 || p.Scale == bestScale(lo, hi, l.size)
	}
	return p.Val == sum
}

func bestScale(lo, hi float64, size int32) int32 {
	for s := int32(20); s > -10; s-- {
		a, _ := indexRange(lo, s)
		b, _ := indexRange(hi, s)
		if b-a < size {
			return s
		}
	}
	return -10
}

var vtable = []vinst{
	{"a", sdkinstrument.SyncCounter, false, "", "", nil},
	{"a", sdkinstrument.SyncCounter, true, "", "", nil},
	{"a", sdkinstrument.SyncCounter, false, "short", "", nil},
	{"a", sdkinstrument.SyncCounter, false, "longer", "", nil},
	{"a", sdkinstrument.SyncCounter, false, "", "ms", nil},
	{"a", sdkinstrument.SyncUpDownCounter, false, "", "", nil},
	{"a", sdkinstrument.SyncHistogram, false, "", "", nil},
	{"a", sdkinstrument.SyncHistogram, true, "", "", nil},
	{"a", sdkinstrument.SyncGauge, false, "", "", nil},
	{"a", sdkinstrument.AsyncCounter, false, "", "", nil},
	{"a", sdkinstrument.AsyncUpDownCounter, false, "", "", nil},
	{"a", sdkinstrument.AsyncGauge, false, "", "", nil},
	{"b", sdkinstrument.SyncCounter, false, "short", "", nil},
	{"b", sdkinstrument.SyncUpDownCounter, false, "", "", nil},
	{"b", sdkinstrument.SyncHistogram, false, "", "", nil},
	{"b", sdkinstrument.SyncGauge, false, "", "", nil},
	{"b", sdkinstrument.AsyncCounter, false, "", "", nil},
	{"b", sdkinstrument.AsyncGauge, false, "", "", nil},
	{"b", sdkinstrument.AsyncGauge, true, "", "", nil},
	{"b", sdkinstrument.AsyncUpDownCounter, true, "", "", nil},
	{"A", sdkinstrument.SyncCounter, false, "", "", nil},
	{"a", sdkinstrument.SyncCounter, false, " a description longer than any other ", "", nil},
	{"a", sdkinstrument.SyncCounter, false, "", "MS", nil},
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "views-one", Props: []string{"C10"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			v := vdefaults(r.Choose(3))
			inst := vinst{name: "a", kind: allKinds[r.Choose(7)], float: r.ChooseBool(), desc: "d"}
			if !inst.float {
				inst.desc = " a description longer than any other "
			}
			v.clauses = append(v.clauses, vclause{&vmatches[r.Choose(len(vmatches))], &vprops[r.Choose(len(vprops))]})
			n := 3
			if r.Thorough {
				n = len(vmatches)
			}
			if k := r.Choose(n + 1); k > 0 {
				v.clauses = append(v.clauses, vclause{&vmatches[k-1], &vprops[r.Choose(len(vprops))]})
			}
			runViews(r, "C10", v, []vinst{inst}, false)
		},
	})
	mc.Register(&mc.Scenario{
		Name: "views-two", Props: []string{"C10"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			v := vdefaults(r.Choose(3))
			nm := 6
			if r.Thorough {
				nm = len(vmatches)
			}
			if r.ChooseBool() {
				v.clauses = append(v.clauses, vclause{&vmatches[r.Choose(nm)], &vprops[r.Choose(len(vprops))]})
				if r.Thorough && r.ChooseBool() {
					v.clauses = append(v.clauses, vclause{&vmatches[r.Choose(3)], &vprops[r.Choose(12)]})
				}
			}
			runViews(r, "C10", v, []vinst{vtable[r.Choose(len(vtable))], vtable[r.Choose(len(vtable))]}, true)
		},
	})
	mc.Register(&mc.Scenario{
		Name: "views-three", Props: []string{"C10"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			v := vdefaults(r.Choose(3))
			if k := r.Choose(3); k == 1 {
				v.clauses = append(v.clauses, vclause{&vmatches[0], &vprops[1]})
			} else if k == 2 {
				v.clauses = append(v.clauses, vclause{&vmatches[1], &vprops[9]}, vclause{&vmatches[4], &vprops[1]})
			}
			n := len(vtable)
			runViews(r, "C10", v, []vinst{vtable[r.Choose(n)], vtable[r.Choose(n)], vtable[r.Choose(n)]}, false)
		},
	})
}

// viewsMany: one instrument with any number of outputs per reader.
func viewsMany(r *mc.R) {
	kind, float := allKinds[r.Choose(7)], r.ChooseBool()
	async := kind == sdkinstrument.AsyncCounter || kind == sdkinstrument.AsyncUpDownCounter || kind == sdkinstrument.AsyncGauge
	path := pathOpts
	if !async && kind != sdkinstrument.SyncGauge && r.ChooseBool() {
		path = pathKV
	}
	nr := 1 + r.Choose(3)
	var rds []*metric.ManualReader
	var opts []metric.Option
	var outs [][]string
	for i := 0; i < nr; i++ {
		rd := metric.NewManualReader(fmt.Sprint("r", i))
		vo := []view.Option{tempoOpt(false)}
		n := r.Choose(5) // 4: dropped
		names := []string{"a"}
		if n == 4 {
			names = nil
			vo = append(vo, view.WithClause(view.MatchInstrumentName("a"), view.WithAggregation(aggregation.DropKind)))
		} else if n > 0 {
			names = nil
			for k := 0; k < n; k++ {
				nm := fmt.Sprint("a", k)
				names = append(names, nm)
				vo = append(vo, view.WithClause(view.MatchInstrumentName("a"), view.WithName(nm)))
			}
		}
		rds, opts, outs = append(rds, rd), append(opts, metric.WithReader(rd, vo...)), append(outs, names)
	}
	p := newProvider(sdkinstrument.Performance{}, opts...)
	m := p.Meter("m")
	c, err := mkInst(m, "a", kind, float, path, "", "")
	if err != nil {
		r.Failf("C10", "creating: %v", err)
		return
	}
	if async {
		if _, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			c.observe(o, 5, nil)
			return nil
		}, c.obs); err != nil {
			r.Failf("C10", "registering: %v", err)
			return
		}
	} else {
		c.rec(bg, 5, nil)
	}
	for i, rd := range rds {
		var got []string
		for _, pt := range pointsOf(rd.Produce(nil)) {
			got = append(got, pt.Name)
			if pt.Val != 5 || pt.Kind != kind {
				r.Failf("C10", "reader %d of outputs %v: %v", i, outs, pt)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(outs[i]) {
			r.Failf("C10", "%v float %v, reader %d of outputs %v outputs %v", kind, float, i, outs, got)
		}
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "views-many", Props: []string{"C10"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0}, Body: viewsMany,
	})
}
