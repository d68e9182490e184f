package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C14: identity of meters and instruments; provider lifecycle.

type scopeKey struct{ name, version, schema string }

var scopeTable = []scopeKey{
	{"m", "", ""}, {"m", "1", ""}, {"m", "", "1"}, {"m", "1", "1"}, {"n", "", ""}, {"", "", ""}, {"M", "", ""}, {"m1", "", ""},
}

func (s scopeKey) meter(p *metric.MeterProvider) apimetric.Meter {
	return p.Meter(s.name, apimetric.WithInstrumentationVersion(s.version), apimetric.WithSchemaURL(s.schema))
}

// collectScopes renders scope -> metric -> total.
func collectScopes(rd *metric.ManualReader) (map[string]float64, []string) {
	d := rd.Produce(nil)
	got := map[string]float64{}
	var order []string
	for i := range d.Scopes {
		s := &d.Scopes[i]
		key := fmt.Sprintf("%s|%s|%s", s.Library.Name, s.Library.Version, s.Library.SchemaURL)
		order = append(order, key)
		for j := range s.Instruments {
			in := &s.Instruments[j]
			k := key + "/" + in.Descriptor.Name
			if _, dup := got[k]; dup {
				got[k+"#dup"] = 1
			}
			for x := range in.Points {
				p := pointOf("", in.Descriptor, &in.Points[x])
				got[k] += p.Val
			}
		}
	}
	return got, order
}

func showMap(m map[string]float64) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

type fakeReader struct {
	*metric.ManualReader
	name     string
	r        *mc.R
	ctx      context.Context
	mu       sync.Mutex
	flushes  int
	shuts    int
	flushErr error
	shutErr  error
	produce  bool
	end      func()
}

type ctxMark struct{}

func (f *fakeReader) String() string { return f.name }

func (f *fakeReader) seen(ctx context.Context, n *int) {
	if ctx.Value(ctxMark{}) != "here" {
		f.r.Failf("C14", "reader %s called with another context", f.name)
	}
	f.mu.Lock()
	*n++
	f.mu.Unlock()
	vsched.Point(vsched.Always)
	if f.end != nil {
		// The context ends while this reader is at it.
		f.end()
	}
	if f.produce {
		// A reader collects in its flush and shutdown.
		f.Produce(nil)
	}
}

func (f *fakeReader) ForceFlush(ctx context.Context) error {
	f.seen(ctx, &f.flushes)
	return f.flushErr
}

func (f *fakeReader) Shutdown(ctx context.Context) error {
	f.seen(ctx, &f.shuts)
	return f.shutErr
}

func (f *fakeReader) counts() (int, int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.flushes, f.shuts
}

type lifeRun struct {
	r     *mc.R
	fs    []*fakeReader
	p     *metric.MeterProvider
	ctx   context.Context
	early apimetric.Int64Counter
	meter apimetric.Meter

	// ended is set when the context ends at some time.
	ended bool
}

func newLife(r *mc.R, n int, fail int) *lifeRun {
	l := &lifeRun{r: r, ctx: context.WithValue(bg, ctxMark{}, "here")}
	var opts []metric.Option
	for i := 0; i < n; i++ {
		f := &fakeReader{ManualReader: metric.NewManualReader("x"), name: fmt.Sprint("f", i), r: r, produce: true}
		if fail&(1<<i) != 0 {
			f.flushErr, f.shutErr = fmt.Errorf("flush error %d", i), fmt.Errorf("shutdown error %d", i)
		}
		l.fs = append(l.fs, f)
		opts = append(opts, metric.WithReader(f))
	}
	l.p = newProvider(sdkinstrument.Performance{}, opts...)
	l.meter = l.p.Meter("early")
	l.early, _ = l.meter.Int64Counter("c")
	return l
}

// errsAre checks that err carries exactly the errors of the failing readers.
func (l *lifeRun) errsAre(what string, err error, flush bool) {
	any := false
	for i, f := range l.fs {
		e := f.shutErr
		if flush {
			e = f.flushErr
		}
		if e == nil {
			continue
		}
		any = true
		if !errors.Is(err, e) {
			l.r.Failf("C14", "%s: the error of reader %d (%v) is missing from %v", what, i, e, err)
		}
	}
	if !any && err != nil && !l.ended {
		l.r.Failf("C14", "%s: no reader failed, but %v is returned", what, err)
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "meters", Props: []string{"C14"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			n := 4
			if r.Thorough {
				n = 5
			}
			rd := metric.NewManualReader("rd")
			p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd))
			want := map[string]float64{}
			var order []string
			first := map[scopeKey]apimetric.Meter{}
			for i := 0; i < n; i++ {
				s := scopeTable[r.Choose(len(scopeTable))]
				m := s.meter(p)
				for o, om := range first {
					if (o == s) != (om == m) {
						r.Failf("C14", "meters %+v and %+v: same=%v", o, s, om == m)
					}
				}
				if first[s] == nil {
					first[s] = m
				}
				c, err := m.Int64Counter("c")
				if err != nil {
					r.Failf("C14", "meter %+v: %v", s, err)
				}
				c.Add(bg, pow4(i))
				key := fmt.Sprintf("%s|%s|%s", s.name, s.version, s.schema)
				if _, has := want[key+"/c"]; !has {
					order = append(order, key)
				}
				want[key+"/c"] += float64(pow4(i))
				r.Logf("meter %+v", s)
			}
			got, gorder := collectScopes(rd)
			if showMap(got) != showMap(want) {
				r.Failf("C14", "collected %s, want %s", showMap(got), showMap(want))
			}
			sort.Strings(order)
			sort.Strings(gorder)
			if fmt.Sprint(order) != fmt.Sprint(gorder) {
				r.Failf("C14", "scopes %v, want %v", gorder, order)
			}
		},
	})
	// The same description asked for again, after others, is the same
	// instrument: both handles share one cardinality limit and one
	// callback registration.
	mc.Register(&mc.Scenario{
		Name: "instruments", Props: []string{"C14"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			kind := allKinds[r.Choose(len(allKinds))]
			float := r.ChooseBool()
			desc := pick(r, "", "d", "e")
			unit := pick(r, "", "u")
			between := r.Choose(9)
			rd := metric.NewManualReader("rd")
			var readers []metric.Option
			readers = append(readers, metric.WithReader(rd))
			if r.ChooseBool() {
				readers = append(readers, metric.WithReader(metric.NewManualReader("other"), tempoOpt(true)))
			}
			p := newProvider(sdkinstrument.Performance{InstrumentCardinalityLimit: 3, AggregatorCardinalityLimit: 100}, readers...)
			get := func() kinst {
				k, err := mkInst(p.Meter("m"), "i", kind, float, pathSet, desc, unit)
				if err != nil && between < 4 {
					r.Failf("C14", "creating: %v", err)
				}
				return k
			}
			a := get()
			switch between {
			case 1:
				_, _ = mkInst(p.Meter("m"), "i2", kind, float, pathSet, desc, unit)
			case 2:
				_, _ = mkInst(p.Meter("m2"), "i", kind, float, pathSet, desc, unit)
			case 3:
				_, _ = mkInst(p.Meter("m"), "i", kind, float, pathSet, desc+"longer", unit)
			case 4:
				_, _ = mkInst(p.Meter("m"), "i", kind, !float, pathSet, desc, unit)
			case 5:
				_, _ = mkInst(p.Meter("m"), "i", kind, float, pathSet, desc, unit+"x")
			case 6:
				_, _ = mkInst(p.Meter("m"), "i", allKinds[(int(kind)+1)%len(allKinds)], float, pathSet, desc, unit)
			case 7:
				_, _ = mkInst(p.Meter("m"), "i", sdkinstrument.AsyncGauge, float, pathSet, "zz", unit)
			case 8:
				_, _ = mkInst(p.Meter("m"), "I", kind, float, pathSet, desc, unit)
			}
			b := get()
			overflow := func() (string, bool) {
				pts := pointsOf(rd.Produce(nil))
				n := 0
				over := false
				for _, pt := range pts {
					if pt.Name == "i" && pt.Kind == kind && (pt.NK == 0) == !float {
						n++
						over = over || strings.Contains(pt.Attrs, "otel.metric.overflow")
					}
				}
				return render(pts), over
			}
			if kind.Synchronous() {
				a.rec(bg, 1, plainAttrs(0))
				a.rec(bg, 1, plainAttrs(1))
				b.rec(bg, 1, plainAttrs(2))
				b.rec(bg, 1, plainAttrs(3))
				if s, over := overflow(); !over {
					r.Failf("C14", "two handles of one instrument do not share its cardinality limit:\n%s", s)
				}
				return
			}
			// A callback declared with one handle may observe the other.
			x, y := a, b
			if r.ChooseBool() {
				x, y = b, a
			}
			_, err := p.Meter("m").RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				y.observe(o, 7, plainAttrs(0))
				return nil
			}, x.obs)
			if err != nil {
				r.Failf("C14", "registering: %v", err)
			}
			found := false
			for _, pt := range pointsOf(rd.Produce(nil)) {
				if pt.Name == "i" && pt.Val == 7 && pt.Kind == kind {
					found = true
				}
			}
			if !found {
				r.Failf("C14", "observation through the other handle is not reported")
			}
		},
	})
	// Concurrent creation: each goroutine obtains meter and instrument and
	// records; one may collect.
	for i, prog := range [][]string{{"m", "m"}, {"m", "m", "m"}, {"mn", "nm"}, {"m", "m", "C"}, {"mv", "vm"}, {"m", "n", "C"}, {"s", "s"}, {"a", "a", "C"}} {
		prog := prog
		b := [2]int{2, 3}
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("create-conc-%d", i), Props: []string{"C14"}, Bound: b, Race: [2]int{1, 2},
			Body: func(r *mc.R) {
				rd := metric.NewManualReader("rd")
				p := newProvider(sdkinstrument.Performance{InstrumentCardinalityLimit: 3, AggregatorCardinalityLimit: 100}, metric.WithReader(rd))
				var mu sync.Mutex
				want := map[string]float64{}
				handles := map[string][]interface{}{}
				shared := map[string]bool{}
				idx := 0
				var fs []func()
				for t, ops := range prog {
					t, ops := t, ops
					fs = append(fs, func() {
						for _, o := range []byte(ops) {
							s := scopeKey{"m", "", ""}
							switch o {
							case 'C':
								rd.Produce(nil)
								continue
							case 'n':
								s.name = "n"
							case 'v':
								s.version = "2"
							}
							m := s.meter(p)
							key := fmt.Sprintf("%s|%s|%s", s.name, s.version, s.schema)
							if o == 'a' {
								c, err := m.Int64ObservableCounter("c")
								if err != nil {
									r.Failf("C14", "creating: %v", err)
								}
								my := t
								_, err = m.RegisterCallback(func(_ context.Context, ob apimetric.Observer) error {
									ob.ObserveInt64(c, pow4(my), apimetric.WithAttributes(plainAttrs(my)...))
									return nil
								}, c)
								if err != nil {
									r.Failf("C14", "registering: %v", err)
								}
								mu.Lock()
								handles[key] = append(handles[key], c)
								want[key+"/c"] += float64(pow4(my))
								mu.Unlock()
								continue
							}
							c, err := m.Int64Counter("c")
							if err != nil {
								r.Failf("C14", "creating: %v", err)
							}
							mu.Lock()
							v := pow4(idx)
							idx++
							want[key+"/c"] += float64(v)
							handles[key] = append(handles[key], c)
							mu.Unlock()
							c.Add(bg, v, apimetric.WithAttributes(plainAttrs(t)...))
						}
					})
				}
				r.Par(fs...)
				for k, hs := range handles {
					for _, h := range hs[1:] {
						// Two instruments would not share a cardinality limit.
						c0, ok := hs[0].(apimetric.Int64Counter)
						if !ok {
							continue
						}
						c1 := h.(apimetric.Int64Counter)
						c0.Add(bg, 0, apimetric.WithAttributes(plainAttrs(5)...))
						c0.Add(bg, 0, apimetric.WithAttributes(plainAttrs(6)...))
						c1.Add(bg, 0, apimetric.WithAttributes(plainAttrs(7)...))
						c1.Add(bg, 0, apimetric.WithAttributes(plainAttrs(8)...))
					}
					if _, ok := hs[0].(apimetric.Int64Counter); ok && len(hs) > 1 {
						shared[k] = true
					}
				}
				for k := range shared {
					over := false
					d := rd.Produce(nil)
					for i := range d.Scopes {
						sc := &d.Scopes[i]
						if fmt.Sprintf("%s|%s|%s", sc.Library.Name, sc.Library.Version, sc.Library.SchemaURL) != k {
							continue
						}
						for j := range sc.Instruments {
							for x := range sc.Instruments[j].Points {
								over = over || strings.Contains(attrString(sc.Instruments[j].Points[x].Attributes), "otel.metric.overflow")
							}
						}
					}
					if !over {
						r.Failf("C14", "concurrent creation returned different instruments for %s: they do not share the cardinality limit", k)
					}
				}
				got, _ := collectScopes(rd)
				if showMap(got) != showMap(want) {
					r.Failf("C14", "collected %s, want %s", showMap(got), showMap(want))
				}
			},
		})
	}
	// Histories of flush, shutdown, meter, record.
	mc.Register(&mc.Scenario{
		Name: "life-seq", Props: []string{"C14"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			nr := r.Choose(4)
			fail := r.Choose(1 << nr)
			depth := 4
			if r.Thorough {
				depth = 6
			}
			l := newLife(r, nr, fail)
			if nr > 0 {
				// Every reader is called, whatever becomes of the context.
				switch pick(r, "live", "ended", "ends") {
				case "ended":
					ctx, cancel := context.WithCancel(l.ctx)
					cancel()
					l.ctx, l.ended = ctx, true
				case "ends":
					l.ctx, l.fs[0].end = context.WithCancel(l.ctx)
					l.ended = true
				}
			}
			shut := false
			total := int64(0)
			var lates []string
			for i := 0; i < depth; i++ {
				op := pick(r, "F", "S", "M", "r")
				r.Logf("%s", op)
				switch op {
				case "F":
					before := make([]int, nr)
					for k, f := range l.fs {
						before[k], _ = f.counts()
					}
					err := l.p.ForceFlush(l.ctx)
					if shut {
						continue // unspecified after Shutdown
					}
					for k, f := range l.fs {
						if n, _ := f.counts(); n != before[k]+1 {
							r.Failf("C14", "ForceFlush called reader %d %d times", k, n-before[k])
						}
					}
					l.errsAre("ForceFlush", err, true)
				case "S":
					before := make([]int, nr)
					for k, f := range l.fs {
						_, before[k] = f.counts()
					}
					err := l.p.Shutdown(l.ctx)
					wantN := 1
					if shut {
						wantN = 0
					}
					for k, f := range l.fs {
						if _, n := f.counts(); n-before[k] != wantN {
							r.Failf("C14", "Shutdown (again=%v) called reader %d %d times", shut, k, n-before[k])
						}
					}
					if shut {
						if err == nil {
							r.Failf("C14", "a second Shutdown returned no error")
						}
					} else {
						l.errsAre("Shutdown", err, false)
					}
					shut = true
				case "M":
					name := fmt.Sprint("late", i)
					if r.ChooseBool() {
						name = "early"
					}
					m := l.p.Meter(name)
					c, err := m.Int64Counter("late")
					if err != nil {
						r.Failf("C14", "creating an instrument: %v", err)
					}
					c.Add(bg, 1)
					g, err := m.Float64ObservableGauge("g" + name)
					if err != nil {
						r.Failf("C14", "creating an instrument: %v", err)
					}
					_, err = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
						if shut && name != "early" {
							// Registered before Shutdown, may run.
						}
						o.ObserveFloat64(g, 1)
						return nil
					}, g)
					if err != nil {
						r.Failf("C14", "registering: %v", err)
					}
					if shut {
						if m == l.meter {
							r.Failf("C14", "Meter after Shutdown returned a working meter")
						}
						lates = append(lates, name)
					}
				case "r":
					l.early.Add(bg, 1)
					total++
				}
			}
			for k, f := range l.fs {
				if f.Producer == nil {
					r.Failf("C14", "reader %d was not registered", k)
					continue
				}
				for _, pt := range pointsOf(f.Produce(nil)) {
					if pt.Scope == "early" && pt.Name == "c" && !shut && pt.Val != float64(total) {
						r.Failf("C14", "reader %d has %v of %d", k, pt.Val, total)
					}
					for _, n := range lates {
						if n != "early" && pt.Scope == n {
							r.Failf("C14", "meter %s obtained after Shutdown produced data", n)
						}
					}
				}
			}
		},
	})
	// Concurrent shutdown, flush, meter creation and recording.
	for i, prog := range [][]string{{"S", "S"}, {"S", "F"}, {"S", "M"}, {"S", "M", "r"}, {"S", "S", "M"}, {"F", "F", "r"}, {"S", "S", "F"}} {
		prog := prog
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("life-conc-%d", i), Props: []string{"C14"}, Bound: [2]int{2, 3}, Race: [2]int{1, 2},
			Body: func(r *mc.R) {
				l := newLife(r, 2, r.Choose(4))
				var mu sync.Mutex
				firsts, seconds, ns := 0, 0, 0
				var lastRet int64
				type made struct {
					name string
					call int64
				}
				var mades []made
				var shutRet int64
				var fs []func()
				for t, ops := range prog {
					t, ops := t, ops
					fs = append(fs, func() {
						for _, o := range []byte(ops) {
							switch o {
							case 'S':
								err := l.p.Shutdown(l.ctx)
								at := vsched.Stamp()
								mu.Lock()
								ns++
								if errors.Is(err, metric.ErrAlreadyShutdown) {
									seconds++
								} else {
									firsts++
									l.errsAre("Shutdown", err, false)
									shutRet = at
								}
								mu.Unlock()
							case 'F':
								l.errsAre("ForceFlush", l.p.ForceFlush(l.ctx), true)
							case 'M':
								at := vsched.Stamp()
								name := fmt.Sprint("late", t)
								c, err := l.p.Meter(name).Int64Counter("c")
								if err != nil {
									r.Failf("C14", "creating an instrument: %v", err)
								}
								c.Add(bg, 1)
								mu.Lock()
								mades = append(mades, made{name, at})
								mu.Unlock()
							case 'r':
								l.early.Add(bg, 1, apimetric.WithAttributeSet(attribute.NewSet()))
							}
						}
					})
				}
				r.Par(fs...)
				_ = lastRet
				if ns > 0 && firsts != 1 {
					r.Failf("C14", "%d of %d concurrent Shutdown calls did the work", firsts, ns)
				}
				for k, f := range l.fs {
					if _, s := f.counts(); ns > 0 && s != 1 {
						r.Failf("C14", "reader %d was shut down %d times", k, s)
					}
					if n, _ := f.counts(); n != strings.Count(strings.Join(prog, ""), "F") {
						r.Failf("C14", "reader %d was flushed %d times", k, n)
					}
				}
				for _, m := range mades {
					if shutRet != 0 && m.call > shutRet {
						for _, pt := range pointsOf(l.fs[0].Produce(nil)) {
							if pt.Scope == m.name {
								r.Failf("C14", "meter obtained after Shutdown returned produced data")
							}
						}
					}
				}
			},
		})
	}
}
