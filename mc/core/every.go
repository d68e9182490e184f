package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/doevery"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	vtime "github.com/lightstep/otel-launcher-go/verifshim/vtime"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C23: rate limited reports.

type occurrence struct {
	cond      int
	call, ret int64 // clock
	seq       int64
	reported  int
}

const (
	condInf = iota
	condNaN
	condNeg
	condKey
	condX // direct uses of the rate limiter
	condY
	condP // the same line of two files of one name
	condQ
	nConds
)

var condPeriod = [nConds]time.Duration{30 * time.Second, 30 * time.Second, 30 * time.Second, time.Minute, 10 * time.Second, 10 * time.Second, 20 * time.Second, 20 * time.Second}

// classify maps a reported error to its condition.
func classify(err error) int {
	switch {
	case errors.Is(err, aggregator.ErrInfInput):
		return condInf
	case errors.Is(err, aggregator.ErrNaNInput):
		return condNaN
	case errors.Is(err, aggregator.ErrNegativeInput):
		return condNeg
	case strings.Contains(err.Error(), "empty attribute key"):
		return condKey
	}
	return -1
}

type everyRun struct {
	r    *mc.R
	mu   sync.Mutex
	cur  map[int]*occurrence
	occs []*occurrence
	rd   *metric.ManualReader
	fc   apimetric.Float64Counter
	fh   apimetric.Float64Histogram
	fu   apimetric.Float64UpDownCounter
	ic   apimetric.Int64Counter
	n    int
	// nested makes the error handler itself cause reports.
	nested bool
}

func (e *everyRun) Handle(err error) {
	c := classify(err)
	e.note(c)
	if e.nested && c == condInf {
		e.fc.Add(bg, math.NaN())
	}
}

func (e *everyRun) note(c int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	o := e.cur[vsched.Me()]
	if o == nil {
		return
	}
	if o.cond != c {
		if e.nested && c == condNaN {
			return
		}
		e.r.Failf("C23", "condition %d was reported as %d", o.cond, c)
		return
	}
	o.reported++
}

func newEvery(r *mc.R) *everyRun {
	e := &everyRun{r: r, cur: map[int]*occurrence{}}
	e.rd = metric.NewManualReader("rd")
	m := newProvider(sdkinstrument.Performance{}, metric.WithReader(e.rd)).Meter("m")
	e.fc, _ = m.Float64Counter("fc")
	e.fh, _ = m.Float64Histogram("fh")
	e.fu, _ = m.Float64UpDownCounter("fu")
	e.ic, _ = m.Int64Counter("ic")
	otel.SetErrorHandler(e)
	return e
}

// cause makes a condition occur once.
func (e *everyRun) cause(cond, variant int) {
	o := &occurrence{cond: cond}
	e.mu.Lock()
	e.n++
	n := e.n
	e.cur[vsched.Me()] = o
	e.mu.Unlock()
	o.call = vtime.Peek().UnixNano()
	o.seq = vsched.Stamp()
	switch cond {
	case condInf:
		if variant == 0 {
			e.fc.Add(bg, math.Inf(+1))
		} else {
			e.fh.Record(bg, math.Inf(-1))
		}
	case condNaN:
		if variant == 0 {
			e.fu.Add(bg, math.NaN())
		} else {
			e.fh.Record(bg, math.NaN())
		}
	case condNeg:
		if variant == 0 {
			e.fc.Add(bg, -1)
		} else {
			e.ic.Add(bg, -1)
		}
	case condKey:
		// A new set every time: the filter runs once per series.
		e.ic.Add(bg, 1, apimetric.WithAttributes(attribute.Int("", 1), attribute.Int("n", n)))
	case condX:
		doevery.TimePeriod(condPeriod[condX], func() { e.note(condX) })
	case condP:
		everyP(condPeriod[condP], func() { e.note(condP) })
	case condQ:
		everyQ(condPeriod[condQ], func() { e.note(condQ) })
	case condY:
		doevery.TimePeriod(condPeriod[condY], func() { e.note(condY) })
	}
	o.ret = vtime.Peek().UnixNano()
	e.mu.Lock()
	delete(e.cur, vsched.Me())
	e.occs = append(e.occs, o)
	e.mu.Unlock()
}

func (e *everyRun) check() {
	otel.SetErrorHandler(sink)
	for _, o := range e.occs {
		e.r.Logf("condition %d at [%v,%v] reported %d", o.cond, time.Unix(0, o.call).UTC(), time.Unix(0, o.ret).UTC(), o.reported)
		if o.reported > 1 {
			e.r.Failf("C23", "one occurrence of condition %d was reported %d times", o.cond, o.reported)
		}
		period := int64(condPeriod[o.cond])
		covered := false
		for _, p := range e.occs {
			if p == o || p.cond != o.cond || p.reported == 0 {
				continue
			}
			if o.reported > 0 {
				// Both reported: they must be able to lie a period apart.
				if o.ret-p.call < period && p.ret-o.call < period {
					e.r.Failf("C23", "condition %d was reported twice within %v", o.cond, max(o.ret-p.call, p.ret-o.call))
				}
				continue
			}
			if p.call <= o.ret && o.call-p.ret <= period {
				covered = true
			}
		}
		if o.reported == 0 && !covered {
			e.r.Failf("C23", "condition %d was not reported, and was not reported in the %v before", o.cond, condPeriod[o.cond])
		}
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "every-seq", Props: []string{"C23"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			e := newEvery(r)
			depth := 4
			if r.Thorough {
				depth = 5
			}
			a := r.Choose(nConds)
			b := r.Choose(nConds)
			for i := 0; i < depth; i++ {
				c := a
				if r.ChooseBool() {
					c = b
				}
				v := 0
				if c <= condNeg {
					v = r.Choose(2)
				}
				e.cause(c, v)
				switch p := condPeriod[a]; r.Choose(4) {
				case 1:
					vtime.Advance(p - 100*time.Millisecond)
				case 2:
					vtime.Advance(p + 100*time.Millisecond)
				case 3:
					vtime.Advance(p / 2)
				}
			}
			e.check()
		},
	})
	for i, prog := range []string{"xx|xx", "xx|x|A", "xy|yx|A", "x|x|x", "xAx|x", "xA|xA|x", "xax|xAx", "x|y|A"} {
		prog := prog
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("every-conc-%d", i), Props: []string{"C23"}, Bound: [2]int{3, 4}, Race: [2]int{1, 2}, MapOffs: []uint64{0},
			Body: func(r *mc.R) {
				e := newEvery(r)
				x := r.Choose(5)
				y := (x + 1) % 5
				if x == condX {
					y = condY
				}
				if r.ChooseBool() {
					// Already reported a while ago.
					e.cause(x, 0)
					vtime.Advance(condPeriod[x] * 2 / 3)
				}
				var fs []func()
				for _, ops := range strings.Split(prog, "|") {
					ops := ops
					fs = append(fs, func() {
						for _, o := range []byte(ops) {
							switch o {
							case 'x':
								e.cause(x, 0)
							case 'y':
								e.cause(y, 0)
							case 'A':
								vsched.Point(vsched.Always)
								vtime.Advance(condPeriod[x] + time.Second)
							case 'a':
								vsched.Point(vsched.Always)
								vtime.Advance(condPeriod[x] / 2)
							}
						}
					})
				}
				r.Par(fs...)
				e.cause(x, 0)
				vtime.Advance(2 * time.Minute)
				e.cause(x, 0)
				e.check()
			},
		})
	}
	// A handler that itself causes a report must not deadlock.
	mc.Register(&mc.Scenario{
		Name: "every-nested", Props: []string{"C23", "C24"}, Bound: [2]int{2, 3}, Race: [2]int{1, 2}, MapOffs: []uint64{0},
		Body: func(r *mc.R) {
			e := newEvery(r)
			e.nested = true
			r.Par(func() { e.cause(condInf, 0) }, func() { e.cause(condInf, 1) }, func() { e.rd.Produce(nil) })
			e.check()
		},
	})
	_ = context.Background
}
