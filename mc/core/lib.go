package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/resource"
)

var bg = context.Background()

// handled counts errors reported to the global error handler.
type errSink struct {
	mu   sync.Mutex
	errs []error
}

func (e *errSink) Handle(err error) {
	e.mu.Lock()
	e.errs = append(e.errs, err)
	e.mu.Unlock()
}

func (e *errSink) take() []error {
	e.mu.Lock()
	defer e.mu.Unlock()
	r := e.errs
	e.errs = nil
	return r
}

var sink = &errSink{}

func init() { otel.SetErrorHandler(sink) }

func deltaSel(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality }
func cumulSel(sdkinstrument.Kind) aggregation.Temporality { return aggregation.CumulativeTemporality }

func tempoOpt(delta bool) view.Option {
	if delta {
		return view.WithDefaultAggregationTemporalitySelector(deltaSel)
	}
	return view.WithDefaultAggregationTemporalitySelector(cumulSel)
}

var testRes = resource.NewSchemaless(attribute.String("r", "v"))

func newProvider(perf sdkinstrument.Performance, opts ...metric.Option) *metric.MeterProvider {
	o := append([]metric.Option{metric.WithResource(testRes), metric.WithPerformance(perf)}, opts...)
	return metric.NewMeterProvider(o...)
}

// Point is the observable content of one data point.
type Point struct {
	Scope, Name, Desc, Unit string
	Kind                    sdkinstrument.Kind
	NK                      number.Kind
	Attrs                   string
	Tempo                   aggregation.Temporality
	Agg                     aggregation.Kind
	Mono                    bool
	Val                     float64 // sum or gauge
	Count                   uint64
	Min, Max                float64
	Zero                    uint64
	Scale                   int32
	PosOff, NegOff          int32
	Pos, Neg                []uint64
	Start, End              time.Time
}

func num(n number.Number, k number.Kind) float64 {
	if k == number.Int64Kind {
		return float64(number.ToInt64(n))
	}
	return number.ToFloat64(n)
}

func attrString(s attribute.Set) string {
	var b strings.Builder
	for it := s.Iter(); it.Next(); {
		kv := it.Attribute()
		fmt.Fprintf(&b, "%s=%s:%s;", kv.Key, kv.Value.Type(), kv.Value.Emit())
	}
	return b.String()
}

func buckets(b aggregation.Buckets) (int32, []uint64) {
	if b.Len() == 0 {
		return 0, nil
	}
	r := make([]uint64, b.Len())
	for i := range r {
		r[i] = b.At(uint32(i))
	}
	return b.Offset(), r
}

func pointOf(lib string, d sdkinstrument.Descriptor, p *data.Point) Point {
	o := Point{
		Scope: lib, Name: d.Name, Desc: d.Description, Unit: d.Unit, Kind: d.Kind, NK: d.NumberKind,
		Attrs: attrString(p.Attributes), Tempo: p.Temporality, Start: p.Start, End: p.End,
		Agg: p.Aggregation.Kind(),
	}
	switch a := p.Aggregation.(type) {
	case aggregation.Histogram:
		o.Val, o.Count = num(a.Sum(), d.NumberKind), a.Count()
		o.Min, o.Max = num(a.Min(), d.NumberKind), num(a.Max(), d.NumberKind)
		o.Zero, o.Scale = a.ZeroCount(), a.Scale()
		o.PosOff, o.Pos = buckets(a.Positive())
		o.NegOff, o.Neg = buckets(a.Negative())
	case aggregation.MinMaxSumCount:
		o.Val, o.Count = num(a.Sum(), d.NumberKind), a.Count()
		o.Min, o.Max = num(a.Min(), d.NumberKind), num(a.Max(), d.NumberKind)
	case aggregation.Sum:
		o.Val, o.Mono = num(a.Sum(), d.NumberKind), a.IsMonotonic()
	case aggregation.Gauge:
		o.Val = num(a.Gauge(), d.NumberKind)
	default:
		o.Val = math.NaN()
	}
	return o
}

// pointsOf flattens a collection, in output order.
func pointsOf(m data.Metrics) []Point {
	var r []Point
	for i := range m.Scopes {
		s := &m.Scopes[i]
		for j := range s.Instruments {
			in := &s.Instruments[j]
			for k := range in.Points {
				r = append(r, pointOf(s.Library.Name, in.Descriptor, &in.Points[k]))
			}
		}
	}
	return r
}

func (p Point) value() string {
	switch p.Agg {
	case aggregation.HistogramKind:
		return fmt.Sprintf("hist{n=%d sum=%v min=%v max=%v zero=%d scale=%d +%d%v -%d%v}", p.Count, p.Val, p.Min, p.Max, p.Zero, p.Scale, p.PosOff, p.Pos, p.NegOff, p.Neg)
	case aggregation.MinMaxSumCountKind:
		return fmt.Sprintf("mmsc{n=%d sum=%v min=%v max=%v}", p.Count, p.Val, p.Min, p.Max)
	case aggregation.GaugeKind:
		return fmt.Sprintf("gauge{%v}", p.Val)
	}
	return fmt.Sprintf("sum{%v mono=%v}", p.Val, p.Mono)
}

// String leaves out the timestamps.
func (p Point) String() string {
	return fmt.Sprintf("%s/%s[%s|%s|%v|%v]{%s} %v %s", p.Scope, p.Name, p.Desc, p.Unit, p.Kind, p.NK, p.Attrs, p.Tempo, p.value())
}

func render(ps []Point) string {
	l := make([]string, len(ps))
	for i := range ps {
		l[i] = ps[i].String()
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// digits decodes a sum of distinct powers of four.
func digit(total int64, i int) int64 { return (total >> (2 * uint(i))) & 3 }

func pow4(i int) int64 { return int64(1) << (2 * uint(i)) }
