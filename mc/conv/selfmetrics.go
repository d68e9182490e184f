package main

import (
	"context"
	"fmt"
	"strings"

	"go.opentelemetry.io/otel/attribute"
	otelmetric "go.opentelemetry.io/otel/metric"
	otelsdk "go.opentelemetry.io/otel/sdk/metric"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

// C17: the exporters' own metrics, through the provider that renames those of
// the collector's components.

type selfKind struct {
	name string
	make func(m otelmetric.Meter, name string) (rec func(), obs otelmetric.Observable, err error)
	cb   func(o otelmetric.Observer, x otelmetric.Observable)
	want string
}

const selfDesc, selfUnit = "a description", "{thing}"

var selfAttr = otelmetric.WithAttributes(attribute.String("k", "v"))

var selfKinds = []selfKind{
	{"Int64Counter", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Int64Counter(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return func() { i.Add(bg, 3, selfAttr) }, nil, err
	}, nil, "sum:true:int:3"},
	{"Int64UpDownCounter", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Int64UpDownCounter(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return func() { i.Add(bg, -3, selfAttr) }, nil, err
	}, nil, "sum:false:int:-3"},
	{"Int64Histogram", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Int64Histogram(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit), otelmetric.WithExplicitBucketBoundaries(1, 2))
		return func() { i.Record(bg, 3, selfAttr) }, nil, err
	}, nil, "histogram:int:3:[1 2]"},
	{"Int64Gauge", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Int64Gauge(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return func() { i.Record(bg, 3, selfAttr) }, nil, err
	}, nil, "gauge:int:3"},
	{"Float64Counter", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Float64Counter(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return func() { i.Add(bg, 1.5, selfAttr) }, nil, err
	}, nil, "sum:true:float:1.5"},
	{"Float64UpDownCounter", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Float64UpDownCounter(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return func() { i.Add(bg, -1.5, selfAttr) }, nil, err
	}, nil, "sum:false:float:-1.5"},
	{"Float64Histogram", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Float64Histogram(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit), otelmetric.WithExplicitBucketBoundaries(1, 2))
		return func() { i.Record(bg, 1.5, selfAttr) }, nil, err
	}, nil, "histogram:float:1.5:[1 2]"},
	{"Float64Gauge", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Float64Gauge(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return func() { i.Record(bg, 1.5, selfAttr) }, nil, err
	}, nil, "gauge:float:1.5"},
	{"Int64ObservableCounter", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Int64ObservableCounter(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return nil, i, err
	}, obsInt, "sum:true:int:3"},
	{"Int64ObservableUpDownCounter", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Int64ObservableUpDownCounter(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return nil, i, err
	}, obsInt, "sum:false:int:3"},
	{"Int64ObservableGauge", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Int64ObservableGauge(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return nil, i, err
	}, obsInt, "gauge:int:3"},
	{"Float64ObservableCounter", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Float64ObservableCounter(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return nil, i, err
	}, obsFloat, "sum:true:float:1.5"},
	{"Float64ObservableUpDownCounter", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Float64ObservableUpDownCounter(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return nil, i, err
	}, obsFloat, "sum:false:float:1.5"},
	{"Float64ObservableGauge", func(m otelmetric.Meter, n string) (func(), otelmetric.Observable, error) {
		i, err := m.Float64ObservableGauge(n, otelmetric.WithDescription(selfDesc), otelmetric.WithUnit(selfUnit))
		return nil, i, err
	}, obsFloat, "gauge:float:1.5"},
}

func obsInt(o otelmetric.Observer, x otelmetric.Observable) {
	o.ObserveInt64(x.(otelmetric.Int64Observable), 3, selfAttr)
}

func obsFloat(o otelmetric.Observer, x otelmetric.Observable) {
	o.ObserveFloat64(x.(otelmetric.Float64Observable), 1.5, selfAttr)
}

var selfNames = [][2]string{
	{"otelcol_sent", "otelsdk_sent"},
	{"otelcol_otelcol_x", "otelsdk_otelcol_x"},
	{"otelcol_a.otelcol_", "otelsdk_a.otelcol_"},
	{"otelcolx", "otelcolx"},
	{"x.otelcol_sent", "x.otelcol_sent"},
	{"otelsdk_sent", "otelsdk_sent"},
	{"telemetry.items", "telemetry.items"},
	{"o", "o"},
}

func selfPoint(m metricdata.Metrics) string {
	at := func(s attribute.Set) string {
		if v, ok := s.Value("k"); !ok || s.Len() != 1 || v.AsString() != "v" {
			return " other attributes"
		}
		return ""
	}
	switch x := m.Data.(type) {
	case metricdata.Sum[int64]:
		return fmt.Sprint("sum:", x.IsMonotonic, ":int:", x.DataPoints[0].Value) + at(x.DataPoints[0].Attributes)
	case metricdata.Sum[float64]:
		return fmt.Sprint("sum:", x.IsMonotonic, ":float:", x.DataPoints[0].Value) + at(x.DataPoints[0].Attributes)
	case metricdata.Gauge[int64]:
		return fmt.Sprint("gauge:int:", x.DataPoints[0].Value) + at(x.DataPoints[0].Attributes)
	case metricdata.Gauge[float64]:
		return fmt.Sprint("gauge:float:", x.DataPoints[0].Value) + at(x.DataPoints[0].Attributes)
	case metricdata.Histogram[int64]:
		return fmt.Sprint("histogram:int:", x.DataPoints[0].Sum, ":", x.DataPoints[0].Bounds) + at(x.DataPoints[0].Attributes)
	case metricdata.Histogram[float64]:
		return fmt.Sprint("histogram:float:", x.DataPoints[0].Sum, ":", x.DataPoints[0].Bounds) + at(x.DataPoints[0].Attributes)
	}
	return "?"
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "self-names", Props: []string{"C17"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "the provider the exporters' components get: every instrument method and name, recorded to or observed and unregistered; kind, options, scope and values as made, the collector's prefix replaced",
		Body: func(r *mc.R) {
			k := selfKinds[r.Choose(len(selfKinds))]
			n := selfNames[r.Choose(len(selfNames))]
			rd := otelsdk.NewManualReader()
			mp := internal.NOTelColMeterProvider(otelsdk.NewMeterProvider(otelsdk.WithReader(rd)))
			m := mp.Meter("otelcol_scope", otelmetric.WithInstrumentationVersion("v3"), otelmetric.WithSchemaURL("http://s"))
			rec, obs, err := k.make(m, n[0])
			r.Logf("%s %q: %v", k.name, n[0], err)
			if err != nil {
				r.Failf("C17", "%s %q: %v", k.name, n[0], err)
				return
			}
			var reg otelmetric.Registration
			if obs != nil {
				reg, err = m.RegisterCallback(func(_ context.Context, o otelmetric.Observer) error {
					k.cb(o, obs)
					return nil
				}, obs)
				if err != nil {
					r.Failf("C17", "%s %q: %v", k.name, n[0], err)
					return
				}
			} else {
				rec()
			}
			var rm metricdata.ResourceMetrics
			if err := rd.Collect(bg, &rm); err != nil {
				r.Failf("C17", "%s %q: %v", k.name, n[0], err)
				return
			}
			var got []string
			for _, s := range rm.ScopeMetrics {
				for _, m := range s.Metrics {
					got = append(got, strings.Join([]string{s.Scope.Name, s.Scope.Version, s.Scope.SchemaURL, m.Name, m.Description, m.Unit, selfPoint(m)}, "|"))
				}
			}
			want := strings.Join([]string{"otelcol_scope", "v3", "http://s", n[1], selfDesc, selfUnit, k.want}, "|")
			if len(got) != 1 || got[0] != want {
				r.Failf("C17", "%s %q: %q, want %q", k.name, n[0], got, want)
				return
			}
			if reg != nil {
				if err := reg.Unregister(); err != nil {
					r.Failf("C17", "%s %q: unregister: %v", k.name, n[0], err)
				}
			}
		},
	})
}
