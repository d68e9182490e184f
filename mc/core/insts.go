package main

import (
	"context"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// Recording paths of synchronous instruments.
const (
	pathSet  = iota // WithAttributeSet
	pathOpts        // WithAttributes
	pathKV          // fast key-value path
)

type kinst struct {
	kind  sdkinstrument.Kind
	float bool
	// rec records on a synchronous instrument.
	rec func(ctx context.Context, v float64, kvs []attribute.KeyValue)
	// obs is the instrument, when asynchronous.
	obs apimetric.Observable
	any interface{}
}

// hasKV says whether the instrument kind has the key-value path.
func hasKV(k sdkinstrument.Kind) bool { return k.Synchronous() && k != sdkinstrument.SyncGauge }

func addOpt(path int, kvs []attribute.KeyValue) apimetric.MeasurementOption {
	if path == pathOpts {
		return apimetric.WithAttributes(kvs...)
	}
	cp := append([]attribute.KeyValue(nil), kvs...)
	return apimetric.WithAttributeSet(attribute.NewSet(cp...))
}

// mkInst creates an instrument of any kind.
func mkInst(m apimetric.Meter, name string, k sdkinstrument.Kind, float bool, path int, desc, unit string) (kinst, error) {
	r := kinst{kind: k, float: float}
	d, u := apimetric.WithDescription(desc), apimetric.WithUnit(unit)
	var err error
	if !float {
		switch k {
		case sdkinstrument.SyncCounter:
			var i apimetric.Int64Counter
			i, err = m.Int64Counter(name, d, u)
			r.any = i
			r.rec = func(ctx context.Context, v float64, kvs []attribute.KeyValue) {
				if path == pathKV {
					i.(bypass.FastInt64Adder).AddWithKeyValues(ctx, int64(v), kvs...)
				} else {
					i.Add(ctx, int64(v), addOpt(path, kvs))
				}
			}
		case sdkinstrument.SyncUpDownCounter:
			var i apimetric.Int64UpDownCounter
			i, err = m.Int64UpDownCounter(name, d, u)
			r.any = i
			r.rec = func(ctx context.Context, v float64, kvs []attribute.KeyValue) {
				if path == pathKV {
					i.(bypass.FastInt64Adder).AddWithKeyValues(ctx, int64(v), kvs...)
				} else {
					i.Add(ctx, int64(v), addOpt(path, kvs))
				}
			}
		case sdkinstrument.SyncHistogram:
			var i apimetric.Int64Histogram
			i, err = m.Int64Histogram(name, d, u)
			r.any = i
			r.rec = func(ctx context.Context, v float64, kvs []attribute.KeyValue) {
				if path == pathKV {
					i.(bypass.FastInt64Recorder).RecordWithKeyValues(ctx, int64(v), kvs...)
				} else {
					i.Record(ctx, int64(v), addOpt(path, kvs))
				}
			}
		case sdkinstrument.SyncGauge:
			var i apimetric.Int64Gauge
			i, err = m.Int64Gauge(name, d, u)
			r.any = i
			r.rec = func(ctx context.Context, v float64, kvs []attribute.KeyValue) {
				i.Record(ctx, int64(v), addOpt(path, kvs))
			}
		case sdkinstrument.AsyncCounter:
			var i apimetric.Int64ObservableCounter
			i, err = m.Int64ObservableCounter(name, d, u)
			r.any, r.obs = i, i
		case sdkinstrument.AsyncUpDownCounter:
			var i apimetric.Int64ObservableUpDownCounter
			i, err = m.Int64ObservableUpDownCounter(name, d, u)
			r.any, r.obs = i, i
		case sdkinstrument.AsyncGauge:
			var i apimetric.Int64ObservableGauge
			i, err = m.Int64ObservableGauge(name, d, u)
			r.any, r.obs = i, i
		}
		return r, err
	}
	switch k {
	case sdkinstrument.SyncCounter:
		var i apimetric.Float64Counter
		i, err = m.Float64Counter(name, d, u)
		r.any = i
		r.rec = func(ctx context.Context, v float64, kvs []attribute.KeyValue) {
			if path == pathKV {
				i.(bypass.FastFloat64Adder).AddWithKeyValues(ctx, v, kvs...)
			} else {
				i.Add(ctx, v, addOpt(path, kvs))
			}
		}
	case sdkinstrument.SyncUpDownCounter:
		var i apimetric.Float64UpDownCounter
		i, err = m.Float64UpDownCounter(name, d, u)
		r.any = i
		r.rec = func(ctx context.Context, v float64, kvs []attribute.KeyValue) {
			if path == pathKV {
				i.(bypass.FastFloat64Adder).AddWithKeyValues(ctx, v, kvs...)
			} else {
				i.Add(ctx, v, addOpt(path, kvs))
			}
		}
	case sdkinstrument.SyncHistogram:
		var i apimetric.Float64Histogram
		i, err = m.Float64Histogram(name, d, u)
		r.any = i
		r.rec = func(ctx context.Context, v float64, kvs []attribute.KeyValue) {
			if path == pathKV {
				i.(bypass.FastFloat64Recorder).RecordWithKeyValues(ctx, v, kvs...)
			} else {
				i.Record(ctx, v, addOpt(path, kvs))
			}
		}
	case sdkinstrument.SyncGauge:
		var i apimetric.Float64Gauge
		i, err = m.Float64Gauge(name, d, u)
		r.any = i
		r.rec = func(ctx context.Context, v float64, kvs []attribute.KeyValue) {
			i.Record(ctx, v, addOpt(path, kvs))
		}
	case sdkinstrument.AsyncCounter:
		var i apimetric.Float64ObservableCounter
		i, err = m.Float64ObservableCounter(name, d, u)
		r.any, r.obs = i, i
	case sdkinstrument.AsyncUpDownCounter:
		var i apimetric.Float64ObservableUpDownCounter
		i, err = m.Float64ObservableUpDownCounter(name, d, u)
		r.any, r.obs = i, i
	case sdkinstrument.AsyncGauge:
		var i apimetric.Float64ObservableGauge
		i, err = m.Float64ObservableGauge(name, d, u)
		r.any, r.obs = i, i
	}
	return r, err
}

// observe observes on an asynchronous instrument within a callback.
func (k kinst) observe(o apimetric.Observer, v float64, kvs []attribute.KeyValue) {
	if k.float {
		o.ObserveFloat64(k.obs.(apimetric.Float64Observable), v, apimetric.WithAttributes(kvs...))
	} else {
		o.ObserveInt64(k.obs.(apimetric.Int64Observable), int64(v), apimetric.WithAttributes(kvs...))
	}
}

var allKinds = []sdkinstrument.Kind{
	sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncHistogram, sdkinstrument.SyncGauge,
	sdkinstrument.AsyncCounter, sdkinstrument.AsyncUpDownCounter, sdkinstrument.AsyncGauge,
}

var syncKinds = allKinds[:4]
var asyncKinds = allKinds[4:]
