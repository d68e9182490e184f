// Package vmetrics is package runtime/metrics with its two functions
// replaceable.
package vmetrics

import (
	"math"
	"runtime/metrics"
	"unsafe"
)

type (
	Description      = metrics.Description
	Sample           = metrics.Sample
	Value            = metrics.Value
	ValueKind        = metrics.ValueKind
	Float64Histogram = metrics.Float64Histogram
)

const (
	KindBad              = metrics.KindBad
	KindUint64           = metrics.KindUint64
	KindFloat64          = metrics.KindFloat64
	KindFloat64Histogram = metrics.KindFloat64Histogram
)

var (
	Alls  func() []Description
	Reads func([]Sample)
)

func All() []Description {
	if Alls != nil {
		return Alls()
	}
	return metrics.All()
}

func Read(m []Sample) {
	if Reads != nil {
		Reads(m)
		return
	}
	metrics.Read(m)
}

// value has the layout of metrics.Value.
type value struct {
	kind    ValueKind
	scalar  uint64
	pointer unsafe.Pointer
}

func Uint64(v uint64) (r Value) {
	*(*value)(unsafe.Pointer(&r)) = value{kind: KindUint64, scalar: v}
	return r
}

func Float64(v float64) (r Value) {
	*(*value)(unsafe.Pointer(&r)) = value{kind: KindFloat64, scalar: math.Float64bits(v)}
	return r
}

func init() {
	var x Value
	if unsafe.Sizeof(x) != unsafe.Sizeof(value{}) || Uint64(7).Uint64() != 7 || Float64(1.5).Float64() != 1.5 {
		panic("vmetrics: metrics.Value has changed")
	}
}
