package main

import (
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/doevery"
)

func everyP(d time.Duration, f func()) {
//line /src/one/record.go:40
	doevery.TimePeriod(d, f)
}

func everyQ(d time.Duration, f func()) {
//line /src/two/record.go:40
	doevery.TimePeriod(d, f)
}
