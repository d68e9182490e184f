// Program core explores the metrics SDK.
package main

import "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"

func main() { mc.Main() }
