// Program conv explores the exporters, the pipelines and the launcher, from
// outside: through their public constructors, against a collector on the
// loopback network that answers as the decision vector says.
package main

import (
	"os"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

func main() {
	if spec := os.Getenv(childEnv); spec != "" {
		childMain(spec)
		return
	}
	mc.Main()
}
