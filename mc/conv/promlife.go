package main

import (
	"fmt"
	"net"
	"os"
	"strings"
	"time"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	otelcodes "go.opentelemetry.io/otel/codes"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/prom"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

// lifePoints are n points of one up-down counter, each having the value v.
func lifePoints(name string, n int, v int64) data.Metrics {
	if n == 0 {
		return promData()
	}
	var as []aggregation.Aggregation
	for i := 0; i < n; i++ {
		as = append(as, sum.NewNonMonotonicInt64(v))
	}
	in := promInstr(name, sdkinstrument.SyncUpDownCounter, number.Int64Kind, as...)
	for i := range in.Points {
		in.Points[i].End = in.Points[i].End.Add(time.Duration(v) * time.Minute)
	}
	return promData(in)
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "prom-life", Props: []string{"C17"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "a Prometheus exporter on a free or a taken port, telemetry about exports on or off, exports and flushes of several sizes, then its shutdown: results, scrapes, counters and spans",
		Body: func(r *mc.R) {
			global := newSelfPlace()
			otel.SetMeterProvider(global.mp)
			otel.SetTracerProvider(global.tp)
			taken := r.Choose(2) == 1
			sm, ss := r.Choose(2) == 1, r.Choose(2) == 1
			name := fmt.Sprintf("life_%d", os.Getpid())

			var e metric.PushExporter
			var addr string
			for try := 0; e == nil; try++ {
				l, err := net.Listen("tcp", "0.0.0.0:0")
				if err != nil {
					panic(err)
				}
				port := l.Addr().(*net.TCPAddr).Port
				addr = fmt.Sprintf("127.0.0.1:%d", port)
				if !taken {
					l.Close()
				}
				cfg := prom.NewConfig(prom.WithPort(port), nil)
				cfg.SelfMetrics, cfg.SelfSpans = sm, ss
				got, err := prom.NewExporter(bg, cfg)
				if taken {
					l.Close()
					r.Logf("port taken: %v", err != nil)
					if err == nil {
						_ = got.ShutdownMetrics(bg, data.Metrics{})
						r.Failf("C17", "an exporter was made although its port was taken, and no error returned")
					}
					return
				}
				if err != nil {
					if try > 20 {
						panic(err)
					}
					continue // someone took the port
				}
				e = got
			}
			steps := 2
			if r.Thorough {
				steps = 3
			}
			var items int64
			calls, value := 0, int64(0)
			sizes := []int{0, 1, 3}
			check := func(what string, n int, err error) bool {
				calls++
				items += int64(n)
				if err != nil {
					r.Failf("C17", "%s of %d points: %v", what, n, err)
					return false
				}
				if sm {
					if okN, failed, _ := selfCounts(global.rd); okN != items || failed != 0 {
						r.Failf("C17", "after %s: %d points counted as exported and %d as failed, want %d", what, okN, failed, items)
						return false
					}
				} else if n, _ := global.counted(); n != 0 {
					r.Failf("C17", "after %s: %d points counted, without self metrics", what, n)
					return false
				}
				var mine int
				for _, x := range global.spans.Ended() {
					if !strings.HasPrefix(x.Name(), "otelsdk_export_") {
						continue
					}
					mine++
					at := attribute.NewSet(x.Attributes()...)
					if v, ok := at.Value("success"); !ok || !v.AsBool() || x.Status().Code != otelcodes.Ok {
						r.Failf("C17", "after %s: a span about an export has %v, %v", what, x.Attributes(), x.Status())
						return false
					}
				}
				if want := map[bool]int{true: calls}[ss]; mine != want {
					r.Failf("C17", "after %s: %d spans about %d calls, self spans on: %v", what, mine, calls, ss)
					return false
				}
				return true
			}
			for s := 0; s < steps; s++ {
				op := r.Choose(3)
				if op == 0 {
					break
				}
				n := sizes[r.Choose(len(sizes))]
				value++
				d := lifePoints(name, n, value)
				var err error
				what := "an export"
				if op == 1 {
					err = e.ExportMetrics(bg, d)
				} else {
					what = "a flush"
					err = e.ForceFlushMetrics(bg, d)
				}
				if !check(what, n, err) {
					_ = e.ShutdownMetrics(bg, data.Metrics{})
					return
				}
				fams := scrape(addr)
				for i := 0; i < n; i++ {
					m, why := promPoint(fams, name, fmt.Sprint(i))
					if why == "" && m.GetGauge().GetValue() != float64(value) {
						why = fmt.Sprintf("value %v", m)
					}
					if why != "" {
						r.Failf("C17", "after %s of %d points of value %d: %s", what, n, value, why)
						_ = e.ShutdownMetrics(bg, data.Metrics{})
						return
					}
				}
			}
			n := sizes[r.Choose(len(sizes))]
			check("the shutdown", n, e.ShutdownMetrics(bg, lifePoints(name, n, value+1)))
			r.Logf("%d calls, %d points", calls, items)
			if resp, err := scrapeClient.Get("http://" + addr + "/metrics"); err == nil {
				body := make([]byte, 1<<16)
				k, _ := resp.Body.Read(body)
				resp.Body.Close()
				if strings.Contains(string(body[:k]), name) {
					r.Failf("C17", "after its shutdown the exporter still serves its metrics")
				}
			}
		},
	})
}
