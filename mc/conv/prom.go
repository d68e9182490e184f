package main

import (
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"strings"

	dto "github.com/prometheus/client_model/go"
	"github.com/prometheus/common/expfmt"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/instrumentation"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/minmaxsumcount"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/prom"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

// promExporter starts a Prometheus exporter on a free loopback port.
func promExporter() (metric.PushExporter, string) {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		addr := l.Addr().String()
		l.Close()
		cfg := prom.NewConfig()
		cfg.SelfMetrics, cfg.SelfSpans = false, false
		cfg.Exporter.Endpoint = addr
		e, err := prom.NewExporter(bg, cfg)
		if err == nil {
			return e, addr
		}
		if try > 20 {
			panic(err)
		}
	}
}

var scrapeClient = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}

func scrape(addr string) map[string]*dto.MetricFamily {
	resp, err := scrapeClient.Get("http://" + addr + "/metrics")
	if err != nil {
		panic(err)
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		panic(err)
	}
	var p expfmt.TextParser
	fams, err := p.TextToMetricFamilies(strings.NewReader(string(body)))
	if err != nil {
		panic(fmt.Sprint(err, ": ", string(body)))
	}
	return fams
}

// promPoint finds the one sample of an instrument's name and point number.
func promPoint(fams map[string]*dto.MetricFamily, name, p string) (*dto.Metric, string) {
	var found []*dto.Metric
	for n, f := range fams {
		if !strings.HasPrefix(n, name) {
			continue
		}
		for _, m := range f.Metric {
			for _, l := range m.Label {
				if l.GetName() == "p" && l.GetValue() == p {
					found = append(found, m)
				}
			}
		}
	}
	if len(found) != 1 {
		return nil, fmt.Sprintf("%d samples of %s with p=%s", len(found), name, p)
	}
	return found[0], ""
}

func sameNum(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b)) || math.IsNaN(a) && math.IsNaN(b)
}

// nonempty counts the buckets of a histogram that hold something.
func nonempty(h aggregation.Histogram) int {
	n := 0
	for _, b := range []aggregation.Buckets{h.Positive(), h.Negative()} {
		for i := uint32(0); i < b.Len(); i++ {
			if b.At(i) != 0 {
				n++
			}
		}
	}
	if h.ZeroCount() != 0 {
		n++
	}
	return n
}

// judgePromHist compares a scraped histogram with the values recorded.
func judgePromHist(m *dto.Metric, vals []float64, sum float64, src int) string {
	h := m.GetHistogram()
	if h == nil {
		return "not a histogram"
	}
	if h.GetSampleCount() != uint64(len(vals)) {
		return fmt.Sprintf("count %d of %d values", h.GetSampleCount(), len(vals))
	}
	if !sameNum(h.GetSampleSum(), sum) {
		return fmt.Sprintf("sum %v, want %v", h.GetSampleSum(), sum)
	}
	prevBound, prev := math.Inf(-1), uint64(0)
	filled := 0
	for i, b := range h.Bucket {
		le, c := b.GetUpperBound(), b.GetCumulativeCount()
		if i > 0 && le <= prevBound {
			return fmt.Sprintf("bounds do not ascend: %v after %v", le, prevBound)
		}
		if c < prev {
			return fmt.Sprintf("cumulative counts descend at le=%v", le)
		}
		if c > prev {
			filled++
		}
		lo, hi := uint64(0), uint64(0)
		for _, v := range vals {
			near := le != 0 && !math.IsInf(le, 0) && math.Abs(v-le) <= 1e-9*math.Abs(le)
			if v <= le && !near {
				lo++
			}
			if v <= le || near {
				hi++
			}
		}
		if c < lo || c > hi {
			return fmt.Sprintf("le=%v counts %d, want %d", le, c, hi)
		}
		prevBound, prev = le, c
	}
	if len(h.Bucket) == 0 || !math.IsInf(prevBound, 1) {
		if prev != uint64(len(vals)) {
			filled++
		}
	} else if prev != uint64(len(vals)) {
		return fmt.Sprintf("le=+Inf counts %d of %d", prev, len(vals))
	}
	if filled < src {
		return fmt.Sprintf("%d separate buckets were merged into %d", src, filled)
	}
	return ""
}

// judgeProm compares the non-histogram kinds.
func judgeProm(m *dto.Metric, a aggregation.Aggregation, nk number.Kind) string {
	switch t := a.(type) {
	case aggregation.MinMaxSumCount:
		if _, hist := a.(aggregation.Histogram); !hist {
			return judgePromSummary(m, t, nk)
		}
	case aggregation.Sum:
		got := m.GetCounter().GetValue()
		if m.Gauge != nil {
			got = m.GetGauge().GetValue()
		} else if m.Untyped != nil {
			got = m.GetUntyped().GetValue()
		}
		if want := numIn(t.Sum(), nk); !sameNum(got, want) {
			return fmt.Sprintf("value %v, want %v", got, want)
		}
		return ""
	case aggregation.Gauge:
		if got, want := m.GetGauge().GetValue(), numIn(t.Gauge(), nk); !sameNum(got, want) {
			return fmt.Sprintf("value %v, want %v", got, want)
		}
		return ""
	}
	return fmt.Sprintf("unknown aggregation %T", a)
}

// judgePromSummary judges a point that has a count and a sum and no buckets.
func judgePromSummary(m *dto.Metric, t aggregation.MinMaxSumCount, nk number.Kind) string {
	count, sum := m.GetHistogram().GetSampleCount(), m.GetHistogram().GetSampleSum()
	if m.Summary != nil {
		count, sum = m.GetSummary().GetSampleCount(), m.GetSummary().GetSampleSum()
	}
	if count != t.Count() {
		return fmt.Sprintf("count %d, want %d", count, t.Count())
	}
	if want := numIn(t.Sum(), nk); !sameNum(sum, want) {
		return fmt.Sprintf("sum %v, want %v", sum, want)
	}
	return ""
}

func promInstr(name string, ik sdkinstrument.Kind, nk number.Kind, pts ...aggregation.Aggregation) data.Instrument {
	in := data.Instrument{Descriptor: sdkinstrument.NewDescriptor(name, ik, nk, "", "")}
	for i, a := range pts {
		in.Points = append(in.Points, data.Point{Attributes: attribute.NewSet(attribute.String("p", fmt.Sprint(i))), Aggregation: a,
			Temporality: aggregation.CumulativeTemporality, Start: times[0][0], End: times[0][1]})
	}
	return in
}

func promData(in ...data.Instrument) data.Metrics {
	return data.Metrics{Resource: resources[1], Scopes: []data.Scope{{Library: instrumentation.Scope{Name: "lib"}, Instruments: in}}}
}

var promDbl = []float64{0, 1, 2, 3.5, 0.1, -1, -1.5, 1e300, -1e200, 1e-300, math.MaxFloat64, -math.MaxFloat64}
var promInt = []int64{0, 1, 7, -1, -3, 1 << 40, -1 << 40, math.MaxInt64, math.MinInt64 + 1}

func init() {
	mc.Register(&mc.Scenario{
		Name: "prom-histogram", Props: []string{"C15"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "histograms of every selection of up to three (four) values, of both number kinds and three sizes, scraped from the Prometheus endpoint; a bound counts exactly the values up to it",
		Body: func(r *mc.R) {
			depth := 3
			if r.Thorough {
				depth = 4
			}
			isInt := r.Choose(2) == 1
			size := []int32{2, 8, 160}[r.Choose(3)]
			alphabet := len(promDbl)
			if isInt {
				alphabet = len(promInt)
			}
			// A non-descending selection of the alphabet, the first value chosen
			// here, the rest batched as the points of one instrument.
			first := r.Choose(alphabet)
			var sels [][]int
			var rec func(sel []int, from int)
			rec = func(sel []int, from int) {
				sels = append(sels, append([]int(nil), sel...))
				if len(sel) == depth {
					return
				}
				for i := from; i < alphabet; i++ {
					rec(append(sel, i), i)
				}
			}
			if first == 0 {
				sels = append(sels, nil)
			}
			rec([]int{first}, first)
			var pts []aggregation.Aggregation
			var raw [][]float64
			var sums []float64
			for _, sel := range sels {
				var fv []float64
				sum := 0.0
				if isInt {
					var iv []int64
					for _, i := range sel {
						iv = append(iv, promInt[i])
						fv = append(fv, float64(promInt[i]))
					}
					// Sums that do not fit are no subject here.
					s, over := int64(0), false
					for _, v := range iv {
						t := s + v
						over = over || (v > 0) == (t < s) && v != 0
						s = t
					}
					if over {
						continue
					}
					sum = float64(s)
					pts = append(pts, histogram.NewInt64(hcfg(size), iv...))
				} else {
					for _, i := range sel {
						fv = append(fv, promDbl[i])
						sum += promDbl[i]
					}
					pts = append(pts, histogram.NewFloat64(hcfg(size), fv...))
				}
				raw = append(raw, fv)
				sums = append(sums, sum)
			}
			nk := number.Float64Kind
			if isInt {
				nk = number.Int64Kind
			}
			e, addr := promExporter()
			defer func() { _ = e.ShutdownMetrics(bg, data.Metrics{}) }()
			if err := e.ExportMetrics(bg, promData(promInstr("hist", sdkinstrument.SyncHistogram, nk, pts...))); err != nil {
				r.Failf("C15", "export: %v", err)
				return
			}
			fams := scrape(addr)
			for i := range pts {
				m, why := promPoint(fams, "hist", fmt.Sprint(i))
				if why == "" {
					why = judgePromHist(m, raw[i], sums[i], nonempty(pts[i].(aggregation.Histogram)))
				}
				if why != "" {
					r.Failf("C15", "values %v, size %d, as scraped from Prometheus: %s", raw[i], size, why)
					return
				}
			}
			r.Logf("%d histograms", len(pts))
		},
	})
	mc.Register(&mc.Scenario{
		Name: "prom-point", Props: []string{"C15"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "points of the other kinds, every value, one or two instruments and a second export, scraped",
		Body: func(r *mc.R) {
			k := aggKinds[r.Choose(len(aggKinds))]
			v := r.Choose(k.n)
			if _, ok := k.make(v).(aggregation.Histogram); ok {
				if _, mm := k.make(v).(*minmaxsumcount.Int64); !mm {
					if _, mm := k.make(v).(*minmaxsumcount.Float64); !mm {
						return
					}
				}
			}
			k2 := aggKinds[r.Choose(6)]
			e, addr := promExporter()
			defer func() { _ = e.ShutdownMetrics(bg, data.Metrics{}) }()
			for round := 0; round < 2; round++ {
				a, b := k.make((v+round)%k.n), k2.make(round)
				d := promData(promInstr("first", k.ik, k.nk, a), promInstr("second", k2.ik, k2.nk, b, k2.make(round+1)))
				for s := range d.Scopes {
					for i := range d.Scopes[s].Instruments {
						for p := range d.Scopes[s].Instruments[i].Points {
							d.Scopes[s].Instruments[i].Points[p].End = times[0][1].Add(1e9 * 60 * 1)
						}
					}
				}
				if err := e.ExportMetrics(bg, d); err != nil {
					r.Failf("C15", "export: %v", err)
					return
				}
				fams := scrape(addr)
				for _, w := range []struct {
					name, p string
					a       aggregation.Aggregation
					nk      number.Kind
				}{{"first", "0", a, k.nk}, {"second", "0", b, k2.nk}, {"second", "1", k2.make(round + 1), k2.nk}} {
					m, why := promPoint(fams, w.name, w.p)
					if why == "" {
						why = judgeProm(m, w.a, w.nk)
					}
					if why != "" {
						r.Failf("C15", "%s of kind %s, as scraped from Prometheus: %s", w.name, k.name, why)
						return
					}
				}
			}
		},
	})
}
