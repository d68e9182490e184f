package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"slices"
	"sync"
	"time"

	"go.opentelemetry.io/collector/config/configopaque"
	"go.opentelemetry.io/collector/config/configtls"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	traceotel "github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/pipelines"
)

// C19: the connection settings of both pipelines, as the collector sees them.

const tlsName = "verif.test"

var (
	tlsOnce      sync.Once
	tlsCollector *collector
	tlsCA        string
)

// collTLS is a collector behind a certificate for tlsName, and the certificate.
func collTLS() (*collector, string) {
	tlsOnce.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		tmpl := &x509.Certificate{
			SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: tlsName}, DNSNames: []string{tlsName},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		if err != nil {
			panic(err)
		}
		tlsCA = string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
		tlsCollector = newCollector(grpc.Creds(credentials.NewServerTLSFromCert(&tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key})))
	})
	tlsCollector.reset()
	return tlsCollector, tlsCA
}

type tlsCase struct {
	name     string
	insecure bool
	setting  func(ca string) *configtls.ClientConfig
	server   bool // the collector speaks TLS
	want     bool // data arrive
}

var tlsCases = []tlsCase{
	{"insecure, plain collector", true, nil, false, true},
	{"insecure, plain collector, TLS settings too", true, func(ca string) *configtls.ClientConfig {
		return &configtls.ClientConfig{Config: configtls.Config{CAPem: configopaque.String(ca)}, ServerName: tlsName}
	}, false, true},
	{"trusted certificate and its name", false, func(ca string) *configtls.ClientConfig {
		return &configtls.ClientConfig{Config: configtls.Config{CAPem: configopaque.String(ca)}, ServerName: tlsName}
	}, true, true},
	{"trusted certificate, other name", false, func(ca string) *configtls.ClientConfig {
		return &configtls.ClientConfig{Config: configtls.Config{CAPem: configopaque.String(ca)}, ServerName: "other.test"}
	}, true, false},
	{"trusted certificate, the address as name", false, func(ca string) *configtls.ClientConfig {
		return &configtls.ClientConfig{Config: configtls.Config{CAPem: configopaque.String(ca)}}
	}, true, false},
	{"unknown certificate", false, func(string) *configtls.ClientConfig { return &configtls.ClientConfig{ServerName: tlsName} }, true, false},
	{"unknown certificate not verified", false, func(string) *configtls.ClientConfig {
		return &configtls.ClientConfig{InsecureSkipVerify: true}
	}, true, true},
	{"no TLS settings, TLS collector", false, nil, true, false},
	{"no TLS settings, plain collector", false, nil, false, false},
	{"TLS settings, plain collector", false, func(string) *configtls.ClientConfig {
		return &configtls.ClientConfig{InsecureSkipVerify: true}
	}, false, false},
	{"insecure by the TLS settings, plain collector", false, func(string) *configtls.ClientConfig {
		return &configtls.ClientConfig{Insecure: true}
	}, false, true},
	{"insecure, TLS collector", true, nil, true, false},
}

var headerCases = []map[string]string{
	nil,
	{},
	{"lightstep-access-token": "t"},
	{"a": "", "b": "2"},
	{"a": "x y", "b": "=,:;", "c-d": "3"},
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "pipe-settings", Props: []string{"C19"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "both pipelines, every header map and resource with every way to secure the connection: what arrives, and that nothing does where the collector is not the one asked for",
		Body: func(r *mc.R) {
			traces := r.Choose(2) == 1
			k := r.Choose(len(tlsCases))
			tc := tlsCases[k]
			hdr := headerCases[2]
			res := resources[0]
			switch {
			case !tc.want:
			case traces && !r.Thorough:
				// The batching of spans takes a second.
				if k == 0 {
					i := r.Choose(len(headerCases))
					hdr, res = headerCases[i], resources[i%len(resources)]
				}
			default:
				hdr = headerCases[r.Choose(len(headerCases))]
				res = resources[r.Choose(len(resources))]
			}
			c := coll()
			ct, ca := collTLS()
			if tc.server {
				c = ct
			}
			defer resetGlobals()
			cfg := pipeConfig(c)
			cfg.Insecure = tc.insecure
			if tc.setting != nil {
				cfg.TLSSetting = tc.setting(ca)
			}
			cfg.Headers = hdr
			cfg.Resource = res
			cfg.Propagators = []string{"b3"}
			what := "metrics: " + tc.name
			var stop func() error
			var err error
			if traces {
				what = "traces: " + tc.name
				stop, err = pipelines.NewTracePipeline(cfg)
			} else {
				stop, err = pipelines.NewMetricsPipeline(cfg)
			}
			r.Logf("%s, headers %v: %v", what, hdr, err)
			if err != nil {
				r.Failf("C19", "%s: %v", what, err)
				return
			}
			if traces {
				_, sp := otel.Tracer("app").Start(bg, "x")
				sp.End()
			} else {
				ctr, _ := otel.Meter("app").Int64Counter("x")
				ctr.Add(bg, 1)
			}
			if !tc.want {
				ctx, cancel := context.WithTimeout(bg, 600*time.Millisecond)
				defer cancel()
				if traces {
					err = otel.GetTracerProvider().(flusher).ForceFlush(ctx)
				} else {
					err = otel.GetMeterProvider().(flusher).ForceFlush(ctx)
				}
				if n := len(c.gotMetrics()) + len(c.gotTraces()); n > 0 {
					r.Failf("C19", "%s: %d requests arrived", what, n)
				} else if err == nil {
					r.Failf("C19", "%s: nothing arrived, and the flush reports success", what)
				}
				// Ending it takes as long as the export's own time limit.
				go func() { _ = stop() }()
				return
			}
			if err := stop(); err != nil {
				r.Failf("C19", "%s: shutdown: %v", what, err)
				return
			}
			var gotRes []string
			if traces {
				for _, t := range c.gotTraces() {
					for i := 0; i < t.ResourceSpans().Len(); i++ {
						gotRes = append(gotRes, attrsOut(t.ResourceSpans().At(i).Resource().Attributes()))
					}
				}
			} else {
				allMetrics(c.gotMetrics(), func(res pcommon.Map, scope string, m pmetric.Metric) {
					if scope == "app" {
						gotRes = append(gotRes, attrsOut(res))
					}
				})
			}
			if len(gotRes) != 1 {
				r.Failf("C19", "%s: %d items arrived", what, len(gotRes))
				return
			}
			if want := attrsIn(res.Attributes()); gotRes[0] != want {
				r.Failf("C19", "%s: resource %s, want %s", what, gotRes[0], want)
				return
			}
			for _, md := range c.gotMD() {
				for k, v := range hdr {
					if got := md.Get(k); len(got) != 1 || got[0] != v {
						r.Failf("C19", "%s: header %q arrived as %q, want %q", what, k, got, v)
						return
					}
				}
				for _, k := range []string{"lightstep-access-token", "a", "b", "c-d"} {
					if _, has := hdr[k]; !has && len(md.Get(k)) > 0 {
						r.Failf("C19", "%s: header %q arrived, which nobody gave", what, k)
						return
					}
				}
			}
			if !c.closed(0) {
				// Connections of executions that are still being ended do not
				// count: those never got through.
				r.Failf("C19", "%s: after the shutdown the connection is open", what)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "exporter-settings", Props: []string{"C19"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "both exporters made from their options in two orders: every compression, header maps in two parts, every way to secure the connection, and settings that cannot be used",
		Body: func(r *mc.R) {
			traces := r.Choose(2) == 1
			// One of the settings at a time is unusual.
			comp, hd, tc := "", 0, tlsCases[0]
			badFile := false
			switch r.Choose(4) {
			case 0:
				comp = []string{"", "none", "gzip", "snappy", "zstd", "lz5"}[r.Choose(6)]
			case 1:
				hd = r.Choose(4)
			case 2:
				tc = tlsCases[r.Choose(len(tlsCases))]
				if tc.insecure && tc.setting != nil {
					// Which of the two wins is the pipelines' choice, not this
					// package's.
					return
				}
			case 3:
				badFile = true
			}
			rev := r.Choose(2) == 1
			c := coll()
			ct, ca := collTLS()
			if tc.server {
				c = ct
			}
			var first, second, want map[string]string
			switch hd {
			case 1:
				first = map[string]string{"a": "1", "b": "2"}
				want = first
			case 2:
				first, second = map[string]string{"a": "1", "b": "2"}, map[string]string{"b": "3", "c": ""}
				want = map[string]string{"a": "1", "b": "3", "c": ""}
			case 3:
				first, second = map[string]string{"a": "1"}, map[string]string{}
				want = first
			}
			var set *configtls.ClientConfig
			if tc.setting != nil {
				set = tc.setting(ca)
			}
			if badFile {
				set = &configtls.ClientConfig{Config: configtls.Config{CAFile: "/nonexistent/ca.pem"}}
			}
			insecure := tc.insecure && !badFile
			var export func(context.Context) error
			var stop func() error
			var err error
			if traces {
				opts := []traceotel.Option{traceotel.WithEndpoint(c.addr), traceotel.WithHeaders(first), nil, traceotel.WithHeaders(second)}
				if comp != "" {
					opts = append(opts, traceotel.WithCompressor(comp))
				}
				if set != nil {
					opts = append(opts, traceotel.WithTLSSetting(*set))
				}
				if insecure {
					opts = append(opts, traceotel.WithInsecure())
				}
				if rev && hd < 2 {
					slices.Reverse(opts)
				}
				cfg := traceotel.NewConfig(opts...)
				cfg.SelfMetrics, cfg.SelfSpans = false, false
				cfg.Batcher.Timeout = 0
				var e sdktrace.SpanExporter
				e, err = traceotel.NewExporter(bg, cfg)
				if err == nil {
					in := []sdktrace.ReadOnlySpan{tracetest.SpanStub{Name: "s", SpanContext: mkSC(1, "", false), Resource: traceResources[0]}.Snapshot()}
					export = func(ctx context.Context) error { return e.ExportSpans(ctx, in) }
					stop = func() error { return e.Shutdown(bg) }
				}
			} else {
				opts := []otelcol.Option{otelcol.WithEndpoint(c.addr), otelcol.WithHeaders(first), nil, otelcol.WithHeaders(second)}
				if comp != "" {
					opts = append(opts, otelcol.WithCompressor(comp))
				}
				if set != nil {
					opts = append(opts, otelcol.WithTLSSetting(*set))
				}
				if insecure {
					opts = append(opts, otelcol.WithInsecure())
				}
				if rev && hd < 2 {
					slices.Reverse(opts)
				}
				cfg := otelcol.NewConfig(opts...)
				cfg.SelfMetrics, cfg.SelfSpans = false, false
				var e metric.PushExporter
				e, err = otelcol.NewExporter(bg, cfg)
				if err == nil {
					export = func(ctx context.Context) error { return e.ExportMetrics(ctx, largeData(1, 1, aggKinds[0])) }
					stop = func() error { return e.ShutdownMetrics(bg, data.Metrics{}) }
				}
			}
			what := fmt.Sprintf("traces=%v compression=%q headers %v and %v, %s, unreadable CA file=%v", traces, comp, first, second, tc.name, badFile)
			r.Logf("%s: %v", what, err)
			if badFile || comp == "lz5" {
				if err == nil {
					r.Failf("C19", "%s: the exporter starts", what)
				}
				return
			}
			if err != nil {
				r.Failf("C19", "%s: %v", what, err)
				return
			}
			ctx, cancel := context.WithTimeout(bg, 20*time.Second)
			if !tc.want {
				ctx, cancel = context.WithTimeout(bg, 600*time.Millisecond)
			}
			defer cancel()
			err = export(ctx)
			arrived := len(c.gotMetrics()) + len(c.gotTraces())
			if !tc.want {
				if err == nil || arrived > 0 {
					r.Failf("C19", "%s: %d requests arrived, the export returned %v", what, arrived, err)
				}
				go func() { _ = stop() }()
				return
			}
			if err != nil || arrived != 1 {
				r.Failf("C19", "%s: %d requests arrived, the export returned %v", what, arrived, err)
				return
			}
			wantC := comp
			switch comp {
			case "":
				wantC = "zstd"
			case "none":
				wantC = ""
			}
			if got := c.gotCompression(); len(got) != 1 || got[0] != wantC {
				r.Failf("C19", "%s: the request arrived compressed with %q", what, got)
				return
			}
			md := c.gotMD()[0]
			for _, k := range []string{"a", "b", "c"} {
				v, has := want[k]
				if got := md.Get(k); has && (len(got) != 1 || got[0] != v) || !has && len(got) > 0 {
					r.Failf("C19", "%s: header %q arrived as %q", what, k, got)
					return
				}
			}
			if err := stop(); err != nil {
				r.Failf("C19", "%s: shutdown: %v", what, err)
			}
		},
	})
}
