package main

import (
	"context"
	"fmt"
	"os"
	"strings"
	"time"

	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/baggage"
	"go.opentelemetry.io/otel/trace"
	"google.golang.org/grpc/metadata"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

func baggageOf(k, v string) (func(context.Context) context.Context, error) {
	m, err := baggage.NewMember(k, v)
	if err != nil {
		return nil, err
	}
	b, err := baggage.New(m)
	return func(ctx context.Context) context.Context { return baggage.ContextWithBaggage(ctx, b) }, err
}

// allMetrics calls f for each metric that arrived.
func allMetrics(reqs []pmetric.Metrics, f func(res pcommon.Map, scope string, m pmetric.Metric)) {
	for _, d := range reqs {
		for i := 0; i < d.ResourceMetrics().Len(); i++ {
			rm := d.ResourceMetrics().At(i)
			for j := 0; j < rm.ScopeMetrics().Len(); j++ {
				sm := rm.ScopeMetrics().At(j)
				for k := 0; k < sm.Metrics().Len(); k++ {
					f(rm.Resource().Attributes(), sm.Scope().Name(), sm.Metrics().At(k))
				}
			}
		}
	}
}

func getStr(m pcommon.Map) func(k string) (string, bool) {
	return func(k string) (string, bool) {
		v, ok := m.Get(k)
		if !ok {
			return "", false
		}
		return v.AsString(), true
	}
}

var secondCollector *collector

// launchRun starts the launcher with settings from either source, uses it,
// shuts it down, and judges what the collectors got.
func launchRun(r *mc.R, traces bool) {
	cleanEnv()
	defer cleanEnv()
	defer resetGlobals()
	cm := coll()
	ct := cm
	if secondCollector == nil {
		secondCollector = newCollector()
	}
	// Another collector for the other signal: they are not mixed up.
	ct = secondCollector
	ct.reset()
	lg := &recLogger{}
	opts := []launcher.Option{launcher.WithMetricReportingPeriod(time.Hour), launcher.WithMetricsBuiltinsEnabled(false)}
	var text []string
	env := func(what string, choice int, k, v string, o launcher.Option) {
		text = append(text, fmt.Sprint(what, " from ", []string{"environment", "option"}[choice]))
		if choice == 0 {
			os.Setenv(k, v)
		} else {
			opts = append(opts, o)
		}
	}
	metrics := true
	if traces {
		metrics = r.Choose(2) == 0
		opts = append(opts, launcher.WithMetricsEnabled(metrics))
		e, i := 0, 0
		if r.Thorough {
			e, i = r.Choose(2), r.Choose(2)
		} else {
			e = r.Choose(2)
			i = e
		}
		env("span endpoint", e, "OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", ct.addr, launcher.WithSpanExporterEndpoint(ct.addr))
		env("span insecure", i, "OTEL_EXPORTER_OTLP_SPAN_INSECURE", "true", launcher.WithSpanExporterInsecure(true))
	} else {
		opts = append(opts, launcher.WithSpanExporterEndpoint(""))
	}
	e, i := 0, 1
	if !traces {
		e, i = r.Choose(2), r.Choose(2)
	}
	env("metric endpoint", e, "OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", cm.addr, launcher.WithMetricExporterEndpoint(cm.addr))
	env("metric insecure", i, "OTEL_EXPORTER_OTLP_METRIC_INSECURE", "true", launcher.WithMetricExporterInsecure(true))

	wantMD := map[string]string{}
	hs := r.Choose(3)
	if hs != 1 {
		os.Setenv("OTEL_EXPORTER_OTLP_HEADERS", "h1:env,h2:env")
		wantMD["h1"], wantMD["h2"] = "env", "env"
	}
	if hs != 0 {
		opts = append(opts, launcher.WithHeaders(map[string]string{"h2": "opt", "h3": "opt"}))
		wantMD["h2"], wantMD["h3"] = "opt", "opt"
	}
	ts := r.Choose(3)
	switch ts {
	case 1:
		os.Setenv("LS_ACCESS_TOKEN", "envtok")
		wantMD["lightstep-access-token"] = "envtok"
	case 2:
		os.Setenv("LS_ACCESS_TOKEN", "envtok")
		opts = append(opts, launcher.WithAccessToken("opttok"))
		wantMD["lightstep-access-token"] = "opttok"
	}
	text = append(text, fmt.Sprintf("headers %d token %d", hs, ts))
	rs := r.Choose(3)
	var wantRes map[string]string
	switch rs {
	case 0:
		os.Setenv("LS_SERVICE_NAME", "envname")
		wantRes = refResource(nil, "envname", "unknown", nil)
	case 1:
		os.Setenv("OTEL_RESOURCE_ATTRIBUTES", "service.name=resname,k=v")
		opts = append(opts, launcher.WithServiceVersion("2"))
		wantRes = refResource(map[string]string{"service.name": "resname", "k": "v"}, "", "2", nil)
	case 2:
		os.Setenv("OTEL_RESOURCE_ATTRIBUTES", "k=v,l=v")
		m := map[string]string{"k": "code"}
		opts = append(opts, launcher.WithServiceName("optname"), launcher.WithResourceAttributes(m))
		wantRes = refResource(map[string]string{"k": "v", "l": "v"}, "optname", "unknown", m)
	}
	text = append(text, fmt.Sprintf("resource %d", rs))
	r.Logf("%s", strings.Join(text, ", "))

	l, _ := launch(lg, opts...)
	nm := 3
	c, err := otel.Meter("app").Int64Counter("app.count")
	if err != nil {
		r.Failf("C18", "%v", err)
		return
	}
	for i := 0; i < nm; i++ {
		c.Add(bg, 1)
	}
	ns := 5
	if traces {
		// Spans without a parent, with a local one, and with remote ones,
		// sampled and not.
		local, parent := otel.Tracer("app").Start(bg, "app.span0")
		parent.End()
		remote := trace.ContextWithRemoteSpanContext(bg, mkSC(4, "", true))
		unsampled := trace.ContextWithRemoteSpanContext(bg, mkSC(5, "", true).WithTraceFlags(0))
		for i, ctx := range []context.Context{bg, local, remote, unsampled} {
			_, sp := otel.Tracer("app").Start(ctx, fmt.Sprint("app.span", i+1))
			sp.End()
		}
	}
	l.Shutdown()
	if f := lg.fatals(); len(f) > 0 {
		r.Failf("C18", "with %v: %v", text, f)
		return
	}
	if es := sink.take(); len(es) > 0 {
		r.Failf("C18", "with %v: error handler got %v", text, es)
		return
	}
	checkMD := func(what string, md []metadata.MD) bool {
		for _, m := range md {
			for k, v := range wantMD {
				if g := m.Get(k); len(g) != 1 || g[0] != v {
					r.Failf("C18", "with %v: %s have header %s=%v, want %s", text, what, k, g, v)
					return false
				}
			}
			for _, k := range []string{"h1", "h2", "h3", "lightstep-access-token"} {
				if _, ok := wantMD[k]; !ok && len(m.Get(k)) > 0 {
					r.Failf("C18", "with %v: %s have unwanted header %s=%v", text, what, k, m.Get(k))
					return false
				}
			}
		}
		return true
	}
	total := int64(0)
	bad := ""
	allMetrics(cm.gotMetrics(), func(res pcommon.Map, scope string, m pmetric.Metric) {
		if w := compareResource(getStr(res), wantRes); w != "" {
			bad = w
		}
		if m.Name() == "app.count" && scope == "app" {
			for i := 0; i < m.Sum().DataPoints().Len(); i++ {
				total += m.Sum().DataPoints().At(i).IntValue()
			}
		}
	})
	want := int64(nm)
	if !metrics {
		want = 0
	}
	if bad == "" && total != want {
		bad = fmt.Sprintf("%d of %d measurements arrived with metrics enabled=%v", total, nm, metrics)
	}
	if bad == "" && !metrics && len(cm.gotMetrics()) > 0 {
		bad = "metrics arrived though disabled"
	}
	if bad == "" && (len(ct.gotMetrics()) > 0 || len(cm.gotTraces()) > 0) {
		bad = "data of one signal arrived at the endpoint of the other"
	}
	if bad != "" {
		r.Failf("C18", "with %v: %s", text, bad)
		return
	}
	if !checkMD("metric requests", cm.gotMD()) {
		return
	}
	if !traces {
		if len(ct.gotTraces()) > 0 {
			r.Failf("C18", "with %v: spans arrived though disabled", text)
		}
		return
	}
	seen := map[string]int{}
	for _, t := range ct.gotTraces() {
		for i := 0; i < t.ResourceSpans().Len(); i++ {
			rsp := t.ResourceSpans().At(i)
			if w := compareResource(getStr(rsp.Resource().Attributes()), wantRes); w != "" {
				r.Failf("C18", "with %v: spans: %s", text, w)
				return
			}
			for j := 0; j < rsp.ScopeSpans().Len(); j++ {
				for k := 0; k < rsp.ScopeSpans().At(j).Spans().Len(); k++ {
					if n := rsp.ScopeSpans().At(j).Spans().At(k).Name(); strings.HasPrefix(n, "app.span") {
						seen[n]++
					}
				}
			}
		}
	}
	for i := 0; i < ns; i++ {
		if n := seen[fmt.Sprint("app.span", i)]; n != 1 {
			r.Failf("C18", "with %v: span %d arrived %d times", text, i, n)
			return
		}
	}
	checkMD("trace requests", ct.gotMD())
}
