package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/baggage"
	"go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
	tracenoop "go.opentelemetry.io/otel/trace/noop"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

// C18: the launcher.

// recLogger records; Fatalf ends the call like the default one ends the
// process.
type recLogger struct {
	mu    sync.Mutex
	fatal []string
	debug []string
	stop  bool
}

type fatalExit struct{}

func (l *recLogger) Fatalf(f string, v ...interface{}) {
	l.mu.Lock()
	l.fatal = append(l.fatal, fmt.Sprintf(f, v...))
	l.mu.Unlock()
	if l.stop {
		panic(fatalExit{})
	}
}

func (l *recLogger) Debugf(f string, v ...interface{}) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.debug = append(l.debug, fmt.Sprintf(f, v...))
}

func (l *recLogger) fatals() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.fatal...)
}

var launchVars = []string{
	"LS_SERVICE_NAME", "LS_SERVICE_VERSION", "LS_ACCESS_TOKEN", "OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", "OTEL_EXPORTER_OTLP_SPAN_INSECURE",
	"OTEL_EXPORTER_OTLP_HEADERS", "OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", "OTEL_EXPORTER_OTLP_METRIC_INSECURE", "OTEL_LOG_LEVEL", "OTEL_PROPAGATORS",
	"OTEL_RESOURCE_ATTRIBUTES", "OTEL_SERVICE_NAME", "OTEL_EXPORTER_OTLP_METRIC_PERIOD", "OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE",
	"LS_METRICS_ENABLED", "LS_METRICS_BUILTINS_ENABLED", "LS_METRICS_BUILTIN_LIBRARIES", "LS_METRICS_SDK",
}

func cleanEnv() {
	for _, v := range launchVars {
		os.Unsetenv(v)
	}
}

// setting is a launcher setting with a table of values; a value is the text
// for the environment, the option, and the field as it must come out.
type setting struct {
	name string
	env  string
	vals []setVal
	def  interface{}
	get  func(c launcher.Config) interface{}
	// merge says how an option combines with the environment (nil: it
	// replaces it).
	merge func(env, opt interface{}) interface{}
}

type setVal struct {
	text string
	opt  launcher.Option
	want interface{}
}

func strSet(name, env string, def string, opt func(string) launcher.Option, get func(c launcher.Config) interface{}, vals ...string) setting {
	s := setting{name: name, env: env, def: def, get: get}
	for _, v := range vals {
		s.vals = append(s.vals, setVal{v, opt(v), v})
	}
	return s
}

func boolSet(name, env string, def bool, opt func(bool) launcher.Option, get func(c launcher.Config) interface{}) setting {
	s := setting{name: name, env: env, def: def, get: get}
	for _, v := range []bool{true, false} {
		s.vals = append(s.vals, setVal{fmt.Sprint(v), opt(v), v})
	}
	return s
}

func listSet(name, env string, def []string, opt func([]string) launcher.Option, get func(c launcher.Config) interface{}, vals ...[]string) setting {
	s := setting{name: name, env: env, def: def, get: get}
	for _, v := range vals {
		s.vals = append(s.vals, setVal{strings.Join(v, ","), opt(v), v})
	}
	return s
}

func hdrVal(text string, m map[string]string) setVal { return setVal{text, launcher.WithHeaders(m), m} }

var settings = []setting{
	strSet("service name", "LS_SERVICE_NAME", "", launcher.WithServiceName, func(c launcher.Config) interface{} { return c.ServiceName }, "svc1", "svc2"),
	strSet("service version", "LS_SERVICE_VERSION", "unknown", launcher.WithServiceVersion, func(c launcher.Config) interface{} { return c.ServiceVersion }, "1.0", "unknown"),
	strSet("span endpoint", "OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", "ingest.lightstep.com:443", launcher.WithSpanExporterEndpoint, func(c launcher.Config) interface{} { return c.SpanExporterEndpoint }, "127.0.0.1:1", "ingest.lightstep.com:443"),
	strSet("metric endpoint", "OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", "ingest.lightstep.com:443", launcher.WithMetricExporterEndpoint, func(c launcher.Config) interface{} { return c.MetricExporterEndpoint }, "127.0.0.1:2", "ingest.lightstep.com:443"),
	boolSet("span insecure", "OTEL_EXPORTER_OTLP_SPAN_INSECURE", false, launcher.WithSpanExporterInsecure, func(c launcher.Config) interface{} { return c.SpanExporterEndpointInsecure }),
	boolSet("metric insecure", "OTEL_EXPORTER_OTLP_METRIC_INSECURE", false, launcher.WithMetricExporterInsecure, func(c launcher.Config) interface{} { return c.MetricExporterEndpointInsecure }),
	strSet("temporality", "OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", "cumulative", launcher.WithMetricExporterTemporalityPreference, func(c launcher.Config) interface{} { return c.MetricExporterTemporalityPreference }, "delta", "cumulative"),
	boolSet("metrics enabled", "LS_METRICS_ENABLED", true, launcher.WithMetricsEnabled, func(c launcher.Config) interface{} { return c.MetricsEnabled }),
	boolSet("builtins enabled", "LS_METRICS_BUILTINS_ENABLED", true, launcher.WithMetricsBuiltinsEnabled, func(c launcher.Config) interface{} { return c.MetricsBuiltinsEnabled }),
	listSet("builtin libraries", "LS_METRICS_BUILTIN_LIBRARIES", []string{"all:stable"}, launcher.WithMetricsBuiltinLibraries, func(c launcher.Config) interface{} { return c.MetricsBuiltinLibraries }, []string{"host", "runtime:stable"}, []string{"all:stable"}),
	strSet("log level", "OTEL_LOG_LEVEL", "info", launcher.WithLogLevel, func(c launcher.Config) interface{} { return c.LogLevel }, "debug", "info"),
	listSet("propagators", "OTEL_PROPAGATORS", []string{"b3"}, launcher.WithPropagators, func(c launcher.Config) interface{} { return c.Propagators }, []string{"tracecontext", "baggage"}, []string{"b3"}),
	{name: "metric period", env: "OTEL_EXPORTER_OTLP_METRIC_PERIOD", def: 30 * time.Second, get: func(c launcher.Config) interface{} {
		d, err := time.ParseDuration(c.MetricReportingPeriod)
		if err != nil {
			return err.Error()
		}
		return d
	}, vals: []setVal{{"1h", launcher.WithMetricReportingPeriod(time.Hour), time.Hour}, {"1500ms", launcher.WithMetricReportingPeriod(1500 * time.Millisecond), 1500 * time.Millisecond}}},
	{name: "headers", env: "OTEL_EXPORTER_OTLP_HEADERS", def: map[string]string{}, get: func(c launcher.Config) interface{} {
		m := map[string]string{}
		for k, v := range c.Headers {
			m[k] = v
		}
		return m
	}, merge: func(e, o interface{}) interface{} {
		m := map[string]string{}
		for k, v := range e.(map[string]string) {
			m[k] = v
		}
		for k, v := range o.(map[string]string) {
			m[k] = v
		}
		return m
	}, vals: []setVal{hdrVal("h1:a,h2:b", map[string]string{"h1": "a", "h2": "b"}), hdrVal("h2:c", map[string]string{"h2": "c"})}},
}

// apply sets up one setting from a source: 0 nothing, 1 environment, 2
// option, 3 both, 4 the option twice.
func (s setting) apply(source, val int) (opts []launcher.Option, want interface{}) {
	v, w := s.vals[val], s.vals[1-val]
	join := s.merge
	if join == nil {
		join = func(e, o interface{}) interface{} { return o }
	}
	switch source {
	case 1:
		os.Setenv(s.env, v.text)
		return nil, v.want
	case 2:
		return []launcher.Option{v.opt}, v.want
	case 3:
		os.Setenv(s.env, w.text)
		return []launcher.Option{v.opt}, join(w.want, v.want)
	case 4:
		return []launcher.Option{w.opt, v.opt}, join(w.want, v.want)
	}
	return nil, s.def
}

// launch calls the launcher, a fatal error ending the call.
func launch(lg *recLogger, opts ...launcher.Option) (l launcher.Launcher, ended bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(fatalExit); !ok {
				panic(p)
			}
			ended = true
		}
	}()
	return launcher.ConfigureOpentelemetry(append([]launcher.Option{launcher.WithLogger(lg), launcher.WithErrorHandler(sink)}, opts...)...), false
}

func resetGlobals() {
	otel.SetMeterProvider(noop.NewMeterProvider())
	otel.SetTracerProvider(tracenoop.NewTracerProvider())
	otel.SetTextMapPropagator(propagation.NewCompositeTextMapPropagator())
	sink.take()
}

// A resource source combination, and what must come out.
type resCase struct {
	lsName, optName, lsVersion, optVersion int // 0: not given
	env                                    string
	attrs                                  map[string]string
}

func parseKV(s string) map[string]string {
	m := map[string]string{}
	for _, kv := range strings.Split(s, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			m[strings.TrimSpace(k)] = strings.TrimSpace(v)
		}
	}
	return m
}

var resEnvs = []string{"", "service.name=envname,service.version=envver", "k=env,host.name=envhost", "host.name=", "telemetry.sdk.language=x,a=b"}
var resAttrMaps = []map[string]string{nil, {"k": "code", "l": "m"}, {"service.name": "codename"}, {"service.version": "codever", "host.name": "codehost"}, {"k": "", "host.name": "", "service.name": ""}}

// refResource is the reference for what the resource has, of the attributes a
// user controls.
func refResource(envAttrs map[string]string, name, version string, attrs map[string]string) map[string]string {
	m := map[string]string{}
	for k, v := range envAttrs {
		m[k] = v
	}
	m["telemetry.sdk.name"], m["telemetry.sdk.language"], m["telemetry.distro.name"] = "launcher", "go", "lightstep"
	if name != "" {
		m["service.name"] = name
	}
	if version != "" {
		m["service.version"] = version
	}
	for k, v := range attrs {
		if v != "" {
			m[k] = v
		}
	}
	if m["host.name"] == "" {
		h, _ := os.Hostname()
		m["host.name"] = h
	}
	return m
}

func compareResource(get func(k string) (string, bool), want map[string]string) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if got, ok := get(k); !ok || got != want[k] {
			return fmt.Sprintf("resource attribute %s is %q, want %q", k, got, want[k])
		}
	}
	return ""
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "config-values", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "every pair of settings (thorough: triple), each from no source, the environment, an option, both, or an option given twice, with each of two values; all settings compared",
		Body: func(r *mc.R) {
			cleanEnv()
			defer cleanEnv()
			n := 2
			if r.Thorough {
				n = 3
			}
			want := make([]interface{}, len(settings))
			for i, s := range settings {
				want[i] = s.def
			}
			var opts []launcher.Option
			from := 0
			var text []string
			for i := 0; i < n && from < len(settings); i++ {
				at := from + r.Choose(len(settings)-from)
				from = at + 1
				source, val := r.Choose(5), 0
				if source != 0 {
					val = r.Choose(2)
				}
				o, w := settings[at].apply(source, val)
				opts = append(opts, o...)
				want[at] = w
				text = append(text, fmt.Sprintf("%s: source %d value %d", settings[at].name, source, val))
			}
			r.Logf("%s", strings.Join(text, "; "))
			lg := &recLogger{}
			c := launcher.NewConfigForVerif(append(opts, launcher.WithLogger(lg))...)
			for i, s := range settings {
				if got := s.get(c); !reflect.DeepEqual(got, want[i]) {
					r.Failf("C18", "with %v: %s is %v, want %v", text, s.name, got, want[i])
					return
				}
			}
			if f := lg.fatals(); len(f) > 0 {
				r.Failf("C18", "with %v: refused: %v", text, f)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "config-invalid", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "values that cannot be used are reported",
		Body: func(r *mc.R) {
			cleanEnv()
			defer cleanEnv()
			defer resetGlobals()
			c := coll()
			lg := &recLogger{stop: true}
			opts := []launcher.Option{launcher.WithServiceName("s"), launcher.WithMetricsBuiltinsEnabled(false),
				launcher.WithSpanExporterEndpoint(c.addr), launcher.WithSpanExporterInsecure(true), launcher.WithMetricExporterEndpoint(c.addr), launcher.WithMetricExporterInsecure(true)}
			cases := []struct {
				env, val string
				opt      launcher.Option
				say      string
			}{
				{"OTEL_EXPORTER_OTLP_SPAN_INSECURE", "x", nil, "environment error"},
				{"OTEL_EXPORTER_OTLP_METRIC_INSECURE", "x", nil, "environment error"},
				{"LS_METRICS_ENABLED", "x", nil, "environment error"},
				{"LS_METRICS_BUILTINS_ENABLED", "x", nil, "environment error"},
				{"OTEL_EXPORTER_OTLP_METRIC_PERIOD", "300million", nil, "metric reporting period"},
				{"OTEL_EXPORTER_OTLP_METRIC_PERIOD", "0s", nil, "metric reporting period"},
				{"OTEL_EXPORTER_OTLP_METRIC_PERIOD", "-1s", nil, "metric reporting period"},
				{"", "", launcher.WithMetricReportingPeriod(0), "metric reporting period"},
				{"", "", launcher.WithMetricReportingPeriod(-5), "metric reporting period"},
				{"OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", "x", nil, "temporality preference"},
				{"", "", launcher.WithMetricExporterTemporalityPreference("deltas"), "temporality preference"},
				{"OTEL_PROPAGATORS", "x", nil, "propagators"},
				{"", "", launcher.WithPropagators([]string{"y", "z"}), "propagators"},
				{"", "", launcher.WithPropagators(nil), "propagators"},
			}
			k := cases[r.Choose(len(cases))]
			if k.env != "" {
				os.Setenv(k.env, k.val)
			}
			if k.opt != nil {
				opts = append(opts, k.opt)
			}
			r.Logf("%s=%s: %s", k.env, k.val, k.say)
			l, ended := launch(lg, opts...)
			if !ended {
				l.Shutdown()
			}
			if f := lg.fatals(); len(f) != 1 || !strings.Contains(f[0], k.say) {
				r.Failf("C18", "%s=%s: reported %q, want an error of %s", k.env, k.val, f, k.say)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "launch-refuse", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "every source of the service name, the access token and the endpoints: refused exactly when the name, or the token for a default endpoint, is missing",
		Body: func(r *mc.R) {
			cleanEnv()
			defer cleanEnv()
			defer resetGlobals()
			c := coll()
			lg := &recLogger{stop: true}
			opts := []launcher.Option{launcher.WithMetricsBuiltinsEnabled(false), launcher.WithMetricReportingPeriod(time.Hour), launcher.WithSpanExporterInsecure(true), launcher.WithMetricExporterInsecure(true)}
			name, ns := true, r.Choose(9)
			switch ns {
			case 0:
				name = false
			case 1:
				os.Setenv("LS_SERVICE_NAME", "x")
			case 2:
				opts = append(opts, launcher.WithServiceName("x"))
			case 3:
				os.Setenv("OTEL_RESOURCE_ATTRIBUTES", "service.name=x")
			case 4:
				opts = append(opts, launcher.WithResourceAttributes(map[string]string{"service.name": "x"}))
			case 5:
				opts = append(opts, launcher.WithServiceName(""))
				name = false
			case 6:
				opts = append(opts, launcher.WithResourceAttributes(map[string]string{"service.name": ""}))
				name = false
			case 7:
				os.Setenv("LS_SERVICE_NAME", "x")
				opts = append(opts, launcher.WithServiceName(""))
				name = false
			case 8:
				os.Setenv("OTEL_RESOURCE_ATTRIBUTES", "service.name=,k=v")
				name = false
			}
			tok, tks := "t", r.Choose(8)
			switch tks {
			case 0:
				tok = ""
			case 1:
				os.Setenv("LS_ACCESS_TOKEN", "t")
			case 2:
				opts = append(opts, launcher.WithAccessToken("t"))
			case 3:
				os.Setenv("OTEL_EXPORTER_OTLP_HEADERS", "lightstep-access-token:t")
			case 4:
				opts = append(opts, launcher.WithHeaders(map[string]string{"lightstep-access-token": "t"}))
			case 5:
				os.Setenv("LS_ACCESS_TOKEN", "other")
				opts = append(opts, launcher.WithAccessToken("t"))
			case 6:
				os.Setenv("LS_ACCESS_TOKEN", "other")
				os.Setenv("OTEL_EXPORTER_OTLP_HEADERS", "lightstep-access-token:t")
			case 7:
				opts = append(opts, launcher.WithHeaders(map[string]string{"other": "t"}))
				tok = ""
			}
			// Endpoints: default, the collector, disabled.
			sp, me, on := r.Choose(3), r.Choose(3), r.Choose(2) == 0
			for i, with := range []func(string) launcher.Option{launcher.WithSpanExporterEndpoint, launcher.WithMetricExporterEndpoint} {
				switch []int{sp, me}[i] {
				case 1:
					opts = append(opts, with(c.addr))
				case 2:
					opts = append(opts, with(""))
				}
			}
			opts = append(opts, launcher.WithMetricsEnabled(on))
			text := fmt.Sprintf("name source %d, token source %d, span endpoint %d, metric endpoint %d, metrics %v", ns, tks, sp, me, on)
			r.Logf("%s", text)
			if name && tok != "" && (sp == 0 || me == 0) && !r.Thorough && tks > 2 && ns != 1 {
				// Nothing to refuse, and a set-up for the real endpoint.
				return
			}
			l, ended := launch(lg, opts...)
			f := strings.Join(lg.fatals(), "; ")
			want := ""
			switch {
			case !name:
				want = "service name missing"
			case tok == "" && (sp == 0 || me == 0 && on):
				want = "access token missing"
			case tok == "" && me == 0:
				// The endpoint of disabled metrics: refused or not.
				want = "?"
			}
			if want != "?" && (want == "") != (f == "") || want != "?" && !strings.Contains(f, want) {
				r.Failf("C18", "%s: reported %q, want %q", text, f, want)
				return
			}
			if ended {
				if want == "" {
					r.Failf("C18", "%s: did not start: %s", text, f)
				}
				return
			}
			if got := launcher.ConfigOf(l).Headers["lightstep-access-token"]; got != tok {
				r.Failf("C18", "%s: access token %q, want %q", text, got, tok)
				return
			}
			// Disabled signals are not set up.
			_, noTrace := otel.GetTracerProvider().(tracenoop.TracerProvider)
			_, noMetric := otel.GetMeterProvider().(noop.MeterProvider)
			if noTrace != (sp == 2) || noMetric != (!on || me == 2) {
				r.Failf("C18", "%s: tracing set up: %v, metrics set up: %v", text, !noTrace, !noMetric)
				return
			}
			if sp != 0 && me != 0 {
				l.Shutdown()
				if f := lg.fatals(); len(f) > 0 {
					r.Failf("C18", "%s: shutdown: %v", text, f)
				}
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "launch-resource", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "every combination of resource attributes from the environment, service name and version, and attributes in code",
		Body: func(r *mc.R) {
			cleanEnv()
			defer cleanEnv()
			env := resEnvs[r.Choose(len(resEnvs))]
			attrs := resAttrMaps[r.Choose(len(resAttrMaps))]
			name, version := "", "unknown"
			var opts []launcher.Option
			if env != "" {
				os.Setenv("OTEL_RESOURCE_ATTRIBUTES", env)
			}
			ns, vs := r.Choose(4), r.Choose(4)
			if ns&1 == 1 {
				os.Setenv("LS_SERVICE_NAME", "lsname")
				name = "lsname"
			}
			if ns&2 == 2 {
				opts = append(opts, launcher.WithServiceName("optname"))
				name = "optname"
			}
			if vs&1 == 1 {
				os.Setenv("LS_SERVICE_VERSION", "lsver")
				version = "lsver"
			}
			if vs&2 == 2 {
				opts = append(opts, launcher.WithServiceVersion("optver"))
				version = "optver"
			}
			if attrs != nil {
				opts = append(opts, launcher.WithResourceAttributes(attrs))
			}
			lg := &recLogger{}
			c := launcher.NewConfigForVerif(append(opts, launcher.WithLogger(lg))...)
			want := refResource(parseKV(env), name, version, attrs)
			set := c.Resource.Set()
			why := compareResource(func(k string) (string, bool) {
				v, ok := set.Value(attribute.Key(k))
				return v.AsString(), ok
			}, want)
			if why == "" && set.Len() > len(want)+2 {
				why = fmt.Sprintf("resource %v has more than %v", set.ToSlice(), want)
			}
			if why != "" {
				r.Failf("C18", "environment %q, name %q, version %q, attributes %v: %s", env, name, version, attrs, why)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "launch-metrics", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc:  "metrics end to end: endpoint, insecure, headers, token and resource from the environment or options arrive at the collector with every measurement",
		Body: func(r *mc.R) { launchRun(r, false) },
	})
	mc.Register(&mc.Scenario{
		Name: "launch-traces", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc:  "traces (and metrics) end to end: the same, with every ended span",
		Body: func(r *mc.R) { launchRun(r, true) },
	})
	mc.Register(&mc.Scenario{
		Name: "launch-handler", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "the error handler given, once or twice, gets the errors of the set-up, those it replaces get none",
		Body: func(r *mc.R) {
			cleanEnv()
			defer cleanEnv()
			defer resetGlobals()
			defer otel.SetErrorHandler(sink)
			old := &errSink{}
			otel.SetErrorHandler(old)
			c := coll()
			hs := []*errSink{{}, {}}
			lg := &recLogger{}
			opts := []launcher.Option{launcher.WithLogger(lg), launcher.WithServiceName("s"), launcher.WithMetricReportingPeriod(time.Hour),
				launcher.WithSpanExporterEndpoint(c.addr), launcher.WithSpanExporterInsecure(true),
				launcher.WithMetricExporterEndpoint(c.addr), launcher.WithMetricExporterInsecure(true), launcher.WithErrorHandler(hs[0])}
			use := r.Choose(2)
			if use == 1 {
				opts = append(opts, launcher.WithErrorHandler(hs[1]))
			}
			builtin := r.Choose(2) == 1
			opts = append(opts, launcher.WithMetricsBuiltinsEnabled(builtin), launcher.WithMetricsBuiltinLibraries([]string{"nosuch"}))
			l := launcher.ConfigureOpentelemetry(opts...)
			if got := hs[use].take(); (len(got) > 0) != builtin {
				r.Failf("C18", "set-up with an unknown builtin %v: the handler got %v", builtin, got)
				return
			}
			c.reset()
			l.Shutdown()
			if got := append(hs[1-use].take(), old.take()...); len(got) > 0 {
				r.Failf("C18", "a handler that was replaced got %v", got)
				return
			}
			if f := lg.fatals(); len(f) > 0 {
				r.Failf("C18", "%v", f)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "launch-one-fails", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "one signal cannot be set up, and the program goes on: that is reported, and the data of the other signal arrive",
		Body: func(r *mc.R) {
			cleanEnv()
			defer cleanEnv()
			defer resetGlobals()
			c := coll()
			lg := &recLogger{}
			opts := []launcher.Option{launcher.WithServiceName("s"), launcher.WithMetricsBuiltinsEnabled(false), launcher.WithMetricReportingPeriod(time.Hour),
				launcher.WithSpanExporterEndpoint(c.addr), launcher.WithSpanExporterInsecure(true),
				launcher.WithMetricExporterEndpoint(c.addr), launcher.WithMetricExporterInsecure(true)}
			var badTrace, badMetric bool
			what := ""
			switch r.Choose(5) {
			case 0:
				badTrace, what = true, "unsupported propagators"
				opts = append(opts, launcher.WithPropagators([]string{"none"}))
			case 1:
				badMetric, what = true, "no such temporality"
				opts = append(opts, launcher.WithMetricExporterTemporalityPreference("x"))
			case 2:
				badMetric, what = true, "a negative period"
				opts = append(opts, launcher.WithMetricReportingPeriod(-time.Second))
			case 3:
				badTrace, badMetric, what = true, true, "both"
				opts = append(opts, launcher.WithPropagators([]string{"none"}), launcher.WithMetricExporterTemporalityPreference("x"))
			case 4:
				what = "neither"
			}
			l, _ := launch(lg, opts...)
			f := lg.fatals()
			r.Logf("%s: %v", what, f)
			n := 0
			if badTrace {
				n++
			}
			if badMetric {
				n++
			}
			if len(f) != n {
				r.Failf("C18", "%s: reported %v", what, f)
				return
			}
			ctr, _ := otel.Meter("app").Int64Counter("x")
			ctr.Add(bg, 1)
			_, sp := otel.Tracer("app").Start(bg, "x")
			sp.End()
			l.Shutdown()
			if got := lg.fatals(); len(got) != n {
				r.Failf("C18", "%s: the shutdown reports %v", what, got[n:])
				return
			}
			if m, t := len(c.gotMetrics()), len(c.gotTraces()); (m > 0) == badMetric || (t > 0) == badTrace {
				r.Failf("C18", "%s: %d requests with metrics, %d with spans", what, m, t)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "launch-security", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "each signal secured or not, from no source, the environment, an option, or both, and each signal alone: a collector that speaks no TLS gets the data of exactly the signals that are set insecure",
		// An execution with a secure signal takes 15 seconds, of waiting.
		Flat: func(thorough bool) int {
			if thorough {
				return 75
			}
			return 12
		},
		Body: func(r *mc.R) {
			ns := 2
			if r.Thorough {
				ns = 5
			}
			which := r.Choose(3 * ns * ns)
			cleanEnv()
			defer cleanEnv()
			defer resetGlobals()
			cm := coll()
			if secondCollector == nil {
				secondCollector = newCollector()
			}
			ct := secondCollector
			ct.reset()
			opts := []launcher.Option{launcher.WithServiceName("s"), launcher.WithMetricsBuiltinsEnabled(false), launcher.WithMetricReportingPeriod(time.Hour)}
			set := func(choice int, env string, opt func(bool) launcher.Option) bool {
				switch choice {
				case 1:
					os.Setenv(env, "true")
					return true
				case 2:
					opts = append(opts, opt(true))
					return true
				case 3:
					os.Setenv(env, "true")
					opts = append(opts, opt(false))
				case 4:
					os.Setenv(env, "false")
					opts = append(opts, opt(true))
					return true
				}
				return false
			}
			ti := set(which/3%ns, "OTEL_EXPORTER_OTLP_SPAN_INSECURE", launcher.WithSpanExporterInsecure)
			mi := set(which/3/ns, "OTEL_EXPORTER_OTLP_METRIC_INSECURE", launcher.WithMetricExporterInsecure)
			tOn, mOn := true, true
			switch which % 3 {
			case 1:
				tOn = false
				opts = append(opts, launcher.WithSpanExporterEndpoint(""), launcher.WithMetricExporterEndpoint(cm.addr))
			case 2:
				mOn = false
				opts = append(opts, launcher.WithSpanExporterEndpoint(ct.addr), launcher.WithMetricExporterEndpoint(""))
			default:
				opts = append(opts, launcher.WithSpanExporterEndpoint(ct.addr), launcher.WithMetricExporterEndpoint(cm.addr))
			}
			lg := &recLogger{}
			// The access token is needed for the default endpoints only.
			l, _ := launch(lg, opts...)
			what := fmt.Sprintf("spans on=%v insecure=%v, metrics on=%v insecure=%v", tOn, ti, mOn, mi)
			r.Logf("%s", what)
			ctr, _ := otel.Meter("app").Int64Counter("x")
			ctr.Add(bg, 1)
			_, sp := otel.Tracer("app").Start(bg, "x")
			sp.End()
			l.Shutdown()
			sink.take()
			if f := lg.fatals(); len(f) > 0 && (!tOn || ti) && (!mOn || mi) {
				r.Failf("C18", "%s: reported %v", what, f)
				return
			}
			if n := len(cm.gotMetrics()); (n > 0) != (mOn && mi) {
				r.Failf("C18", "%s: a collector without TLS got %d requests with metrics", what, n)
				return
			}
			if n := len(ct.gotTraces()); (n > 0) != (tOn && ti) {
				r.Failf("C18", "%s: a collector without TLS got %d requests with spans", what, n)
				return
			}
			if len(cm.gotTraces()) > 0 || len(ct.gotMetrics()) > 0 {
				r.Failf("C18", "%s: data of one signal arrived at the endpoint of the other", what)
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "launch-propagators", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "every list of up to three propagators, known and unknown: exactly the headers of the known ones are written",
		Body: func(r *mc.R) {
			cleanEnv()
			defer cleanEnv()
			defer resetGlobals()
			c := coll()
			names := []string{"b3", "tracecontext", "baggage", "ottrace", "w3c"}
			fields := []string{"x-b3-traceid", "traceparent", "baggage", "ot-tracer-traceid", ""}
			n := 1 + r.Choose(2)
			if r.Thorough {
				n = 1 + r.Choose(3)
			}
			var list []string
			want := map[string]bool{}
			for i := 0; i < n; i++ {
				k := r.Choose(len(names))
				list = append(list, names[k])
				if fields[k] != "" {
					want[fields[k]] = true
				}
			}
			opts := []launcher.Option{launcher.WithServiceName("s"), launcher.WithMetricsEnabled(false), launcher.WithSpanExporterEndpoint(c.addr), launcher.WithSpanExporterInsecure(true)}
			if r.Choose(2) == 0 {
				os.Setenv("OTEL_PROPAGATORS", strings.Join(list, ","))
			} else {
				opts = append(opts, launcher.WithPropagators(list))
			}
			lg := &recLogger{stop: true}
			// The metric endpoint is the default one, unused.
			opts = append(opts, launcher.WithAccessToken("t"))
			l, ended := launch(lg, opts...)
			if ended != (len(want) == 0) {
				r.Failf("C18", "propagators %v: %v", list, lg.fatals())
				return
			}
			if ended {
				return
			}
			defer l.Shutdown()
			ctx := trace.ContextWithSpanContext(bg, mkSC(3, "", false))
			bag, err := baggageOf("k", "v")
			if err != nil {
				panic(err)
			}
			car := propagation.MapCarrier{}
			otel.GetTextMapPropagator().Inject(bag(ctx), car)
			got := map[string]bool{}
			for k := range car {
				got[strings.ToLower(k)] = true
			}
			for _, f := range fields {
				if f != "" && got[f] != want[f] {
					r.Failf("C18", "propagators %v write %v, want %v", list, got, want)
					return
				}
			}
			// A request with a different trace in every format: the propagators
			// read in the order given, so the last format's is used.
			in := propagation.MapCarrier{
				"traceparent":  "00-1100000000000000000000000000000a-110000000000000a-01",
				"X-B3-Traceid": "2200000000000000000000000000000b", "X-B3-Spanid": "220000000000000b", "X-B3-Sampled": "1",
				"x-b3-traceid": "2200000000000000000000000000000b", "x-b3-spanid": "220000000000000b", "x-b3-sampled": "1",
				"ot-tracer-traceid": "330000000000000c", "ot-tracer-spanid": "330000000000000c", "ot-tracer-sampled": "true",
				"baggage": "k=v",
			}
			ectx := otel.GetTextMapPropagator().Extract(bg, in)
			wantSpan := "0000000000000000"
			for _, n := range list {
				switch n {
				case "tracecontext":
					wantSpan = "110000000000000a"
				case "b3":
					wantSpan = "220000000000000b"
				case "ottrace":
					wantSpan = "330000000000000c"
				}
			}
			if got := trace.SpanContextFromContext(ectx).SpanID().String(); got != wantSpan {
				r.Failf("C18", "propagators %v read span %s, want %s", list, got, wantSpan)
				return
			}
			// (That of OpenTracing brings its own baggage.)
			if got := baggage.FromContext(ectx).Member("k").Value() == "v"; got != want["baggage"] && !want["ot-tracer-traceid"] {
				r.Failf("C18", "propagators %v read the baggage: %v", list, got)
				return
			}
		},
	})
}
