package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	traceotel "github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
)

func newTraceExporter(c *collector, opts ...func(*traceotel.Config)) sdktrace.SpanExporter {
	cfg := traceotel.NewConfig(traceotel.WithInsecure(), traceotel.WithEndpoint(c.addr), traceotel.WithCompressor("none"))
	cfg.SelfMetrics, cfg.SelfSpans = false, false
	cfg.Batcher.Timeout = 0
	for _, o := range opts {
		o(&cfg)
	}
	e, err := traceotel.NewExporter(bg, cfg)
	if err != nil {
		panic(err)
	}
	return e
}

var keptTrace sdktrace.SpanExporter

// Canonical texts of spans.

func kindText(i int) string {
	return []string{"unspecified", "internal", "server", "client", "producer", "consumer"}[i]
}

func spanIn(s tracetest.SpanStub) string {
	var b strings.Builder
	kind := int(s.SpanKind)
	if kind < 0 || kind > 5 {
		kind = 0
	}
	code := "unset"
	switch s.Status.Code {
	case codes.Ok:
		code = "ok"
	case codes.Error:
		code = "error"
	}
	fmt.Fprintf(&b, "resource %s|scope %q %q %q|%s %s parent %s state %q|%q %s|%d %d|%s %q|%s", attrsIn(resAttrs(s.Resource)),
		s.InstrumentationScope.Name, s.InstrumentationScope.Version, s.InstrumentationScope.SchemaURL,
		s.SpanContext.TraceID(), s.SpanContext.SpanID(), parentText(s.Parent.SpanID().IsValid(), s.Parent.SpanID().String()), s.SpanContext.TraceState().String(),
		s.Name, kindText(kind), s.StartTime.UnixNano(), s.EndTime.UnixNano(), code, s.Status.Description, attrsIn(s.Attributes))
	for _, e := range s.Events {
		fmt.Fprintf(&b, "|event %q %d %s dropped %d", e.Name, e.Time.UnixNano(), attrsIn(e.Attributes), e.DroppedAttributeCount)
	}
	for _, l := range s.Links {
		fmt.Fprintf(&b, "|link %s %s %q %s dropped %d", l.SpanContext.TraceID(), l.SpanContext.SpanID(), l.SpanContext.TraceState().String(), attrsIn(l.Attributes), l.DroppedAttributeCount)
	}
	fmt.Fprintf(&b, "|dropped %d %d %d", s.DroppedAttributes, s.DroppedEvents, s.DroppedLinks)
	return b.String()
}

func resAttrs(r *resource.Resource) []attribute.KeyValue {
	if r == nil {
		return nil
	}
	return r.Attributes()
}

func parentText(valid bool, s string) string {
	if !valid {
		return "none"
	}
	return s
}

func spansOut(t ptrace.Traces) []string {
	var out []string
	for i := 0; i < t.ResourceSpans().Len(); i++ {
		rs := t.ResourceSpans().At(i)
		for j := 0; j < rs.ScopeSpans().Len(); j++ {
			ss := rs.ScopeSpans().At(j)
			for k := 0; k < ss.Spans().Len(); k++ {
				s := ss.Spans().At(k)
				var b strings.Builder
				code := "unset"
				switch s.Status().Code() {
				case ptrace.StatusCodeOk:
					code = "ok"
				case ptrace.StatusCodeError:
					code = "error"
				}
				fmt.Fprintf(&b, "resource %s|scope %q %q %q|%s %s parent %s state %q|%q %s|%d %d|%s %q|%s", attrsOut(rs.Resource().Attributes()),
					ss.Scope().Name(), ss.Scope().Version(), ss.SchemaUrl(),
					trace.TraceID(s.TraceID()), trace.SpanID(s.SpanID()), parentText(!s.ParentSpanID().IsEmpty(), s.ParentSpanID().String()), s.TraceState().AsRaw(),
					s.Name(), kindText(int(s.Kind())), s.StartTimestamp(), s.EndTimestamp(), code, s.Status().Message(), attrsOut(s.Attributes()))
				for e := 0; e < s.Events().Len(); e++ {
					ev := s.Events().At(e)
					fmt.Fprintf(&b, "|event %q %d %s dropped %d", ev.Name(), ev.Timestamp(), attrsOut(ev.Attributes()), ev.DroppedAttributesCount())
				}
				for l := 0; l < s.Links().Len(); l++ {
					ln := s.Links().At(l)
					fmt.Fprintf(&b, "|link %s %s %q %s dropped %d", trace.TraceID(ln.TraceID()), trace.SpanID(ln.SpanID()), ln.TraceState().AsRaw(), attrsOut(ln.Attributes()), ln.DroppedAttributesCount())
				}
				fmt.Fprintf(&b, "|dropped %d %d %d", s.DroppedAttributesCount(), s.DroppedEventsCount(), s.DroppedLinksCount())
				out = append(out, b.String())
			}
		}
	}
	return out
}

// order is the text of everything a caller owns, in its order.
func order(s tracetest.SpanStub) string {
	var b strings.Builder
	fmt.Fprint(&b, s.Attributes)
	for _, e := range s.Events {
		fmt.Fprint(&b, e.Attributes)
	}
	for _, l := range s.Links {
		fmt.Fprint(&b, l.Attributes)
	}
	return b.String()
}

// Input tables.

func mkSC(n byte, state string, remote bool) trace.SpanContext {
	ts, err := trace.ParseTraceState(state)
	if err != nil {
		panic(err)
	}
	return trace.NewSpanContext(trace.SpanContextConfig{TraceID: trace.TraceID{n, 15: 7}, SpanID: trace.SpanID{n, 7: 3}, TraceState: ts, Remote: remote, TraceFlags: trace.FlagsSampled})
}

var spanAttrs = append([][]attribute.KeyValue{
	{attribute.String("z", "1"), attribute.String("a", "2"), attribute.Int("m", 3)},
}, attrSets...)

var eventLists = [][]sdktrace.Event{
	nil,
	{{Name: "e", Time: time.Unix(1, 2), Attributes: []attribute.KeyValue{attribute.String("z", "1"), attribute.Bool("a", true)}, DroppedAttributeCount: 4}},
	{{Name: "", Time: time.Unix(9, 0)}, {Name: "e2", Time: time.Unix(5, 1), Attributes: []attribute.KeyValue{attribute.Int("i", 1)}}},
	{{Name: "same", Time: time.Unix(3, 0)}, {Name: "same", Time: time.Unix(3, 0)}, {Name: "last", Time: time.Unix(2, 0), DroppedAttributeCount: 1}},
}

var linkLists = [][]sdktrace.Link{
	nil,
	{{SpanContext: mkSC(9, "k=v", true), Attributes: []attribute.KeyValue{attribute.String("z", "1"), attribute.StringSlice("a", []string{"x"})}, DroppedAttributeCount: 2}},
	{{SpanContext: mkSC(8, "", false)}, {SpanContext: mkSC(7, "a=b,c=d", false), Attributes: []attribute.KeyValue{attribute.Float64("f", 1.5)}}},
	{{SpanContext: mkSC(6, "", false), DroppedAttributeCount: 5}, {SpanContext: mkSC(6, "", false)}, {SpanContext: mkSC(5, "", false)}},
	// Not sampled, without a trace, without a span, without either.
	{
		{SpanContext: mkSC(3, "", true).WithTraceFlags(0)},
		{SpanContext: mkSC(3, "k=v", false).WithTraceID(trace.TraceID{}), Attributes: []attribute.KeyValue{attribute.Bool("b", false)}},
		{SpanContext: mkSC(3, "", false).WithSpanID(trace.SpanID{}).WithTraceFlags(0), DroppedAttributeCount: 1},
		{Attributes: []attribute.KeyValue{attribute.String("only", "attributes")}},
		{},
	},
}

var parents = []trace.SpanContext{{}, mkSC(1, "", false), mkSC(4, "p=q", true), mkSC(5, "", true).WithTraceFlags(0)}
var states = []string{"", "k=v", "a=1,b=2"}
var drops = [][3]int{{0, 0, 0}, {1, 2, 3}}

var statuses = []sdktrace.Status{{}, {Code: codes.Ok}, {Code: codes.Error, Description: "went wrong"}, {Code: codes.Error}, {Code: codes.Ok, Description: "fine"}}

var traceResources = []*resource.Resource{
	resource.NewSchemaless(attribute.String("service.name", "a")),
	resource.NewSchemaless(attribute.String("service.name", "b"), attribute.Int("n", 1)),
	resource.Empty(),
	// Prints like the second one.
	resource.NewSchemaless(attribute.String("service.name", "b"), attribute.String("n", "1")),
}

var traceScopes = []instrumentation.Scope{
	{Name: "lib", Version: "v1"},
	{Name: "lib", Version: "v2"},
	{},
	{Name: "lib", Version: "v1", SchemaURL: "http://s"},
	{Name: "other"},
	{Version: "v1"},
}

// lastTraceScope has only the last scope of the last resource.
func lastTraceScope(t ptrace.Traces) ptrace.Traces {
	o := ptrace.NewTraces()
	rs := t.ResourceSpans().At(t.ResourceSpans().Len() - 1)
	ors := o.ResourceSpans().AppendEmpty()
	rs.Resource().CopyTo(ors.Resource())
	rs.ScopeSpans().At(rs.ScopeSpans().Len() - 1).CopyTo(ors.ScopeSpans().AppendEmpty())
	return o
}

func cloneKVs(in []attribute.KeyValue) []attribute.KeyValue {
	return append([]attribute.KeyValue(nil), in...)
}

// exportStubs exports and compares what arrives; the order of spans within
// the request is not compared.
func exportStubs(r *mc.R, c *collector, e sdktrace.SpanExporter, in []tracetest.SpanStub) bool {
	var want, before []string
	var ro []sdktrace.ReadOnlySpan
	for i := range in {
		// The stubs share tables; what is handed in is a copy.
		in[i].Attributes = cloneKVs(in[i].Attributes)
		evs := append([]sdktrace.Event(nil), in[i].Events...)
		for j := range evs {
			evs[j].Attributes = cloneKVs(evs[j].Attributes)
		}
		in[i].Events = evs
		lks := append([]sdktrace.Link(nil), in[i].Links...)
		for j := range lks {
			lks[j].Attributes = cloneKVs(lks[j].Attributes)
		}
		in[i].Links = lks
		want = append(want, spanIn(in[i]))
		before = append(before, order(in[i]))
		ro = append(ro, in[i].Snapshot())
	}
	c.reset()
	if err := e.ExportSpans(bg, ro); err != nil {
		r.Failf("C16", "export: %v", err)
		return false
	}
	var got, cut []string
	reqs := c.gotTraces()
	for _, t := range reqs {
		got = append(got, spansOut(t)...)
		if len(reqs) > 1 && t.SpanCount() == batchMax {
			cut = append(cut, spansOut(lastTraceScope(t))...)
		}
	}
	if w2, g2, n := cutScopes(want, got, cut); n > 0 {
		r.Known("C16", cutFinding, "%d of %d spans arrived without the schema URL of their scope", n, len(want))
		want, got = w2, g2
	}
	sort.Strings(want)
	sort.Strings(got)
	if w := diff(want, got); w != "" {
		r.Failf("C16", "%s", w)
		return false
	}
	for i := range in {
		if after := order(in[i]); after != before[i] {
			r.Failf("C16", "the caller's span was modified: %s became %s", before[i], after)
			return false
		}
	}
	return true
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "span-content", Props: []string{"C16"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "spans of every combination of kind, status, attributes, events, links, parent, trace state, times and dropped counts",
		Body: func(r *mc.R) {
			c := coll()
			if keptTrace == nil {
				keptTrace = newTraceExporter(c)
			}
			kind := []trace.SpanKind{0, 1, 2, 3, 4, 5, 77}[r.Choose(7)]
			st := statuses[r.Choose(len(statuses))]
			at := r.Choose(len(spanAttrs))
			if !r.Thorough && at > 0 && kind != 1 && kind != 4 {
				return
			}
			var in []tracetest.SpanStub
			for ev := range eventLists {
				for ln := range linkLists {
					for pa := range parents {
						for ts := range states {
							for tm := range times {
								for dr := range drops {
									in = append(in, tracetest.SpanStub{
										Name:        fmt.Sprint("span", len(in)%7),
										SpanContext: mkSC(byte(1+len(in)%200), states[ts], false), Parent: parents[pa], SpanKind: kind,
										StartTime: times[tm][0], EndTime: times[tm][1], Attributes: spanAttrs[at], Events: eventLists[ev], Links: linkLists[ln], Status: st,
										DroppedAttributes: drops[dr][0], DroppedEvents: drops[dr][1], DroppedLinks: drops[dr][2],
										Resource: traceResources[1], InstrumentationScope: traceScopes[3],
									})
								}
							}
						}
					}
				}
			}
			r.Logf("%d spans of kind %d", len(in), kind)
			exportStubs(r, c, keptTrace, in)
		},
	})
	mc.Register(&mc.Scenario{
		Name: "span-batch", Props: []string{"C16"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "every batch of up to three (four) spans over the scopes and resources, then a second export",
		Body: func(r *mc.R) {
			c := coll()
			e := newTraceExporter(c)
			defer func() { _ = e.Shutdown(bg) }()
			max := 3
			if r.Thorough {
				max = 4
			}
			one := func(i, scope, res int) tracetest.SpanStub {
				return tracetest.SpanStub{
					Name: fmt.Sprint("s", i), SpanContext: mkSC(byte(i+1), "", false), StartTime: times[0][0], EndTime: times[0][1], SpanKind: trace.SpanKind(1 + i%5),
					Resource: resource.NewSchemaless(traceResources[res].Attributes()...), InstrumentationScope: traceScopes[scope],
					Attributes: spanAttrs[i%2], Events: eventLists[i%3],
				}
			}
			n := r.Choose(max + 1)
			var in []tracetest.SpanStub
			for i := 0; i < n; i++ {
				in = append(in, one(i, r.Choose(len(traceScopes)), r.Choose(len(traceResources))))
			}
			if !exportStubs(r, c, e, in) {
				return
			}
			scope, res := 2, 1
			if n < max {
				scope, res = r.Choose(len(traceScopes)), r.Choose(len(traceResources))
			}
			exportStubs(r, c, e, []tracetest.SpanStub{one(7, scope, res), one(8, scope, res)})
		},
	})
	mc.Register(&mc.Scenario{
		Name: "span-large", Props: []string{"C16"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "batches around the size at which requests are split, scopes changing every one, few or many spans",
		Body: func(r *mc.R) {
			c := coll()
			e := newTraceExporter(c)
			defer func() { _ = e.Shutdown(bg) }()
			total := []int{999, 1000, 1001, 1499, 1500, 1501, 2999, 3000, 3001, 4600}[r.Choose(10)]
			every := []int{1, 7, 29, 1000, 10000}[r.Choose(5)]
			resEvery := []int{13, 1500, 10000}[r.Choose(3)]
			var in []tracetest.SpanStub
			for i := 0; i < total; i++ {
				in = append(in, tracetest.SpanStub{
					Name: fmt.Sprint("s", i), SpanContext: mkSC(byte(1+i%250), "", false), StartTime: times[0][0], EndTime: times[0][1],
					Resource: traceResources[i/resEvery%2], InstrumentationScope: traceScopes[i/every%len(traceScopes)], Attributes: []attribute.KeyValue{attribute.Int("i", i)},
				})
			}
			exportStubs(r, c, e, in)
			r.Logf("%d spans: %d requests", total, len(c.gotTraces()))
		},
	})
}
