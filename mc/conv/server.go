package main

import (
	"context"
	"fmt"
	"math"
	"net"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/pmetric/pmetricotlp"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/collector/pdata/ptrace/ptraceotlp"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	_ "google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

var bg = context.Background()

// errSink keeps what was reported to the global error handler.
type errSink struct {
	mu   sync.Mutex
	errs []error
}

func (e *errSink) Handle(err error) {
	e.mu.Lock()
	e.errs = append(e.errs, err)
	e.mu.Unlock()
}

func (e *errSink) take() []error {
	e.mu.Lock()
	defer e.mu.Unlock()
	r := e.errs
	e.errs = nil
	return r
}

var sink = &errSink{}

func init() { otel.SetErrorHandler(sink) }

// answer is what the collector does with a request.
type answer struct {
	code codes.Code    // OK: accept
	hang time.Duration // wait this long, or until the caller gives up
}

// collector is an OTLP server for both signals.
type collector struct {
	pmetricotlp.UnimplementedGRPCServer
	addr string

	mu      sync.Mutex
	metrics []pmetric.Metrics
	traces  []ptrace.Traces
	md      []metadata.MD
	compr   []string
	// accepted says which of the requests were accepted, in arrival order.
	accepted []bool
	// plan holds the answers to the next requests; none: accept.
	plan []answer
	// conns is the number of open connections.
	conns int
}

// The collector counts its connections.

func (c *collector) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (c *collector) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context   { return ctx }
func (c *collector) HandleRPC(_ context.Context, s stats.RPCStats) {
	if h, ok := s.(*stats.InHeader); ok {
		c.mu.Lock()
		c.compr = append(c.compr, h.Compression)
		c.mu.Unlock()
	}
}
func (c *collector) HandleConn(_ context.Context, s stats.ConnStats) {
	c.mu.Lock()
	defer c.mu.Unlock()
	switch s.(type) {
	case *stats.ConnBegin:
		c.conns++
	case *stats.ConnEnd:
		c.conns--
	}
}

func (c *collector) openConns() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.conns
}

// closed waits until no more than n connections are open.
func (c *collector) closed(n int) bool {
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if c.openConns() <= n {
			return true
		}
	}
	return false
}

type traceSide struct {
	ptraceotlp.UnimplementedGRPCServer
	c *collector
}

func newCollector(opts ...grpc.ServerOption) *collector {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	c := &collector{addr: l.Addr().String()}
	s := grpc.NewServer(append(opts, grpc.MaxRecvMsgSize(64<<20), grpc.StatsHandler(c))...)
	pmetricotlp.RegisterGRPCServer(s, c)
	ptraceotlp.RegisterGRPCServer(s, &traceSide{c: c})
	go func() { _ = s.Serve(l) }()
	return c
}

var (
	theOnce      sync.Once
	theCollector *collector
)

// coll is the collector of this process, emptied.
func coll() *collector {
	theOnce.Do(func() { theCollector = newCollector() })
	theCollector.reset()
	return theCollector
}

func (c *collector) reset(plan ...answer) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.metrics, c.traces, c.md, c.compr, c.accepted, c.plan = nil, nil, nil, nil, nil, plan
}

func (c *collector) next(ctx context.Context) answer {
	md, _ := metadata.FromIncomingContext(ctx)
	c.md = append(c.md, md)
	var a answer
	if len(c.plan) > 0 {
		a = c.plan[0]
		c.plan = c.plan[1:]
	}
	c.accepted = append(c.accepted, a.code == codes.OK && a.hang == 0)
	return a
}

func (a answer) give(ctx context.Context) error {
	if a.hang > 0 {
		select {
		case <-ctx.Done():
		case <-time.After(a.hang):
		}
		return status.Error(codes.Aborted, "hung")
	}
	if a.code != codes.OK {
		return status.Error(a.code, "refused as planned")
	}
	return nil
}

func (c *collector) Export(ctx context.Context, req pmetricotlp.ExportRequest) (pmetricotlp.ExportResponse, error) {
	c.mu.Lock()
	m := pmetric.NewMetrics()
	req.Metrics().CopyTo(m)
	c.metrics = append(c.metrics, m)
	a := c.next(ctx)
	c.mu.Unlock()
	return pmetricotlp.NewExportResponse(), a.give(ctx)
}

func (t *traceSide) Export(ctx context.Context, req ptraceotlp.ExportRequest) (ptraceotlp.ExportResponse, error) {
	c := t.c
	c.mu.Lock()
	m := ptrace.NewTraces()
	req.Traces().CopyTo(m)
	c.traces = append(c.traces, m)
	a := c.next(ctx)
	c.mu.Unlock()
	return ptraceotlp.NewExportResponse(), a.give(ctx)
}

func (c *collector) gotMetrics() []pmetric.Metrics {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]pmetric.Metrics(nil), c.metrics...)
}

func (c *collector) gotTraces() []ptrace.Traces {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]ptrace.Traces(nil), c.traces...)
}

func (c *collector) gotMD() []metadata.MD {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]metadata.MD(nil), c.md...)
}

func (c *collector) gotCompression() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.compr...)
}

func (c *collector) gotAccepted() []bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]bool(nil), c.accepted...)
}

// Canonical texts: one for what was handed in, one for what arrived. Floats
// are compared by their bits.

func fl(f float64) string { return fmt.Sprintf("%v/%x", f, math.Float64bits(f)) }

func attrsIn(kvs []attribute.KeyValue) string {
	var l []string
	for _, kv := range kvs {
		v := kv.Value
		var s string
		switch v.Type() {
		case attribute.BOOL:
			s = fmt.Sprint("bool:", v.AsBool())
		case attribute.INT64:
			s = fmt.Sprint("int:", v.AsInt64())
		case attribute.FLOAT64:
			s = "dbl:" + fl(v.AsFloat64())
		case attribute.STRING:
			s = fmt.Sprintf("str:%q", v.AsString())
		case attribute.BOOLSLICE:
			s = "["
			for _, x := range v.AsBoolSlice() {
				s += fmt.Sprint("bool:", x, ",")
			}
			s += "]"
		case attribute.INT64SLICE:
			s = "["
			for _, x := range v.AsInt64Slice() {
				s += fmt.Sprint("int:", x, ",")
			}
			s += "]"
		case attribute.FLOAT64SLICE:
			s = "["
			for _, x := range v.AsFloat64Slice() {
				s += "dbl:" + fl(x) + ","
			}
			s += "]"
		case attribute.STRINGSLICE:
			s = "["
			for _, x := range v.AsStringSlice() {
				s += fmt.Sprintf("str:%q,", x)
			}
			s += "]"
		default:
			s = "empty"
		}
		l = append(l, fmt.Sprintf("%q=%s", string(kv.Key), s))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func valueOut(v pcommon.Value) string {
	switch v.Type() {
	case pcommon.ValueTypeBool:
		return fmt.Sprint("bool:", v.Bool())
	case pcommon.ValueTypeInt:
		return fmt.Sprint("int:", v.Int())
	case pcommon.ValueTypeDouble:
		return "dbl:" + fl(v.Double())
	case pcommon.ValueTypeStr:
		return fmt.Sprintf("str:%q", v.Str())
	case pcommon.ValueTypeSlice:
		s := "["
		for i := 0; i < v.Slice().Len(); i++ {
			s += valueOut(v.Slice().At(i)) + ","
		}
		return s + "]"
	case pcommon.ValueTypeEmpty:
		return "empty"
	}
	return "?" + v.AsString()
}

func attrsOut(m pcommon.Map) string {
	var l []string
	m.Range(func(k string, v pcommon.Value) bool {
		l = append(l, fmt.Sprintf("%q=%s", k, valueOut(v)))
		return true
	})
	sort.Strings(l)
	return strings.Join(l, ";")
}

// diff names the first difference of two lists.
func diff(want, got []string) string {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	for _, g := range got {
		n[g]--
	}
	short := func(want, got []string) string {
		for i := 0; i < len(want) || i < len(got); i++ {
			w, g := "nothing", "nothing"
			if i < len(want) {
				w = want[i]
			}
			if i < len(got) {
				g = got[i]
			}
			if w != g {
				return fmt.Sprintf("item %d: handed in %s\n   arrived   %s", i, w, g)
			}
		}
		return ""
	}
	var miss, extra []string
	for _, w := range want {
		if n[w] > 0 {
			n[w]--
			miss = append(miss, w)
		}
	}
	for _, g := range got {
		if n[g] < 0 {
			n[g]++
			extra = append(extra, g)
		}
	}
	if len(miss)+len(extra) == 0 {
		return short(want, got)
	}
	w := fmt.Sprintf("%d items handed in did not arrive, and %d arrived that were not handed in", len(miss), len(extra))
	return w + "; " + short(miss, extra)
}

var scopeURL = regexp.MustCompile(`(scope[ {]"[^"]*" "[^"]*" )"[^"]*"`)

// batchMax is the size at which requests are split by default.
const batchMax = 1500

// cutScopes takes out of want and got the items whose scope was cut because
// the request was full, and that have arrived with the scope's schema URL lost
// but otherwise as handed in. cut has the items of the last scopes of full
// requests. This is the finding split-loses-schema-url.
func cutScopes(want, got, cut []string) (w2, g2 []string, n int) {
	n0 := map[string]int{}
	for _, w := range want {
		n0[w]++
	}
	rest := map[string]bool{}
	for _, g := range got {
		n0[g]--
		rest[scopeURL.FindString(g)] = true
	}
	inCut := map[string]int{}
	for _, c := range cut {
		inCut[c]++
	}
	// The items missing, by what they would be without the URL.
	blank := map[string][]string{}
	for _, w := range want {
		if n0[w] > 0 && rest[scopeURL.FindString(w)] {
			b := scopeURL.ReplaceAllString(w, `$1""`)
			if b != w {
				blank[b] = append(blank[b], w)
				n0[w]--
			}
		}
	}
	drop := map[string]int{}
	for _, g := range got {
		if l := blank[g]; n0[g] < 0 && inCut[g] > 0 && len(l) > 0 {
			n0[g]++
			inCut[g]--
			drop[l[0]]++
			blank[g] = l[1:]
			n++
			continue
		}
		g2 = append(g2, g)
	}
	for _, w := range want {
		if drop[w] > 0 {
			drop[w]--
			continue
		}
		w2 = append(w2, w)
	}
	return
}

const cutFinding = "split-loses-schema-url"
