package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/cputime"
	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/host"
	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/runtime"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"github.com/lightstep/otel-launcher-go/verifshim/vmetrics"
	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	"github.com/lightstep/otel-launcher-go/verifshim/vsyscall"
	vtime "github.com/lightstep/otel-launcher-go/verifshim/vtime"
	"go.opentelemetry.io/otel"
	apimetric "go.opentelemetry.io/otel/metric"
)

// C25: the built-in instrumentation packages.  The Go runtime's metrics, the
// resource usage of the process and the proc files of the host are replaced.

// rtMetric is one entry of runtime/metrics and, from the package
// documentation alone, what becomes of it.
type rtMetric struct {
	goName string
	kind   vmetrics.ValueKind
	name   string // without the prefix; "" for not reported
	unit   string
	inst   sdkinstrument.Kind
	attrs  string
	bad    bool // reported to the error handler
}

const (
	kU = vmetrics.KindUint64
	kF = vmetrics.KindFloat64
	kH = vmetrics.KindFloat64Histogram

	iC = sdkinstrument.AsyncCounter
	iU = sdkinstrument.AsyncUpDownCounter
	iG = sdkinstrument.AsyncGauge
)

// rtAll is all of runtime/metrics in Go 1.24, and below it what later
// releases may add.
var rtAll = []rtMetric{
	{"/cgo/go-to-c-calls:calls", kU, "cgo.go-to-c-calls", "{calls}", iC, "", false},
	{"/cpu/classes/gc/mark/assist:cpu-seconds", kF, "cpu.time", "{cpu-seconds}", iC, "gc/mark/assist", false},
	{"/cpu/classes/gc/mark/dedicated:cpu-seconds", kF, "cpu.time", "{cpu-seconds}", iC, "gc/mark/dedicated", false},
	{"/cpu/classes/gc/mark/idle:cpu-seconds", kF, "cpu.time", "{cpu-seconds}", iC, "gc/mark/idle", false},
	{"/cpu/classes/gc/pause:cpu-seconds", kF, "cpu.time", "{cpu-seconds}", iC, "gc/pause", false},
	{"/cpu/classes/gc/total:cpu-seconds", kF, "", "", 0, "", false},
	{"/cpu/classes/idle:cpu-seconds", kF, "cpu.time", "{cpu-seconds}", iC, "idle", false},
	{"/cpu/classes/scavenge/assist:cpu-seconds", kF, "cpu.time", "{cpu-seconds}", iC, "scavenge/assist", false},
	{"/cpu/classes/scavenge/background:cpu-seconds", kF, "cpu.time", "{cpu-seconds}", iC, "scavenge/background", false},
	{"/cpu/classes/scavenge/total:cpu-seconds", kF, "", "", 0, "", false},
	{"/cpu/classes/total:cpu-seconds", kF, "", "", 0, "", false},
	{"/cpu/classes/user:cpu-seconds", kF, "cpu.time", "{cpu-seconds}", iC, "user", false},
	{"/gc/cycles/automatic:gc-cycles", kU, "gc.cycles", "{gc-cycles}", iC, "automatic", false},
	{"/gc/cycles/forced:gc-cycles", kU, "gc.cycles", "{gc-cycles}", iC, "forced", false},
	{"/gc/cycles/total:gc-cycles", kU, "", "", 0, "", false},
	{"/gc/gogc:percent", kU, "gc.gogc", "{percent}", iG, "", false},
	{"/gc/gomemlimit:bytes", kU, "gc.gomemlimit", "By", iG, "", false},
	{"/gc/heap/allocs-by-size:bytes", kH, "", "", 0, "", false},
	{"/gc/heap/allocs:bytes", kU, "gc.heap.allocs", "By", iC, "", false},
	{"/gc/heap/allocs:objects", kU, "gc.heap.allocs.objects", "", iC, "", false},
	{"/gc/heap/frees-by-size:bytes", kH, "", "", 0, "", false},
	{"/gc/heap/frees:bytes", kU, "gc.heap.frees", "By", iC, "", false},
	{"/gc/heap/frees:objects", kU, "gc.heap.frees.objects", "", iC, "", false},
	{"/gc/heap/goal:bytes", kU, "gc.heap.goal", "By", iG, "", false},
	{"/gc/heap/live:bytes", kU, "gc.heap.live", "By", iG, "", false},
	{"/gc/heap/objects:objects", kU, "gc.heap.objects", "{objects}", iU, "", false},
	{"/gc/heap/tiny/allocs:objects", kU, "gc.heap.tiny.allocs", "{objects}", iC, "", false},
	{"/gc/limiter/last-enabled:gc-cycle", kU, "gc.limiter.last-enabled", "{gc-cycle}", iG, "", false},
	{"/gc/pauses:seconds", kH, "", "", 0, "", false},
	{"/gc/scan/globals:bytes", kU, "gc.scan", "By", iU, "globals", false},
	{"/gc/scan/heap:bytes", kU, "gc.scan", "By", iU, "heap", false},
	{"/gc/scan/stack:bytes", kU, "gc.scan", "By", iU, "stack", false},
	{"/gc/scan/total:bytes", kU, "", "", 0, "", false},
	{"/gc/stack/starting-size:bytes", kU, "gc.stack.starting-size", "By", iG, "", false},
	{"/godebug/non-default-behavior/http2client:events", kU, "", "", 0, "", false},
	{"/memory/classes/heap/free:bytes", kU, "memory.usage", "By", iU, "heap/free", false},
	{"/memory/classes/heap/objects:bytes", kU, "memory.usage", "By", iU, "heap/objects", false},
	{"/memory/classes/heap/released:bytes", kU, "memory.usage", "By", iU, "heap/released", false},
	{"/memory/classes/heap/stacks:bytes", kU, "memory.usage", "By", iU, "heap/stacks", false},
	{"/memory/classes/heap/unused:bytes", kU, "memory.usage", "By", iU, "heap/unused", false},
	{"/memory/classes/metadata/mcache/free:bytes", kU, "memory.usage", "By", iU, "metadata/mcache/free", false},
	{"/memory/classes/metadata/mcache/inuse:bytes", kU, "memory.usage", "By", iU, "metadata/mcache/inuse", false},
	{"/memory/classes/metadata/mspan/free:bytes", kU, "memory.usage", "By", iU, "metadata/mspan/free", false},
	{"/memory/classes/metadata/mspan/inuse:bytes", kU, "memory.usage", "By", iU, "metadata/mspan/inuse", false},
	{"/memory/classes/metadata/other:bytes", kU, "memory.usage", "By", iU, "metadata/other", false},
	{"/memory/classes/os-stacks:bytes", kU, "memory.usage", "By", iU, "os-stacks", false},
	{"/memory/classes/other:bytes", kU, "memory.usage", "By", iU, "other", false},
	{"/memory/classes/profiling/buckets:bytes", kU, "memory.usage", "By", iU, "profiling/buckets", false},
	{"/memory/classes/total:bytes", kU, "", "", 0, "", false},
	{"/sched/gomaxprocs:threads", kU, "sched.gomaxprocs", "{threads}", iG, "", false},
	{"/sched/goroutines:goroutines", kU, "sched.goroutines", "{goroutines}", iU, "", false},
	{"/sched/latencies:seconds", kH, "", "", 0, "", false},
	{"/sched/pauses/stopping/gc:seconds", kH, "", "", 0, "", false},
	{"/sched/pauses/stopping/other:seconds", kH, "", "", 0, "", false},
	{"/sched/pauses/total/gc:seconds", kH, "", "", 0, "", false},
	{"/sched/pauses/total/other:seconds", kH, "", "", 0, "", false},
	{"/sync/mutex/wait/total:seconds", kF, "sync.mutex.wait.total", "s", iC, "", false},
}

var rtLater = []rtMetric{
	{"/cpu/classes/gc/mark/deep/er:cpu-seconds", kF, "cpu.time", "{cpu-seconds}", iC, "gc/mark/deep/er", false},
	{"/cpu/classes/gc/mark/total:cpu-seconds", kF, "", "", 0, "", false},
	{"/gc/cycles/totals:gc-cycles", kU, "gc.cycles", "{gc-cycles}", iC, "totals", false},
	{"/gc/cycles/total/partial:gc-cycles", kU, "gc.cycles", "{gc-cycles}", iC, "total/partial", false},
	{"/memory/classes/arena/subtotal:bytes", kU, "memory.usage", "By", iU, "arena/subtotal", false},
	{"/memory/classes/arena/total:bytes", kU, "", "", 0, "", false},
	{"/gc/scan/weak/pointers:bytes", kU, "gc.scan", "By", iU, "weak/pointers", false},
	{"/sched/threads/total:threads", kU, "", "", 0, "", true},
	{"/memory/classes/newer:objects", kU, "", "", 0, "", true},
	{"/godebug/non-default-behavior/asynctimerchan:events", kU, "", "", 0, "", false},
}

var rtOther = []rtMetric{
	{"/sched/gomaxprocs:threads", kF, "sched.gomaxprocs", "{threads}", iG, "", false},
	{"/gc/heap/objects:objects", kF, "gc.heap.objects", "{objects}", iU, "", false},
	{"/cgo/go-to-c-calls:calls", kF, "cgo.go-to-c-calls", "{calls}", iC, "", false},
	{"/cgo/go-to-c-calls:calls", kH, "", "", 0, "", true},
	{"/gc/scan/heap:bytes", kH, "", "", 0, "", true},
	{"/gc/pauses:seconds", kU, "", "", 0, "", true},
}

func (m *rtMetric) attrString() string {
	if m.attrs == "" {
		return ""
	}
	var l []string
	for i, v := range strings.Split(m.attrs, "/") {
		k := "class"
		if i > 0 {
			k = fmt.Sprintf("class%d", i+1)
		}
		l = append(l, fmt.Sprintf("%s=STRING:%s;", k, v))
	}
	return strings.Join(l, "") // in the order of the keys
}

func (m *rtMetric) nk() number.Kind {
	if m.kind == kF {
		return number.Float64Kind
	}
	return number.Int64Kind
}

// rtRead is one call of runtime/metrics.Read.
type rtRead struct {
	thread int
	vals   map[string]float64
}

type rtRun struct {
	r     *mc.R
	list  []rtMetric
	cur   map[string]float64 // what the runtime has now
	step  float64            // added to every value after a read
	reads []*rtRead
}

func (x *rtRun) install() {
	vmetrics.Alls = func() []vmetrics.Description {
		var l []vmetrics.Description
		for _, m := range x.list {
			l = append(l, vmetrics.Description{Name: m.goName, Kind: m.kind, Description: "d"})
		}
		return l
	}
	vmetrics.Reads = func(ss []vmetrics.Sample) {
		vsched.Point(vsched.Always)
		rd := &rtRead{thread: vsched.Me(), vals: map[string]float64{}}
		kinds := map[string]vmetrics.ValueKind{}
		for _, m := range x.list {
			kinds[m.goName] = m.kind
			rd.vals[m.goName] = x.cur[m.goName]
			x.cur[m.goName] += x.step
		}
		for i := range ss {
			v := rd.vals[ss[i].Name]
			switch kinds[ss[i].Name] {
			case kU:
				ss[i].Value = vmetrics.Uint64(uint64(v))
			case kF:
				ss[i].Value = vmetrics.Float64(v)
			default:
				ss[i].Value = vmetrics.Value{}
			}
		}
		x.reads = append(x.reads, rd)
		vsched.Point(vsched.Always)
	}
}

func (x *rtRun) uninstall() { vmetrics.Alls, vmetrics.Reads = nil, nil }

// expect renders what a collection reports from a read.
func (x *rtRun) expect(delta bool, prev, rd *rtRead) string {
	var ps []Point
	for i := range x.list {
		m := &x.list[i]
		if m.name == "" {
			continue
		}
		p := Point{
			Scope: "otel-launcher-go/runtime", Name: "process.runtime.go." + m.name, Unit: m.unit, Kind: m.inst, NK: m.nk(),
			Attrs: m.attrString(), Tempo: aggregation.CumulativeTemporality, Val: rd.vals[m.goName], Agg: aggregation.AnySumKind, Mono: m.inst == iC,
		}
		if m.inst == iG {
			p.Agg, p.Mono = aggregation.GaugeKind, false
		}
		if delta && m.inst != iG {
			p.Tempo = aggregation.DeltaTemporality
			if prev != nil {
				p.Val -= prev.vals[m.goName]
			}
			if p.Val == 0 {
				continue
			}
		}
		ps = append(ps, p)
	}
	return render(ps)
}

// plain drops what is not compared: the description, and changes of zero.
func plain(m data.Metrics) string {
	var ps []Point
	for _, p := range pointsOf(m) {
		if p.Tempo == aggregation.DeltaTemporality && p.Val == 0 {
			continue
		}
		p.Desc = ""
		ps = append(ps, p)
	}
	return render(ps)
}

func diffLines(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	in := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	var d []string
	for _, s := range g {
		if !in(w, s) {
			d = append(d, "reported "+s)
		}
	}
	for _, s := range w {
		if !in(g, s) {
			d = append(d, "expected "+s)
		}
	}
	if len(g) != len(w) {
		d = append(d, fmt.Sprintf("%d points reported, %d expected", len(g), len(w)))
	}
	if len(d) > 6 {
		d = append(d[:6], "...")
	}
	return strings.Join(d, "; ")
}

func startBuiltin(r *mc.R, what string, how int, p *metric.MeterProvider, rt func(apimetric.MeterProvider) error) {
	var mp apimetric.MeterProvider = p
	if how > 0 {
		otel.SetMeterProvider(p)
		mp = nil
	}
	if err := rt(mp); err != nil {
		r.Failf("C25", "%s: Start: %v", what, err)
	}
}

func startRuntime(how int) func(mp apimetric.MeterProvider) error {
	return func(mp apimetric.MeterProvider) error {
		if how == 2 {
			return runtime.Start()
		}
		return runtime.Start(runtime.WithMeterProvider(mp))
	}
}

// rtNames: which metrics are reported, under which names, and from which.
// (With nothing to report, Start says so.)
func rtNames(pool []rtMetric, pick func(r *mc.R, pool []rtMetric) []rtMetric) func(r *mc.R) {
	return func(r *mc.R) {
		sink.take()
		x := &rtRun{r: r, list: pick(r, pool), cur: map[string]float64{}}
		want := 0
		for i, m := range x.list {
			x.cur[m.goName] = float64(1000 + 17*i)
			if m.bad {
				want++
			}
		}
		x.install()
		defer x.uninstall()
		rd := metric.NewManualReader("r")
		p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(false)))
		how := r.Choose(3)
		some := false
		for _, m := range x.list {
			some = some || m.name != ""
		}
		if !some {
			return
		}
		startBuiltin(r, "runtime", how, p, startRuntime(how))
		errs := sink.take()
		got := plain(rd.Produce(nil))
		exp := x.expect(false, nil, &rtRead{vals: x.cur})
		if got != exp {
			r.Failf("C25", "runtime metrics %v: %s", names(x.list), diffLines(got, exp))
		}
		if (len(errs) > 0) != (want > 0) {
			r.Failf("C25", "runtime metrics %v: %d have no place and %d errors were reported: %v", names(x.list), want, len(errs), errs)
		}
		sink.take()
	}
}

func names(l []rtMetric) (r []string) {
	for _, m := range l {
		r = append(r, m.goName)
	}
	return
}

func subset(r *mc.R, pool []rtMetric) (l []rtMetric) {
	for _, m := range pool {
		if r.ChooseBool() {
			l = append(l, m)
		}
	}
	return
}

// window takes a run of the list, possibly backwards.
func window(r *mc.R, pool []rtMetric) (l []rtMetric) {
	from := r.Choose(len(pool))
	n := []int{1, 2, 5, len(pool)}[r.Choose(4)]
	for i := 0; i < n; i++ {
		l = append(l, pool[(from+i)%len(pool)])
	}
	if r.ChooseBool() {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	return
}

func rtPick(idx ...string) (l []rtMetric) {
	for _, n := range idx {
		for _, m := range rtAll {
			if m.goName == n {
				l = append(l, m)
			}
		}
	}
	return
}

var rtFew = rtPick("/cgo/go-to-c-calls:calls", "/cpu/classes/user:cpu-seconds", "/cpu/classes/gc/pause:cpu-seconds", "/cpu/classes/total:cpu-seconds",
	"/memory/classes/heap/free:bytes", "/gc/heap/objects:objects", "/gc/gogc:percent")

// rtConc: readers that collect at the same time, each judged by the reads
// made on its own behalf.
func rtConc(starts int) func(r *mc.R) {
	return func(r *mc.R) {
		x := &rtRun{r: r, list: rtFew[1:5], cur: map[string]float64{}, step: 4}
		for i, m := range x.list {
			x.cur[m.goName] = float64(int(1) << (8 + 8*i))
		}
		x.install()
		defer x.uninstall()
		rds := []*metric.ManualReader{metric.NewManualReader("a"), metric.NewManualReader("b")}
		p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rds[0], tempoOpt(true)), metric.WithReader(rds[1], tempoOpt(false)))
		for i := 0; i < starts; i++ {
			startBuiltin(r, "runtime", 0, p, startRuntime(0))
		}
		var outs [2][]string
		var mine [2][][]*rtRead
		collect := func(i, n int) func() {
			return func() {
				for ; n > 0; n-- {
					before := len(x.reads)
					got := plain(rds[i].Produce(nil))
					outs[i] = append(outs[i], got)
					var l []*rtRead
					for _, rd := range x.reads[before:] {
						if rd.thread == vsched.Me() {
							l = append(l, rd)
						}
					}
					mine[i] = append(mine[i], l)
				}
			}
		}
		vsched.Quiet(false)
		r.Par(collect(0, 2), collect(1, 1))
		vsched.Quiet(true)
		for i := range outs {
			prevs := []*rtRead{nil}
			for n, got := range outs[i] {
				var next []*rtRead
				why := "the runtime was not read"
				for _, rd := range mine[i][n] {
					for _, pv := range prevs {
						exp := x.expect(i == 0, pv, rd)
						if got == exp {
							next = append(next, rd)
						} else {
							why = diffLines(got, exp)
						}
					}
				}
				if next == nil {
					r.Failf("C25", "reader %c: collection %d does not report one reading of the runtime made for it: %s", 'A'+i, n, why)
					break
				}
				prevs = next
			}
		}
	}
}

// rtValues: sequential histories of values.
func rtValues(r *mc.R) {
	x := &rtRun{r: r, list: rtFew, cur: map[string]float64{}}
	for i, m := range x.list {
		x.cur[m.goName] = float64(100 + i)
	}
	x.install()
	defer x.uninstall()
	rds := []*metric.ManualReader{metric.NewManualReader("a"), metric.NewManualReader("b")}
	p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rds[0], tempoOpt(true)), metric.WithReader(rds[1], tempoOpt(false)))
	for i := 1 + r.Choose(2); i > 0; i-- {
		startBuiltin(r, "runtime", 0, p, startRuntime(0))
	}
	depth := 3
	if r.Thorough {
		depth = 4
	}
	prev := [2]*rtRead{}
	for s := 0; s < depth; s++ {
		ch := r.Choose(5)
		for i, m := range x.list {
			switch {
			case ch == 1:
				x.cur[m.goName]++
			case ch == 2 && i%2 == 0:
				x.cur[m.goName] += 1 << 40
			case ch == 3 && m.inst != iC:
				x.cur[m.goName] = 0
			case ch == 4 && m.inst != iC:
				x.cur[m.goName] /= 2
				if m.kind == kU {
					x.cur[m.goName] = float64(uint64(x.cur[m.goName]))
				}
			}
		}
		i := r.Choose(2)
		rd := &rtRead{vals: map[string]float64{}}
		for k, v := range x.cur {
			rd.vals[k] = v
		}
		got := plain(rds[i].Produce(nil))
		if exp := x.expect(i == 0, prev[i], rd); got != exp {
			r.Failf("C25", "reader %c: %s", 'A'+i, diffLines(got, exp))
			return
		}
		prev[i] = rd
	}
}

// procFS is the state of the host, as Linux shows it.
type procFS struct {
	dir string
	cpu [10]int64 // user nice system idle iowait irq softirq steal guest guest_nice, in seconds
	mem map[string]int64
	tx  [2]int64
	rx  [2]int64
}

var procDir string

func newProc() *procFS {
	if procDir == "" {
		d, err := os.MkdirTemp("", "verifproc")
		if err != nil {
			panic(err)
		}
		procDir = d
		os.Mkdir(filepath.Join(d, "net"), 0o755)
	}
	os.Setenv("HOST_PROC", procDir)
	f := &procFS{dir: procDir, mem: map[string]int64{"MemTotal": 1 << 20, "MemFree": 1 << 16, "MemAvailable": 1 << 18, "Buffers": 1 << 12, "Cached": 1 << 14, "SReclaimable": 1 << 10}}
	for i := range f.cpu {
		f.cpu[i] = 1 << (2 * i)
	}
	f.tx = [2]int64{1000, 50000}
	f.rx = [2]int64{7, 900}
	return f
}

func (f *procFS) done() { os.Unsetenv("HOST_PROC") }

func (f *procFS) put(name, text string) {
	if err := os.WriteFile(filepath.Join(f.dir, name), []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// write shows the state; fault takes away or spoils one file.
func (f *procFS) write(fault int) {
	var b strings.Builder
	for _, l := range []string{"cpu ", "cpu0"} {
		b.WriteString(l)
		for _, v := range f.cpu {
			fmt.Fprintf(&b, " %d", v*100)
		}
		b.WriteString("\n")
	}
	b.WriteString("intr 1\nctxt 1\nbtime 1600000000\nprocesses 1\n")
	f.put("stat", b.String())
	b.Reset()
	for _, k := range []string{"MemTotal", "MemFree", "MemAvailable", "Buffers", "Cached", "SReclaimable"} {
		fmt.Fprintf(&b, "%s: %d kB\n", k, f.mem[k])
	}
	f.put("meminfo", b.String())
	b.Reset()
	b.WriteString("Inter-|   Receive                                                |  Transmit\n face |bytes    packets errs drop fifo frame compressed multicast|bytes    packets errs drop fifo colls carrier compressed\n")
	for i, n := range []string{"eth0", "lo"} {
		fmt.Fprintf(&b, "%6s: %d 11 0 0 0 0 0 0 %d 12 0 0 0 0 0 0\n", n, f.rx[i], f.tx[i])
	}
	f.put("net/dev", b.String())
	switch fault {
	case 1:
		os.Remove(filepath.Join(f.dir, "stat"))
	case 2:
		os.Remove(filepath.Join(f.dir, "net/dev"))
	case 3:
		f.put("stat", "cpu  x y z\n")
	case 4:
		f.put("meminfo", "MemTotal: much\n")
	}
}

// expect is what a collection in this state reports, from the definitions of
// the proc files: used = total - free - buffers - cached - reclaimable.
func (f *procFS) expect(delta bool, prev map[string]float64) (map[string]float64, string) {
	var ps []Point
	now := map[string]float64{}
	add := func(name, unit string, kind sdkinstrument.Kind, nk number.Kind, attr string, v float64) {
		p := Point{Scope: "otel_launcher_go/host", Name: name, Unit: unit, Kind: kind, NK: nk, Attrs: attr, Tempo: aggregation.CumulativeTemporality,
			Val: v, Agg: aggregation.AnySumKind, Mono: kind == iC}
		now[name+attr] = v
		if kind == iG {
			p.Agg, p.Mono = aggregation.GaugeKind, false
		}
		if delta && kind != iG {
			p.Tempo = aggregation.DeltaTemporality
			p.Val -= prev[name+attr]
			if p.Val == 0 {
				return
			}
		}
		ps = append(ps, p)
	}
	c := f.cpu
	st := func(s string) string { return "state=STRING:" + s + ";" }
	add("system.cpu.time", "s", iC, number.Float64Kind, st("user"), float64(c[0]))
	add("system.cpu.time", "s", iC, number.Float64Kind, st("system"), float64(c[2]))
	add("system.cpu.time", "s", iC, number.Float64Kind, st("idle"), float64(c[3]))
	add("system.cpu.time", "s", iC, number.Float64Kind, st("other"), float64(c[1]+c[4]+c[5]+c[6]+c[7]+c[8]+c[9]))
	m := f.mem
	used := 1024 * (m["MemTotal"] - m["MemFree"] - m["Buffers"] - m["Cached"] - m["SReclaimable"])
	avail := 1024 * m["MemAvailable"]
	add("system.memory.usage", "By", iU, number.Int64Kind, st("used"), float64(used))
	add("system.memory.usage", "By", iU, number.Int64Kind, st("available"), float64(avail))
	add("system.memory.utilization", "", iG, number.Float64Kind, st("used"), float64(used)/float64(1024*m["MemTotal"]))
	add("system.memory.utilization", "", iG, number.Float64Kind, st("available"), float64(avail)/float64(1024*m["MemTotal"]))
	add("system.network.io", "By", iC, number.Int64Kind, "direction=STRING:transmit;", float64(f.tx[0]+f.tx[1]))
	add("system.network.io", "By", iC, number.Int64Kind, "direction=STRING:receive;", float64(f.rx[0]+f.rx[1]))
	return now, render(ps)
}

// change makes one change out of 20 to the host.
func (f *procFS) change(ch int) {
	switch {
	case ch == 0:
	case ch <= 10:
		f.cpu[ch-1] += 1 << 21
	case ch <= 14:
		k := []string{"MemFree", "MemAvailable", "Buffers", "Cached"}[ch-11]
		f.mem[k] += 333
	case ch == 15:
		f.mem["SReclaimable"] += 77
	case ch == 16:
		f.mem["MemAvailable"] = 5
	case ch == 17:
		f.tx[0] += 1 << 33
	case ch == 18:
		f.rx[1] += 3
	case ch == 19:
		f.mem["MemTotal"] *= 2
	}
}

const hostChanges = 20

func startHost(how int) func(mp apimetric.MeterProvider) error {
	return func(mp apimetric.MeterProvider) error {
		if how == 2 {
			return host.Start()
		}
		return host.Start(host.WithMeterProvider(mp))
	}
}

func hostValues(r *mc.R) {
	f := newProc()
	defer f.done()
	rds := []*metric.ManualReader{metric.NewManualReader("a"), metric.NewManualReader("b")}
	p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rds[0], tempoOpt(true)), metric.WithReader(rds[1], tempoOpt(false)))
	how := r.Choose(4)
	startBuiltin(r, "host", how%3, p, startHost(how%3))
	if how == 3 {
		startBuiltin(r, "host", 0, p, startHost(0))
	}
	prev := [2]map[string]float64{}
	depth := 2
	if r.Thorough {
		depth = 3
	}
	for s := 0; s < depth; s++ {
		f.change(r.Choose(hostChanges))
		f.write(0)
		i := r.Choose(2)
		got := plain(rds[i].Produce(nil))
		now, exp := f.expect(i == 0, prev[i])
		if got != exp {
			r.Failf("C25", "host, reader %c: %s", 'A'+i, diffLines(got, exp))
			return
		}
		prev[i] = now
	}
}

// hostFaults: nothing wrong is reported while a source cannot be read, and
// all of it again afterwards.
func hostFaults(r *mc.R) {
	f := newProc()
	defer f.done()
	rd := metric.NewManualReader("a")
	p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(false)))
	startBuiltin(r, "host", 0, p, startHost(0))
	for s := 0; s < 3; s++ {
		f.change(1 + 6*s)
		fault := r.Choose(5)
		f.write(fault)
		got := plain(rd.Produce(nil))
		_, exp := f.expect(false, nil)
		if fault == 0 && got != exp {
			r.Failf("C25", "host, collection %d: %s", s, diffLines(got, exp))
			return
		}
		if fault != 0 {
			// Sources that can be read may be reported, rightly.
			for _, l := range strings.Split(got, "\n") {
				if l != "" && !strings.Contains("\n"+exp+"\n", "\n"+l+"\n") {
					r.Failf("C25", "host, collection %d, source %d not readable: reported %s", s, fault, l)
					return
				}
			}
		}
	}
}

func startCputime(how int) func(mp apimetric.MeterProvider) error {
	return func(mp apimetric.MeterProvider) error {
		if how == 2 {
			return cputime.Start()
		}
		return cputime.Start(cputime.WithMeterProvider(mp))
	}
}

// cpuTimes: process CPU time and uptime.
func cpuTimes(r *mc.R) {
	var ut, st time.Duration
	ut, st = 3*time.Second+250*time.Millisecond, 1000*time.Second
	fail := false
	vsyscall.Rusages = func(who int, ru *syscall.Rusage) error {
		if who != syscall.RUSAGE_SELF {
			r.Failf("C25", "cputime asks for the usage of %d", who)
		}
		if fail {
			return errors.New("no usage")
		}
		ru.Utime = syscall.NsecToTimeval(int64(ut))
		ru.Stime = syscall.NsecToTimeval(int64(st))
		return nil
	}
	defer func() { vsyscall.Rusages = nil }()
	rds := []*metric.ManualReader{metric.NewManualReader("a"), metric.NewManualReader("b")}
	p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rds[0], tempoOpt(true)), metric.WithReader(rds[1], tempoOpt(false)))
	how := r.Choose(3)
	for i := 1 + r.Choose(2); i > 0; i-- {
		startBuiltin(r, "cputime", how, p, startCputime(how))
	}
	sink.take()
	var prevU, prevS [2]time.Duration
	depth := 3
	if r.Thorough {
		depth = 4
	}
	var upAt time.Time
	var up float64
	absent := false // of the delta reader's series, once a collection failed
	for s := 0; s < depth; s++ {
		fail = false
		switch r.Choose(5) {
		case 1:
			ut += 500 * time.Millisecond
		case 2:
			st += 1 << 10 * time.Second
		case 3:
			ut += 125 * time.Millisecond
			st += 750 * time.Millisecond
			vtime.Advance(3 * time.Hour)
		case 4:
			fail = true
		}
		vtime.Advance(time.Second)
		i := r.Choose(2)
		before := vtime.Peek()
		m := rds[i].Produce(nil)
		after := vtime.Peek()
		seen := map[string]bool{}
		for _, pt := range pointsOf(m) {
			if pt.Scope != "otel_launcher_go/cputime" || pt.Unit != "s" || pt.NK != number.Float64Kind || seen[pt.Name+pt.Attrs] {
				r.Failf("C25", "cputime: unexpected %v", pt)
			}
			seen[pt.Name+pt.Attrs] = true
			want := 0.0
			kind := iC
			switch pt.Name + "{" + pt.Attrs + "}" {
			case "process.cpu.time{state=STRING:user;}":
				want = ut.Seconds()
				if i == 0 {
					want -= prevU[0].Seconds()
				}
			case "process.cpu.time{state=STRING:system;}":
				want = st.Seconds()
				if i == 0 {
					want -= prevS[0].Seconds()
				}
			case "process.uptime{}":
				kind = iU
				want = pt.Val
				if i == 1 {
					// Grows with the clock.
					if !upAt.IsZero() {
						lo, hi := before.Sub(upAt).Seconds(), after.Sub(upAt).Seconds()
						if d := pt.Val - up; d < lo-2e-3 || d > hi+2e-3 {
							r.Failf("C25", "cputime: uptime grew by %v s while %v s passed", d, hi)
						}
					}
					up, upAt = pt.Val, before
				}
			default:
				r.Failf("C25", "cputime: unexpected %v", pt)
			}
			if pt.Kind != kind || pt.Agg != aggregation.AnySumKind && pt.Agg != aggregation.MonotonicSumKind && pt.Agg != aggregation.NonMonotonicSumKind {
				r.Failf("C25", "cputime: %v is of the wrong kind", pt)
			}
			if pt.Val != want && !(i == 0 && absent) {
				r.Failf("C25", "cputime: reported %v, want %v (used %v user, %v system)", pt, want, ut, st)
			}
			if fail && pt.Name == "process.cpu.time" {
				r.Failf("C25", "cputime: reported %v while the usage is unknown", pt)
			}
		}
		errs := sink.take()
		if fail {
			if len(errs) == 0 {
				r.Failf("C25", "cputime: failing getrusage not reported")
			}
			absent = absent || i == 0
			continue
		}
		if i == 0 {
			// Unchanged values may be left out.
			if ut == prevU[0] {
				seen["process.cpu.timestate=STRING:user;"] = true
			}
			if st == prevS[0] {
				seen["process.cpu.timestate=STRING:system;"] = true
			}
		}
		if len(seen) != 3 {
			r.Failf("C25", "cputime: %d points, want 3: %v", len(seen), seen)
		}
		prevU[i], prevS[i] = ut, st
	}
}

// builtinRace: collections by two readers, or one, over the built-in
// instrumentation, for the race detector.
func builtinRace(r *mc.R) {
	otel.SetErrorHandler(discard{})
	vmetrics.Alls = func() []vmetrics.Description {
		var l []vmetrics.Description
		for _, m := range rtFew {
			l = append(l, vmetrics.Description{Name: m.goName, Kind: m.kind})
		}
		return l
	}
	vmetrics.Reads = func(ss []vmetrics.Sample) {
		vsched.Point(vsched.Always)
		for i := range ss {
			if strings.HasSuffix(ss[i].Name, ":cpu-seconds") {
				ss[i].Value = vmetrics.Float64(1)
			} else {
				ss[i].Value = vmetrics.Uint64(1)
			}
		}
		vsched.Point(vsched.Always)
	}
	f := newProc()
	f.write(0)
	rds := []*metric.ManualReader{metric.NewManualReader("a"), metric.NewManualReader("b")}
	p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rds[0], tempoOpt(true)), metric.WithReader(rds[1], tempoOpt(false)))
	start := []func(apimetric.MeterProvider) error{startRuntime(0), startHost(0), startCputime(0)}[r.Choose(3)]
	late := r.ChooseBool()
	if !late {
		_ = start(p)
	}
	a := func() { touch(rds[0].Produce(nil)) }
	b := func() { touch(rds[1].Produce(nil)) }
	if late {
		a = func() { _ = start(p) }
	}
	vsched.Quiet(false)
	r.Par(a, b)
	vsched.Quiet(true)
	f.done()
	vmetrics.Alls, vmetrics.Reads = nil, nil
}

func init() {
	reg := func(name string, bound [2]int, race [2]int, props []string, body func(r *mc.R)) {
		mc.Register(&mc.Scenario{Name: name, Props: props, Bound: bound, Race: race, MapOffs: []uint64{0}, Body: body})
	}
	c25 := []string{"C25"}
	no := [2]int{-1, -1}
	seq := [2]int{0, 0}
	reg("rt-names", seq, no, c25, rtNames(rtAll, window))
	reg("rt-later", seq, no, c25, rtNames(append(append([]rtMetric{}, rtLater...), rtFew[0]), subset))
	reg("rt-kinds", seq, no, c25, rtNames(nil, func(r *mc.R, _ []rtMetric) []rtMetric {
		l := []rtMetric{rtFew[1], rtFew[6]}
		used := map[string]bool{}
		for _, m := range rtOther {
			if r.ChooseBool() && !used[m.goName] {
				l = append(l, m)
				used[m.goName] = true
			}
		}
		return l
	}))
	reg("rt-values", seq, no, c25, rtValues)
	reg("rt-conc", [2]int{3, 4}, no, c25, rtConc(1))
	reg("rt-conc-twice", [2]int{2, 3}, no, c25, rtConc(2))
	reg("builtin-race", no, [2]int{1, 2}, []string{"C24"}, builtinRace)
	reg("host-values", seq, no, c25, hostValues)
	reg("host-faults", seq, no, c25, hostFaults)
	reg("cputime", seq, no, c25, cpuTimes)
}
