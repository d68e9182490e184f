// Package mc is the explorer: it enumerates, exhaustively within stated
// bounds, the decision vectors of scenarios that run the real code under the
// deterministic scheduler.
package mc

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
	vtime "github.com/lightstep/otel-launcher-go/verifshim/vtime"
)

// Scenario is a closed program over the real code whose behaviour is
// determined by a decision vector.
type Scenario struct {
	Name  string
	Props []string // properties whose oracles it evaluates
	// Bound is the preemption bound, quick and thorough; -1 leaves it out.
	Bound [2]int
	// Race is the preemption bound in the race-detector build.
	Race [2]int
	// MapOffs are the pinned map iteration rotations to explore.
	MapOffs []uint64
	// MaxSteps bounds one execution.
	MaxSteps int
	// Space is how many executions may be expected at most (documentation).
	Doc string
	// Expect lists properties whose violation by deadlock/panic is judged.
	Body func(r *R)
	// Flat, for slow scenarios of few executions, is the number of
	// alternatives of the only choice: the workers share them out.
	Flat func(thorough bool) int
}

var scenarios []*Scenario

// Register adds a scenario.
func Register(s *Scenario) { scenarios = append(scenarios, s) }

// R is one execution of a scenario.
type R struct {
	mu       sync.Mutex
	known    map[string]string
	prop     string
	fails    map[string]string
	log      []string
	keep     bool
	covers   map[string]bool
	Thorough bool
}

// Failf records a violation of a property.
func (r *R) Failf(prop, format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, has := r.fails[prop]; !has {
		r.fails[prop] = fmt.Sprintf(format, args...)
	}
}

// Known records a failure that is identified as finding id; the driver
// decides whether that finding is listed.
func (r *R) Known(prop, id, format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.known == nil {
		r.known = map[string]string{}
	}
	if _, has := r.known[prop+"#"+id]; !has {
		r.known[prop+"#"+id] = fmt.Sprintf(format, args...)
	}
}

// Prop is the property being decided; oracles of others may be skipped.
func (r *R) Prop() string { return r.prop }

// Logf records what happened, for replay files only.
func (r *R) Logf(format string, args ...interface{}) {
	if r.keep {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.log = append(r.log, fmt.Sprintf(format, args...))
	}
}

// Keeping says whether logs are being kept.
func (r *R) Keeping() bool { return r.keep }

// Cover notes that something interesting was reached.
func (r *R) Cover(what string) {
	covMu.Lock()
	coverage[what]++
	covMu.Unlock()
}

var covMu sync.Mutex

var coverage = map[string]int64{}

// Choose is an enumerated environment choice.
func (r *R) Choose(n int) int { return vsched.Choose(n, 0) }

// ChooseBool is an enumerated environment choice.
func (r *R) ChooseBool() bool { return vsched.Choose(2, 0) == 1 }

// Fault is an enumerated choice whose non-default outcomes count against the
// deviation bound.
func (r *R) Fault(n int) int { return vsched.Choose(n, 1) }

// Par runs the functions as concurrently scheduled threads and waits.
func (r *R) Par(fs ...func()) {
	hs := make([]*vsched.Handle, len(fs))
	for i := range fs {
		hs[i] = vsched.Start(fmt.Sprint("P", i), fs[i])
	}
	vsched.Quiet(false)
	for _, h := range hs {
		h.Join()
	}
	vsched.Quiet(true)
}

// Stat is what was covered in one scenario.
type Stat struct {
	Scenario   string   `json:"scenario"`
	Executions int64    `json:"executions"`
	Steps      int64    `json:"steps"`
	Nodes      int64    `json:"nodes"`
	Diverged   int64    `json:"diverged"`
	Bound      int      `json:"bound"`
	MaxPreempt int      `json:"max_preempt"`
	Complete   bool     `json:"complete"`
	MapOffs    int      `json:"map_offsets"`
	Ms         int64    `json:"ms"`
	Sample     []string `json:"sample,omitempty"`
}

// Violation is one failing execution.
type Violation struct {
	Scenario string   `json:"scenario"`
	Prop     string   `json:"property"`
	What     string   `json:"what"`
	MapOff   uint64   `json:"map_offset"`
	Choices  []int    `json:"choices"`
	Stable   string   `json:"stable"`
	Log      []string `json:"log"`
	ID       string   `json:"id,omitempty"`
}

type node struct {
	prefix []uint8
	cost   uint8
	depth  uint8
}

type result struct {
	out   vsched.Outcome
	fails map[string]string
	known map[string]string
	log   []string
}

var thoroughTier bool

func execute(sc *Scenario, prop string, off uint64, prefix []uint8, keep bool) result {
	SetMapOffset(off)
	// Longer than any rate limit; short enough that no number of
	// executions exhausts the range of time.Time.UnixNano.
	vtime.Advance(2 * time.Minute)
	vtime.ResetTimers()
	steps := sc.MaxSteps
	if steps == 0 {
		steps = 20000
	}
	r := &R{prop: prop, fails: map[string]string{}, keep: keep, Thorough: thoroughTier}
	out := vsched.Run(prefix, steps, []func(){func() {
		vsched.Quiet(true)
		sc.Body(r)
	}})
	return result{out: out, fails: r.fails, known: r.known, log: r.log}
}

// judge turns an execution into a violation text for the property, or "".
func judge(prop string, res result) string {
	if res.out.Panic != "" {
		return res.out.Panic
	}
	if res.out.Deadlock {
		return "deadlock: no thread can go on;" + res.out.Blocked
	}
	if res.out.Overrun {
		return fmt.Sprintf("no progress: execution still running after %d steps", res.out.Steps)
	}
	if f := res.out.Fail; f != "" {
		return f
	}
	if f, ok := res.fails[prop]; ok {
		return f
	}
	return ""
}

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "tier")
	fWorker  = flag.Int("worker", 0, "index of this worker")
	fOf      = flag.Int("of", 1, "number of workers")
	fCur     = flag.String("cur", "", "file for the decision vector being executed")
	fOnly    = flag.String("only", "", "only scenarios with this substring")
	fReplay  = flag.String("replay", "", "scenario@offset@c,c,c to replay")
	fList    = flag.Bool("list", false, "list scenarios")
	fLimit   = flag.Duration("limit", 0, "stop after")
	fEach    = flag.Duration("each", 0, "stop each scenario after")
	fBound   = flag.Int("bound", -100, "override bound")
	fVerbose = flag.Bool("v", false, "verbose")
)

type curFile struct{ mem []byte }

func openCur(path string) *curFile {
	if path == "" {
		return nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return nil
	}
	_ = f.Truncate(1 << 16)
	mem, err := syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &curFile{mem}
}

//go:norace
func (c *curFile) set(name string, off uint64, prefix []uint8) {
	if c == nil {
		return
	}
	n := copy(c.mem, name)
	c.mem[n] = '@'
	n++
	n += copy(c.mem[n:], strconv.FormatUint(off, 10))
	c.mem[n] = '@'
	n++
	for _, p := range prefix {
		c.mem[n] = 'a' + p
		n++
	}
	c.mem[n] = '\n'
}

// Main is the worker program.
func Main() {
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	tier := 0
	if *fTier == "thorough" {
		tier = 1
		thoroughTier = true
	}
	enc := json.NewEncoder(os.Stdout)
	if err := initMapRand(); err != nil {
		_ = enc.Encode(map[string]interface{}{"warning": "map order: " + err.Error()})
	}
	if *fList {
		for _, s := range scenarios {
			fmt.Println(s.Name, s.Props, s.Bound, s.Race)
		}
		return
	}
	if *fReplay != "" {
		replay()
		return
	}
	cur := openCur(*fCur)
	deadline := time.Time{}
	if *fLimit > 0 {
		deadline = time.Now().Add(*fLimit)
	}
	for _, sc := range scenarios {
		if *fProp != "" && !has(sc.Props, *fProp) {
			continue
		}
		if *fOnly != "" && !strings.Contains(sc.Name, *fOnly) {
			continue
		}
		bound := sc.Bound[tier]
		if vsched.RaceEnabled {
			bound = sc.Race[tier]
		}
		if *fBound != -100 {
			bound = *fBound
		}
		if bound < 0 {
			continue
		}
		if *fEach > 0 {
			deadline = time.Now().Add(*fEach)
		}
		st, vio, kn := explore(sc, *fProp, bound, cur, deadline)
		for _, k := range kn {
			_ = enc.Encode(map[string]interface{}{"known": k})
		}
		_ = enc.Encode(map[string]interface{}{"stat": st})
		if vio != nil {
			_ = enc.Encode(map[string]interface{}{"violation": vio})
			break
		}
	}
	keys := make([]string, 0)
	for k := range coverage {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	cov := map[string]int64{}
	for _, k := range keys {
		cov[k] = coverage[k]
	}
	_ = enc.Encode(map[string]interface{}{"coverage": cov})
	_ = enc.Encode(map[string]interface{}{"done": true})
}

func has(l []string, p string) bool {
	for _, x := range l {
		if x == p {
			return true
		}
	}
	return false
}

func explore(sc *Scenario, prop string, bound int, cur *curFile, deadline time.Time) (Stat, *Violation, []*Violation) {
	var kns []*Violation
	knSeen := map[string]bool{}
	t0 := time.Now()
	st := Stat{Scenario: sc.Name, Bound: bound, Complete: true}
	offs := sc.MapOffs
	if offs == nil {
		offs = []uint64{0}
	}
	st.MapOffs = len(offs)
	ctr := 0
	for _, off := range offs {
		stack := []node{{}}
		if sc.Flat != nil {
			stack = nil
			for i, n := 0, sc.Flat(*fTier == "thorough"); i < n; i++ {
				if i%*fOf == *fWorker {
					stack = append(stack, node{prefix: []uint8{uint8(i)}, depth: 3})
				}
			}
		}
		for len(stack) > 0 {
			if !deadline.IsZero() && time.Now().After(deadline) {
				st.Complete = false
				break
			}
			nd := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			cur.set(sc.Name, off, nd.prefix)
			res := execute(sc, prop, off, nd.prefix, sc.Flat != nil && st.Executions == 0)
			mine := nd.depth >= 2 || *fWorker == 0
			if mine {
				st.Executions++
				st.Steps += int64(res.out.Steps)
				st.Nodes += int64(len(res.out.Trace) - len(nd.prefix))
				st.Diverged += int64(res.out.Diverged)
				if int(nd.cost) > st.MaxPreempt {
					st.MaxPreempt = int(nd.cost)
				}
			}
			if sc.Flat != nil && st.Executions == 1 {
				st.Sample = res.log
			} else if *fWorker == 0 && st.Executions == 1 {
				again := execute(sc, prop, off, nd.prefix, true)
				st.Sample = again.log
				if len(st.Sample) > 30 {
					st.Sample = st.Sample[:30]
				}
				if len(st.Sample) == 0 {
					st.Sample = []string{fmt.Sprintf("default schedule, %d steps, %d decisions", res.out.Steps, len(res.out.Trace))}
				}
				res = execute(sc, prop, off, nd.prefix, false)
			}
			for k, what := range res.known {
				p, id, _ := strings.Cut(k, "#")
				if p == prop && !knSeen[id] {
					knSeen[id] = true
					kv := &Violation{Scenario: sc.Name, Prop: p, ID: id, What: what, MapOff: off}
					for _, c := range res.out.Trace {
						kv.Choices = append(kv.Choices, int(c.Got))
					}
					kns = append(kns, kv)
				}
			}
			if what := judge(prop, res); what != "" {
				v := &Violation{Scenario: sc.Name, Prop: prop, What: what, MapOff: off}
				tr := make([]uint8, len(res.out.Trace))
				for i, c := range res.out.Trace {
					tr[i] = c.Got
				}
				for len(tr) > 0 && tr[len(tr)-1] == 0 {
					tr = tr[:len(tr)-1]
				}
				for _, c := range tr {
					v.Choices = append(v.Choices, int(c))
				}
				same := 0
				for i := 0; i < 5; i++ {
					again := execute(sc, prop, off, tr, true)
					if judge(prop, again) != "" {
						same++
					}
					v.Log = again.log
				}
				v.Stable = fmt.Sprintf("%d/5", same)
				st.Ms = time.Since(t0).Milliseconds()
				return st, v, kns
			}
			// Children: one more deviation, after the prefix.
			tr := res.out.Trace
			for p := len(tr) - 1; p >= len(nd.prefix); p-- {
				c := tr[p]
				cost := nd.cost + c.Cost
				if int(cost) > bound {
					continue
				}
				for a := int(c.N) - 1; a >= 1; a-- {
					d := nd.depth + 1
					if d >= 3 {
						d = 3
					}
					if d == 2 {
						ctr++
						if ctr%*fOf != *fWorker {
							continue
						}
					}
					np := make([]uint8, p+1)
					copy(np, nd.prefix)
					for q := len(nd.prefix); q < p; q++ {
						np[q] = tr[q].Got
					}
					np[p] = uint8(a)
					stack = append(stack, node{prefix: np, cost: cost, depth: d})
				}
			}
		}
	}
	st.Ms = time.Since(t0).Milliseconds()
	return st, nil, kns
}

func replay() {
	parts := strings.Split(*fReplay, "@")
	off, _ := strconv.ParseUint(parts[1], 10, 64)
	var pre []uint8
	for _, c := range strings.Split(parts[2], ",") {
		if c == "" {
			continue
		}
		n, _ := strconv.Atoi(c)
		pre = append(pre, uint8(n))
	}
	for _, sc := range scenarios {
		if sc.Name != parts[0] {
			continue
		}
		res := execute(sc, *fProp, off, pre, true)
		for _, l := range res.log {
			fmt.Println(l)
		}
		props := sc.Props
		if *fProp != "" {
			props = []string{*fProp}
		}
		bad := false
		for _, p := range props {
			if w := judge(p, res); w != "" {
				fmt.Printf("VIOLATION property=%s %s\n", p, w)
				bad = true
			}
		}
		if bad {
			os.Exit(1)
		}
		fmt.Println("no violation")
	}
}
