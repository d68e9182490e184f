// Package time forwards to the standard package time, except that the clock
// is virtual and timers and tickers fire only when the environment says so.
package time

import (
	std "time"

	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
)

var now int64 = std.Date(2000, 1, 1, 0, 0, 0, 0, std.UTC).UnixNano()

// Step is how far the clock moves at every reading.
const Step = int64(1000)

//go:norace
func read() int64 {
	now += Step
	return now
}

// Advance moves the clock.
//
//go:norace
func Advance(d Duration) { now += int64(d) }

// Peek reads the clock without moving it.
//
//go:norace
func Peek() Time { return std.Unix(0, now).UTC() }

// Now replaces time.Now.  Reading the clock is a scheduling point.
func Now() Time {
	vsched.Point(vsched.Always)
	return instant()
}

func instant() Time { return std.Unix(0, read()).UTC() }

// Since replaces time.Since.
func Since(t Time) Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
func Sleep(d Duration) {
	if d > 0 {
		Advance(d)
	}
	vsched.Yield()
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan Time
	e *entry
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan Time
	e *entry
}

type entry struct {
	ch      chan Time
	f       func()
	period  Duration
	ticker  bool
	stopped bool
	fired   int
	due     int64
}

const maxEntries = 64

var entries [maxEntries]*entry
var nentries int

// ResetTimers forgets all timers (start of an execution).
//
//go:norace
func ResetTimers() { nentries = 0 }

//go:norace
func add(e *entry) *entry {
	e.due = now + int64(e.period)
	for i := 0; i < nentries; i++ {
		if entries[i].stopped {
			entries[i] = e
			return e
		}
	}
	if nentries == maxEntries {
		panic("verif: too many timers")
	}
	entries[nentries] = e
	nentries++
	return e
}

// Pending returns the number of live timers and tickers.
//
//go:norace
func PendingTimers() int {
	n := 0
	for i := 0; i < nentries; i++ {
		if !entries[i].stopped {
			n++
		}
	}
	return n
}

// FireNext advances the clock to the earliest due timer or ticker and fires
// it.  It reports whether there was one.
//
//go:norace
func FireNext() bool {
	var best *entry
	for i := 0; i < nentries; i++ {
		e := entries[i]
		if e.stopped {
			continue
		}
		if best == nil || e.due < best.due {
			best = e
		}
	}
	if best == nil {
		return false
	}
	if now < best.due {
		now = best.due
	}
	best.fired++
	if best.ticker {
		best.due += int64(best.period)
	} else {
		best.stopped = true
	}
	if best.f != nil {
		vsched.Go(best.f)
		return true
	}
	select {
	case best.ch <- instant():
	default:
	}
	return true
}

// LivePeriods lists the periods of live tickers.
//
//go:norace
func LivePeriods() []Duration {
	var r []Duration
	for i := 0; i < nentries; i++ {
		if !entries[i].stopped {
			r = append(r, entries[i].period)
		}
	}
	return r
}

// NewTicker replaces time.NewTicker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan Time, 1)
	return &Ticker{C: ch, e: add(&entry{ch: ch, period: d, ticker: true})}
}

// Stop replaces (*time.Ticker).Stop.
//
//go:norace
func (t *Ticker) Stop() { t.e.stopped = true }

// Reset replaces (*time.Ticker).Reset.
//
//go:norace
func (t *Ticker) Reset(d Duration) {
	t.e.stopped = true
	t.e = add(&entry{ch: t.e.ch, period: d, ticker: true})
}

// Tick replaces time.Tick.
func Tick(d Duration) <-chan Time { return NewTicker(d).C }

// NewTimer replaces time.NewTimer.
func NewTimer(d Duration) *Timer {
	ch := make(chan Time, 1)
	return &Timer{C: ch, e: add(&entry{ch: ch, period: d})}
}

// After replaces time.After.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d Duration, f func()) *Timer { return &Timer{e: add(&entry{f: f, period: d})} }

// Stop replaces (*time.Timer).Stop.
//
//go:norace
func (t *Timer) Stop() bool {
	was := !t.e.stopped
	t.e.stopped = true
	return was
}

// Reset replaces (*time.Timer).Reset.
//
//go:norace
func (t *Timer) Reset(d Duration) bool {
	was := !t.e.stopped
	t.e.stopped = true
	t.e = add(&entry{ch: t.e.ch, f: t.e.f, period: d})
	return was
}
