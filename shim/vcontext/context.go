// Package context forwards to the standard package context, except that
// deadlines are measured on the virtual clock.
package context

import (
	std "context"
	"sync/atomic"
	stdtime "time"

	"github.com/lightstep/otel-launcher-go/verifshim/vtime"
)

type deadlineCtx struct {
	std.Context
	at      stdtime.Time
	expired atomic.Bool
}

func (c *deadlineCtx) Deadline() (stdtime.Time, bool) { return c.at, true }

func (c *deadlineCtx) Err() error {
	err := c.Context.Err()
	if err != nil && c.expired.Load() {
		return std.DeadlineExceeded
	}
	return err
}

// WithDeadline replaces context.WithDeadline.
func WithDeadline(parent std.Context, at stdtime.Time) (std.Context, std.CancelFunc) {
	inner, cancel := std.WithCancel(parent)
	if d, ok := parent.Deadline(); ok && d.Before(at) {
		return inner, cancel
	}
	c := &deadlineCtx{Context: inner, at: at}
	d := at.Sub(time.Peek())
	if d <= 0 {
		c.expired.Store(true)
		cancel()
		return c, func() {}
	}
	t := time.AfterFunc(d, func() {
		if inner.Err() == nil {
			c.expired.Store(true)
			cancel()
		}
	})
	return c, func() {
		t.Stop()
		cancel()
	}
}

// WithTimeout replaces context.WithTimeout.
func WithTimeout(parent std.Context, d stdtime.Duration) (std.Context, std.CancelFunc) {
	return WithDeadline(parent, time.Peek().Add(d))
}

// WithDeadlineCause replaces context.WithDeadlineCause.
func WithDeadlineCause(parent std.Context, at stdtime.Time, _ error) (std.Context, std.CancelFunc) {
	return WithDeadline(parent, at)
}

// WithTimeoutCause replaces context.WithTimeoutCause.
func WithTimeoutCause(parent std.Context, d stdtime.Duration, _ error) (std.Context, std.CancelFunc) {
	return WithTimeout(parent, d)
}
