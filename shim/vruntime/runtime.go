// Package runtime forwards to the standard package runtime, except that
// Gosched is a scheduling point.
package runtime

import "github.com/lightstep/otel-launcher-go/verifshim/vsched"

// Gosched replaces runtime.Gosched.
func Gosched() { vsched.Yield() }
