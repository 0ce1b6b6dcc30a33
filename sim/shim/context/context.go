// Package context stands in for context in a command: the context of the
// process ends when the simulated process does.
package context

import real "context"

// Types of the package.
type (
	Context         = real.Context
	CancelFunc      = real.CancelFunc
	CancelCauseFunc = real.CancelCauseFunc
)

// Variables and functions of the package.
var (
	Canceled          = real.Canceled
	DeadlineExceeded  = real.DeadlineExceeded
	Cause             = real.Cause
	WithCancel        = real.WithCancel
	WithCancelCause   = real.WithCancelCause
	WithDeadline      = real.WithDeadline
	WithTimeout       = real.WithTimeout
	WithTimeoutCause  = real.WithTimeoutCause
	WithDeadlineCause = real.WithDeadlineCause
	WithValue         = real.WithValue
	WithoutCancel     = real.WithoutCancel
	AfterFunc         = real.AfterFunc
)

// Process is the context of the process. Set by the scenario.
var Process = real.Background()

// Background returns the context of the process.
func Background() Context { return Process }

// TODO returns the context of the process.
func TODO() Context { return Process }
