// Package vctx stands in for some of context.
package vctx

import (
	"context"
	"sync"
	"time"

	"verif/vs"
	"verif/vs/vtime"
)

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	return ctx, func() {
		vs.Cancelling()
		cancel()
	}
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	return ctx, func(cause error) {
		vs.Cancelling()
		cancel(cause)
	}
}

type timed struct {
	context.Context
	mx       sync.Mutex
	late     bool
	deadline time.Time
}

func (t *timed) Err() error {
	t.mx.Lock()
	defer t.mx.Unlock()
	err := t.Context.Err()
	if err != nil && t.late {
		return context.DeadlineExceeded
	}
	return err
}

func (t *timed) Deadline() (time.Time, bool) { return t.deadline, true }

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if !vs.Active() {
		return context.WithTimeoutCause(parent, d, cause)
	}
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	ctx, cancel := context.WithCancelCause(parent)
	t := &timed{Context: ctx, deadline: vtime.Now().Add(d)}
	tm := vs.NewTimer(d, 0, func() {
		vs.Synced(func() {
			t.mx.Lock()
			if ctx.Err() == nil {
				t.late = true
			}
			t.mx.Unlock()
			cancel(cause)
		})
	})
	return t, func() {
		vs.Cancelling()
		tm.Stop()
		cancel(context.Canceled)
	}
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, at.Sub(vtime.Now()), nil)
}

func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, at.Sub(vtime.Now()), cause)
}

func AfterFunc(ctx context.Context, f func()) func() bool {
	if !vs.Active() {
		return context.AfterFunc(ctx, f)
	}
	stop := make(chan struct{}, 1)
	var mx sync.Mutex
	over := false
	vs.Go("context.AfterFunc", func() {
		a, b := vs.RecvCase(ctx.Done()), vs.RecvCase(stop)
		if vs.Select("context.AfterFunc", false, a, b) == 0 {
			mx.Lock()
			was := over
			over = true
			mx.Unlock()
			if !was {
				f()
			}
		}
	})
	return func() bool {
		vs.Point("stop")
		mx.Lock()
		defer mx.Unlock()
		was := over
		over = true
		if !was {
			stop <- struct{}{}
		}
		return !was
	}
}
