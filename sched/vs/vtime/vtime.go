// Package vtime stands in for some of time.
package vtime

import (
	"time"

	"verif/vs"
)

var base = time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC)

func Now() time.Time {
	if d, ok := vs.Now(); ok {
		return base.Add(d)
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !vs.Sleep(d) {
		time.Sleep(d)
	}
}

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	v    *vs.Timer
	real *time.Timer
	f    func()
}

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	v    *vs.Timer
	real *time.Ticker
}

func send(c chan time.Time) func() {
	return func() {
		select {
		case c <- base.Add(vs.Clock()):
		default:
		}
	}
}

func NewTimer(d time.Duration) *Timer {
	if !vs.Active() {
		t := time.NewTimer(d)
		return &Timer{C: t.C, real: t}
	}
	c := make(chan time.Time, 1)
	return &Timer{C: c, c: c, v: vs.NewTimer(d, 0, send(c))}
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	if !vs.Active() {
		t := time.AfterFunc(d, f)
		return &Timer{C: t.C, real: t}
	}
	return &Timer{f: f, v: vs.NewTimer(d, 0, func() { vs.Later("time.AfterFunc", f) })}
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	if !vs.Active() {
		return false
	}
	vs.Point("timer.Stop")
	was := t.v.Stop()
	t.drain()
	return was
}

func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	if !vs.Active() {
		return false
	}
	vs.Point("timer.Reset")
	was := t.v.Stop()
	t.drain()
	if t.f != nil {
		f := t.f
		t.v = vs.NewTimer(d, 0, func() { vs.Later("time.AfterFunc", f) })
	} else {
		t.v = vs.NewTimer(d, 0, send(t.c))
	}
	return was
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !vs.Active() {
		t := time.NewTicker(d)
		return &Ticker{C: t.C, real: t}
	}
	c := make(chan time.Time, 1)
	return &Ticker{C: c, c: c, v: vs.NewTimer(d, d, send(c))}
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	if vs.Active() {
		t.v.Stop()
	}
}

func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	if vs.Active() {
		t.v.Stop()
		t.v = vs.NewTimer(d, d, send(t.c))
	}
}
