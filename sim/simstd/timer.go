package simstd

import (
	"time"

	"verif.local/sim/rt"
)

// Timer stands in for time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *rt.Timer
}

func (t *Timer) start(d time.Duration) {
	f := t.f
	if f == nil {
		c := t.c
		f = func() {
			if x := rt.SendCase(c)(time.Now()); rt.Select(true, x) == 0 {
				rt.Changed()
			}
		}
	}
	t.t = rt.At(int64(d), 0, f)
}

// Stop stands in for (*time.Timer).Stop.
func (t *Timer) Stop() bool { rt.Y(); return t.t.Stop() }

// Reset stands in for (*time.Timer).Reset.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// NewTimer stands in for time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc stands in for time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After stands in for time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker stands in for time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *rt.Timer
}

func (t *Ticker) start(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := t.c
	t.t = rt.At(int64(d), int64(d), func() {
		if x := rt.SendCase(c)(time.Now()); rt.Select(true, x) == 0 {
			rt.Changed()
		}
	})
}

// NewTicker stands in for time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

// Stop stands in for (*time.Ticker).Stop.
func (t *Ticker) Stop() { rt.Y(); t.t.Stop() }

// Reset stands in for (*time.Ticker).Reset.
func (t *Ticker) Reset(d time.Duration) { t.Stop(); t.start(d) }

// Tick stands in for time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
