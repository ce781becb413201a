// Package vtime replaces the clock functions of time in rewritten code.
package vtime

import (
	"time"

	"ustack/vrt"
)

var base = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the virtual time.
func Now() time.Time { return base.Add(time.Duration(vrt.Now())) }

// Since is the virtual time elapsed since t.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is the virtual time until t.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep suspends the task in virtual time.
func Sleep(d time.Duration) { vrt.Sleep(int64(d)) }

// Timer models time.Timer.
type Timer struct {
	C      <-chan time.Time
	c      chan time.Time
	f      func()
	cancel func() bool
}

func (t *Timer) arm(d time.Duration) {
	if !vrt.Active() {
		t.cancel = func() bool { return false }
		return
	}
	t.cancel = vrt.AddTimer(int64(d), func() {
		if t.f != nil {
			vrt.SpawnFromTimer(t.f, "timer")
			return
		}
		vrt.TimerSend(t.c, Now())
	})
}

// drain takes back a value nobody has received yet (Go 1.23: nothing stale is
// received after Stop or Reset).
func (t *Timer) drain() bool {
	if t.c == nil || !vrt.Active() {
		return false
	}
	_, ok := vrt.TryRecv((<-chan time.Time)(t.c))
	return ok
}

// Stop models Timer.Stop.
func (t *Timer) Stop() bool {
	vrt.Point("timer.stop")
	return t.drain() || t.cancel()
}

// Reset models Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	vrt.Point("timer.reset")
	was := t.drain() || t.cancel()
	t.arm(d)
	return was
}

// NewTimer models time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc models time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// After models time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker models time.Ticker.
type Ticker struct {
	C      <-chan time.Time
	c      chan time.Time
	d      time.Duration
	cancel func() bool
	dead   bool
}

func (t *Ticker) arm() {
	if !vrt.Active() {
		return
	}
	t.cancel = vrt.AddTimer(int64(t.d), func() {
		if t.dead {
			return
		}
		vrt.TimerSend(t.c, Now())
		t.arm()
	})
}

func (t *Ticker) drain() {
	if vrt.Active() {
		vrt.TryRecv((<-chan time.Time)(t.c))
	}
}

// Stop stops the ticker.
func (t *Ticker) Stop() {
	vrt.Point("ticker.stop")
	t.dead = true
	t.drain()
	if t.cancel != nil {
		t.cancel()
	}
}

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) {
	vrt.Point("ticker.reset")
	t.drain()
	if t.cancel != nil {
		t.cancel()
	}
	t.dead = false
	t.d = d
	t.arm()
}

// NewTicker models time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

// Tick models time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
