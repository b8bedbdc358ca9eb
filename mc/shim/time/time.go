// Package time mirrors the standard package on the virtual clock.
package time

import (
	rtime "time"

	"verifmc/vrt"
)

func Now() Time { return rtime.Unix(0, vrt.Now()) }

func Since(t Time) Duration { return Now().Sub(t) }

func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) { vrt.Sleep(int64(d)) }

// Timer is a virtual timer.
type Timer struct {
	C <-chan Time
	c chan Time
	t *vrt.Timer
	f func()
}

func (t *Timer) start(d Duration) {
	if vrt.Active() && vrt.Dead() {
		return
	}
	if d < 0 {
		d = 0
	}
	at := vrt.Now() + int64(d)
	t.t = vrt.AddTimer(at, func() {
		if t.f != nil {
			vrt.SpawnFromTimer(t.f)
			return
		}
		vrt.TimerSend(t.c, Now())
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.t == nil {
		return false
	}
	r := t.t.Stop()
	if t.c != nil {
		vrt.Drain(t.c)
	}
	return r
}

func (t *Timer) Reset(d Duration) bool {
	r := t.Stop()
	t.start(d)
	return r
}

// Ticker is a virtual ticker.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	t    *vrt.Timer
	d    Duration
	gone bool
}

func (t *Ticker) arm(at int64) {
	t.t = vrt.AddTimer(at, func() {
		if t.gone {
			return
		}
		vrt.TimerSend(t.c, Now())
		t.arm(at + int64(t.d))
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	if vrt.Active() && vrt.Dead() {
		return t
	}
	t.arm(vrt.Now() + int64(d))
	return t
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.Stop()
	}
	t.gone = true
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.gone = false
	t.d = d
	t.arm(vrt.Now() + int64(d))
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
