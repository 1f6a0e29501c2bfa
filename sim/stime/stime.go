// Package stime replaces clock and timer functions of package time by virtual ones.
package stime

import (
	"time"
	"unsafe"

	"verif.local/vsim/core"
	"verif.local/vsim/vs"
)

// Now has a wall clock reading, which faults set off, and a monotonic one, as time.Now has: the
// simulation builds the same representation.
func Now() time.Time {
	t := time.Unix(0, core.WallNow())
	r := (*[3]uint64)(unsafe.Pointer(&t))
	const to1885 = (1969*365+1969/4-1969/100+1969/400)*86400 - (1884*365+1884/4-1884/100+1884/400)*86400
	sec := uint64(t.Unix() + to1885)
	if sec>>33 != 0 {
		return t
	}
	r[0] = 1<<63 | sec<<30 | uint64(t.Nanosecond())
	r[1] = uint64(core.Now() + 1)
	return t
}

func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { core.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Timer has the semantics of time.Timer for main modules before go 1.23: a buffered channel that
// Stop and Reset do not drain.
type Timer struct {
	C <-chan time.Time
	t *core.Timer
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c}
	var ct *core.Timer
	s := vs.Sc(c)
	ct = core.MakeTimer(func() { s.TrySend(Now()) })
	t.t = ct
	core.StartTimer(ct, int64(d))
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	t.t = core.MakeTimer(nil)
	ct := t.t
	ct.SetFn(func() { core.SpawnFromTimer(ct, "time.AfterFunc", f) })
	core.StartTimer(ct, int64(d))
	return t
}

func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	core.Yield()
	return core.StopTimer(t.t)
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	core.Yield()
	r := core.StopTimer(t.t)
	core.StartTimer(t.t, int64(d))
	return r
}

// Ticker is a virtual time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *core.Timer
	d time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	k := &Ticker{C: c, d: d}
	s := vs.Sc(c)
	k.t = core.MakeTicker()
	k.t.SetFn(func() {
		s.TrySend(Now())
		core.StartTimer(k.t, int64(k.d))
	})
	core.StartTimer(k.t, int64(d))
	return k
}

func (t *Ticker) Stop() {
	core.Yield()
	if t.t != nil {
		core.StopTimer(t.t)
	}
}

func (t *Ticker) Reset(d time.Duration) {
	core.Yield()
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.d = d
	core.StopTimer(t.t)
	core.StartTimer(t.t, int64(d))
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
