// Package simtime holds the parts of package time whose results depend on the
// clock; the instrumenter redirects just these.
package simtime

import (
	"sync/atomic"
	"time"

	"vsim.local/simrt"
)

// Base is the simulated wall clock at the start of an episode, and Skew what a
// clock jump added to it.
var (
	Base  = time.Unix(1700000000, 0)
	Skew  time.Duration
	Reads int64
	// Jitter, when set, moves the clock by an arbitrary amount on every read.
	Jitter func() time.Duration
)

//go:norace
func Now() time.Time {
	Reads++
	if Jitter != nil {
		Skew += Jitter()
	}
	return Base.Add(Skew + time.Duration(simrt.Now()))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Sleep(int64(d)) }

// Timer, Ticker and what makes them, in simulated time.
type Timer struct {
	C  <-chan time.Time
	id int64
	f  func()
	e  *edge
}

// edge orders the setting of a timer before the call it makes: the calls come
// from the scheduler, which neither race detection sees.
type edge struct {
	n  atomic.Int32
	vc simrt.VC
}

func (e *edge) set() {
	if e != nil {
		e.vc.Release()
		e.n.Add(1)
	}
}

func (e *edge) fired() {
	e.n.Load()
	e.vc.Acquire()
}

type Ticker struct {
	C  <-chan time.Time
	id int64
	d  time.Duration
	f  func()
}

func tell(c chan time.Time) func() {
	return func() {
		select {
		case c <- Now():
		default:
		}
	}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, f: tell(c)}
	t.id = simrt.AddTimer(int64(d), t.f)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	e := &edge{}
	e.set()
	t := &Timer{e: e, f: func() { simrt.Spawn(func() { e.fired(); f() }) }}
	t.id = simrt.AddTimer(int64(d), t.f)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	simrt.SyncPoint()
	was := simrt.DelTimer(t.id)
	t.drain()
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.e.set()
	t.id = simrt.AddTimer(int64(d), t.f)
	return was
}

func (t *Timer) drain() {
	select {
	case <-t.C:
	default:
	}
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, d: d, f: tell(c)}
	t.id = simrt.AddTimer(int64(d), t.tick)
	return t
}

//go:norace
func (t *Ticker) tick() {
	t.id = simrt.AddTimer(int64(t.d), t.tick)
	t.f()
}

func (t *Ticker) Stop() { simrt.DelTimer(t.id) }

func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.id = simrt.AddTimer(int64(d), t.tick)
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
