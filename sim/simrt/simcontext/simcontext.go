// Package simcontext stands in for package context in instrumented code: its
// deadlines are in simulated time, and cancelling wakes simulated tasks.
package simcontext

import (
	"context"
	"time"

	"vsim.local/simrt"
	"vsim.local/simrt/simsync"
	"vsim.local/simrt/simtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                        { return context.Background() }
func TODO() Context                              { return context.TODO() }
func WithValue(parent Context, k, v any) Context { return context.WithValue(parent, k, v) }
func WithoutCancel(parent Context) Context       { return context.WithoutCancel(parent) }

type keyType struct{}

var key keyType

type ctx struct {
	Context  // the parent
	mu       simsync.Mutex
	done     chan struct{}
	err      error
	cause    error
	kids     []*ctx // in the order they came
	up       *ctx
	deadline time.Time
	timer    *simtime.Timer
	after    func()
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ctx) Value(k any) any {
	if k == any(key) {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *ctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	t := c.timer
	c.mu.Unlock()
	if t != nil {
		t.Stop()
	}
	simrt.Close(c.done)
	if c.after != nil {
		simrt.Go(c.after)
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if u := c.up; u != nil {
		u.mu.Lock()
		for i, k := range u.kids {
			if k == c {
				u.kids = append(u.kids[:i:i], u.kids[i+1:]...)
				break
			}
		}
		u.mu.Unlock()
	}
}

func derive(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if parent.Done() == nil {
		return c
	}
	if u, ok := parent.Value(key).(*ctx); ok && u.done == parent.Done() {
		u.mu.Lock()
		err, cause := u.err, u.cause
		if err == nil {
			c.up = u
			u.kids = append(u.kids, c)
		}
		u.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
		return c
	}
	go func() { // a parent of the real world
		select {
		case <-parent.Done():
			c.cancel(parent.Err(), context.Cause(parent))
		case <-c.done:
		}
	}()
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, t, nil)
}

func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(t) {
		return WithCancel(parent)
	}
	c := derive(parent)
	c.deadline = t
	d := simtime.Until(t)
	if d <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, func() {}
	}
	c.mu.Lock()
	if c.err == nil {
		c.timer = simtime.AfterFunc(d, func() { c.cancel(DeadlineExceeded, cause) })
	}
	c.mu.Unlock()
	return c, func() { c.cancel(Canceled, nil) }
}

func Cause(c Context) error {
	if u, ok := c.Value(key).(*ctx); ok {
		u.mu.Lock()
		defer u.mu.Unlock()
		return u.cause
	}
	return context.Cause(c)
}

func AfterFunc(parent Context, f func()) (stop func() bool) {
	c := derive(parent)
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		simrt.Go(f)
		return func() bool { return false }
	}
	c.after = f
	c.mu.Unlock()
	return func() bool {
		c.mu.Lock()
		was := c.err == nil
		c.after = nil
		c.mu.Unlock()
		c.cancel(Canceled, nil)
		return was
	}
}
