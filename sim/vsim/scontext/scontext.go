// Package scontext stands in for the parts of package context that wait or start goroutines.
package scontext

import (
	"context"
	"time"

	"ecksbee.com/telefacts/vsim/ssync"
	"ecksbee.com/telefacts/vsim/stime"

	"ecksbee.com/telefacts/vsim"
)

type ctx struct {
	context.Context
	mu       ssync.Mutex
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDl    bool
	kids     []*ctx
	timer    *stime.Timer
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

type key struct{}

func (c *ctx) Value(k any) any {
	if _, ok := k.(key); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	c.mu.Unlock()
	vsim.Close(c.done)
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newCtx(parent context.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: vsim.MakeChan[struct{}](0)}
	if p, ok := parent.Value(key{}).(*ctx); ok {
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.cancel(err, cause)
		} else {
			p.kids = append(p.kids, c)
			p.mu.Unlock()
		}
	} else if parent.Done() != nil {
		vsim.Go("context watcher", func() {
			s := vsim.Select(false, vsim.CaseRecv(parent.Done()), vsim.CaseRecv((<-chan struct{})(c.done)))
			if s.Idx == 0 {
				c.cancel(parent.Err(), context.Cause(parent))
			}
		})
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancel(context.Canceled, nil) }
	}
	c.deadline, c.hasDl = d, true
	wait := stime.Until(d)
	if wait <= 0 {
		c.cancel(context.DeadlineExceeded, nil)
		return c, func() {}
	}
	c.timer = stime.AfterFunc(wait, func() { c.cancel(context.DeadlineExceeded, nil) })
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}

func Cause(c context.Context) error {
	if p, ok := c.Value(key{}).(*ctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return context.Cause(c)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c, cancel := WithDeadline(parent, d)
	return c, cancel
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, d)
}

type detached struct{ context.Context }

func (detached) Deadline() (time.Time, bool) { return time.Time{}, false }
func (detached) Done() <-chan struct{}       { return nil }
func (detached) Err() error                  { return nil }
func (d detached) Value(k any) any {
	if _, ok := k.(key); ok {
		return nil
	}
	return d.Context.Value(k)
}

func WithoutCancel(parent context.Context) context.Context { return detached{parent} }

func AfterFunc(c context.Context, f func()) func() bool {
	var mu ssync.Mutex
	state := 0
	stop := vsim.MakeChan[struct{}](0)
	if c.Done() != nil {
		vsim.Go("context.AfterFunc", func() {
			if vsim.Select(false, vsim.CaseRecv(c.Done()), vsim.CaseRecv((<-chan struct{})(stop))).Idx != 0 {
				return
			}
			mu.Lock()
			run := state == 0
			state = 1
			mu.Unlock()
			if run {
				f()
			}
		})
	}
	return func() bool {
		mu.Lock()
		defer mu.Unlock()
		if state != 0 {
			return false
		}
		state = 1
		vsim.Close(stop)
		return true
	}
}
