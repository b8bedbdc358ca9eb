// Package context mirrors the standard package on virtual channels and clocks.
package context

import (
	"errors"
	"fmt"
	rtime "time"
	"unsafe"

	"verifmc/vrt"
)

type cancelCtx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	deadline rtime.Time
	hasDl    bool
	timer    *vrt.Timer
	tok      uint64
	obj      vrt.Obj
}

func (c *cancelCtx) Deadline() (rtime.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error {
	vrt.Point(&c.obj, "ctx.err")
	if c.err != nil {
		vrt.RaceAcquire(unsafe.Pointer(&c.tok))
	}
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if k == any(&cancelKey) {
		return c
	}
	return c.parent.Value(k)
}

var cancelKey int

func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	vrt.RaceReleaseMerge(unsafe.Pointer(&c.tok))
	vrt.CloseNow(c.done)
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	c.children = nil
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newCtx(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(any(&cancelKey)).(*cancelCtx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func (c *cancelCtx) user(err, cause error) {
	if vrt.Active() && vrt.Dead() {
		return
	}
	vrt.Point(&c.obj, "cancel")
	c.cancel(err, cause)
	vrt.Point(&c.obj, "cancelled")
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.user(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.user(Canceled, cause) }
}

func WithDeadline(parent Context, d rtime.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d rtime.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	c.hasDl, c.deadline = true, d
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
	}
	if c.err == nil {
		at := c.deadline.UnixNano()
		if at <= vrt.Now() {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.timer = vrt.AddTimer(at, func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.user(Canceled, nil) }
}

func WithTimeout(parent Context, d rtime.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, rtime.Unix(0, vrt.Now()).Add(d))
}

func WithTimeoutCause(parent Context, d rtime.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, rtime.Unix(0, vrt.Now()).Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(any(&cancelKey)).(*cancelCtx); ok {
		return p.cause
	}
	return c.Err()
}

type noCancel struct{ Context }

func (noCancel) Deadline() (t rtime.Time, ok bool) { return }
func (noCancel) Done() <-chan struct{}             { return nil }
func (noCancel) Err() error                        { return nil }
func (n noCancel) Value(k any) any {
	if k == any(&cancelKey) {
		return nil
	}
	return n.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return noCancel{parent} }

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	stopped, ran := false, false
	quit := make(chan struct{})
	vrt.Go(func() {
		rc, qc := vrt.RecvCase(ctx.Done()), vrt.RecvCase[struct{}](quit)
		if vrt.Select(false, rc, qc) == 0 && !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		if ran || stopped {
			return false
		}
		stopped = true
		vrt.CloseNow(quit)
		return true
	}
}

var _ = errors.New
var _ = fmt.Sprint
