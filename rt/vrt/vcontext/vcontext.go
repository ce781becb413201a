// Package vcontext replaces the cancelling parts of context.
package vcontext

import (
	"context"
	"time"

	"ustack/vrt"
	"ustack/vrt/vtime"
)

type Context = context.Context
type CancelFunc = context.CancelFunc

type ctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	children []*ctx
	dl       time.Time
	hasDL    bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	vrt.Point("ctx.err")
	vrt.Touch("ctx")
	return c.err
}
func (c *ctx) Value(k any) any { return c.parent.Value(k) }

func (c *ctx) cancel(e error) {
	if c.err != nil || !vrt.Active() {
		return
	}
	c.err = e
	vrt.Touch("ctx")
	vrt.Close(c.done)
	for _, ch := range c.children {
		ch.cancel(e)
	}
}

func WithCancel(p context.Context) (context.Context, context.CancelFunc) {
	c := &ctx{parent: p, done: make(chan struct{})}
	if pc, ok := p.(*ctx); ok {
		pc.children = append(pc.children, c)
		if pc.err != nil {
			c.cancel(pc.err)
		}
	}
	return c, func() { c.cancel(context.Canceled) }
}

func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	cc, cf := WithCancel(p)
	c := cc.(*ctx)
	c.dl, c.hasDL = vtime.Now().Add(d), true
	vtime.AfterFunc(d, func() { c.cancel(context.DeadlineExceeded) })
	return c, cf
}

func WithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(p, vtime.Until(t))
}
