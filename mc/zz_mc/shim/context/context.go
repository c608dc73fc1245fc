package context

import (
	"errors"
	"time"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

type Context interface {
	Deadline() (time.Time, bool)
	Done() *mcrt.Chan[struct{}]
	Err() error
	Value(key any) any
}
type CancelFunc func()

var Canceled = errors.New("context canceled")
var DeadlineExceeded error = errors.New("context deadline exceeded")

type ctx struct {
	parent Context
	done   *mcrt.Chan[struct{}]
	err    error
	dl     time.Time
	hasDl  bool
	k, v   any
	kids   []*ctx
}

func (c *ctx) Deadline() (time.Time, bool) { return c.dl, c.hasDl }
func (c *ctx) Done() *mcrt.Chan[struct{}]  { return c.done }
func (c *ctx) Err() error                  { return c.err }
func (c *ctx) Value(key any) any {
	if c.k != nil && c.k == key {
		return c.v
	}
	if c.parent != nil {
		return c.parent.Value(key)
	}
	return nil
}
func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	if c.done != nil {
		c.done.Close()
	}
	for _, k := range c.kids {
		k.cancel(err)
	}
}
func Background() Context { return &ctx{} }
func TODO() Context       { return &ctx{} }
func child(p Context) *ctx {
	c := &ctx{parent: p, done: mcrt.MakeChan[struct{}](0)}
	if pc, ok := p.(*ctx); ok {
		c.dl, c.hasDl = pc.dl, pc.hasDl
		pc.kids = append(pc.kids, c)
		if pc.err != nil {
			c.cancel(pc.err)
		}
	}
	return c
}
func WithCancel(p Context) (Context, CancelFunc) {
	c := child(p)
	return c, func() { c.cancel(Canceled) }
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, time.Unix(0, mcrt.Now()).Add(d))
}
func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	c := child(p)
	c.dl, c.hasDl = t, true
	mcrt.Go(func() {
		mcrt.ParkUntil(func() bool { return c.err != nil }, t.UnixNano())
		c.cancel(DeadlineExceeded)
	})
	return c, func() { c.cancel(Canceled) }
}
func WithValue(p Context, k, v any) Context {
	c := child(p)
	if pc, ok := p.(*ctx); ok && pc.done == nil {
		c.done = nil
	}
	c.k, c.v = k, v
	return c
}
