package simstd

import (
	"context"
	"time"

	"verif.local/sim/rt"
	"verif.local/sim/simsync"
)

type ctx struct {
	context.Context // the parent: values
	mu              simsync.Mutex
	done            chan struct{}
	err, cause      error
	kids            []*ctx
	fn              func() // context.AfterFunc
	dl              time.Time
	hasDL           bool
	tm              *Timer
}

type selfKey struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ctx) Value(k any) any {
	if _, ok := k.(selfKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) Deadline() (time.Time, bool) {
	d, ok := c.Context.Deadline()
	if c.hasDL && (!ok || c.dl.Before(d)) {
		return c.dl, true
	}
	return d, ok
}

func (c *ctx) cancel(err, cause error) bool {
	if cause == nil {
		cause = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return false
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	tm, fn := c.tm, c.fn
	rt.Close(c.done)
	c.mu.Unlock()
	if tm != nil {
		tm.Stop()
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if fn != nil {
		rt.Go(fn)
	}
	return true
}

func derive(parent context.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if parent.Done() == nil {
		return c
	}
	if p, ok := parent.Value(selfKey{}).(*ctx); ok && p.done == parent.Done() {
		p.mu.Lock()
		err, cause := p.err, p.cause
		if err == nil {
			p.kids = append(p.kids, c)
		}
		p.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
		return c
	}
	rt.Go(func() {
		a, b := rt.RecvCase(parent.Done()), rt.RecvCase(c.done)
		if rt.Select(false, a, b) == 0 {
			c.cancel(parent.Err(), Cause(parent))
		}
	})
	return c
}

// WithCancel stands in for context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := derive(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

// WithCancelCause stands in for context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := derive(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

// WithDeadlineCause stands in for context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := derive(parent)
	c.dl, c.hasDL = d, true
	left := d.Sub(time.Now())
	if left <= 0 {
		c.cancel(context.DeadlineExceeded, cause)
	} else {
		c.mu.Lock()
		if c.err == nil {
			c.tm = AfterFunc(left, func() { c.cancel(context.DeadlineExceeded, cause) })
		}
		c.mu.Unlock()
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

// WithDeadline stands in for context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithTimeout stands in for context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), nil)
}

// WithTimeoutCause stands in for context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}

// AfterFuncCtx stands in for context.AfterFunc.
func AfterFuncCtx(parent context.Context, f func()) (stop func() bool) {
	c := derive(parent)
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		rt.Go(f)
		return func() bool { return false }
	}
	c.fn = f
	c.mu.Unlock()
	return func() bool {
		c.mu.Lock()
		c.fn = nil
		c.mu.Unlock()
		return c.cancel(context.Canceled, nil)
	}
}

// Cause stands in for context.Cause.
func Cause(x context.Context) error {
	if p, ok := x.Value(selfKey{}).(*ctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		if p.cause != nil {
			return p.cause
		}
	}
	return x.Err()
}

type detached struct{ context.Context }

func (detached) Deadline() (time.Time, bool) { return time.Time{}, false }
func (detached) Done() <-chan struct{}       { return nil }
func (detached) Err() error                  { return nil }
func (d detached) Value(k any) any {
	if _, ok := k.(selfKey); ok {
		return nil
	}
	return d.Context.Value(k)
}

// WithoutCancel stands in for context.WithoutCancel.
func WithoutCancel(parent context.Context) context.Context { return detached{parent} }
