package zzmodel

import (
	"context"
	"time"

	zz "github.com/vivint/rothko/internal/zzverif"
)

// Contexts: cancellation is one atomic step.

type ctxKey int

var theKey ctxKey

type mctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	children []*mctx
	deadline time.Time
	hasDL    bool
	timer    int
}

func (c *mctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *mctx) Done() <-chan struct{} { return c.done }
func (c *mctx) Err() error            { return ctxErr(c) }
func (c *mctx) Value(k interface{}) interface{} {
	if kk, ok := k.(*ctxKey); ok && kk == &theKey {
		return c
	}
	return c.parent.Value(k)
}

// ctxErr and ctxCancel are replaced by their atomic versions.
func ctxErr(c *mctx) error       { return c.err }
func ctxCancel(c *mctx, e error) {}

//zz:for github.com/vivint/rothko/internal/zzmodel.ctxErr arg0
func ctxErrAtomic(c *mctx) error { return c.err }

//zz:for github.com/vivint/rothko/internal/zzmodel.ctxCancel arg0
func ctxCancelAtomic(c *mctx, e error) { c.cancel(e) }

func (c *mctx) cancel(e error) {
	if c.err != nil {
		return
	}
	c.err = e
	close(c.done)
	if c.timer >= 0 {
		zz.TimerStop(c.timer)
	}
	for _, k := range c.children {
		k.cancel(e)
	}
	c.children = nil
}

func newCtx(parent context.Context) *mctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &mctx{parent: parent, done: make(chan struct{}), timer: -1}
	if p, ok := parent.Value(&theKey).(*mctx); ok {
		if p.err != nil {
			c.cancel(p.err)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

//zz:for context.WithCancel
func ctxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { ctxCancel(c, context.Canceled) }
}

//zz:for context.WithTimeout
func ctxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.hasDL = true
	if d <= 0 {
		c.cancel(context.DeadlineExceeded)
	} else if c.err == nil {
		c.timer = zz.TimerFunc(func() { ctxCancel(c, context.DeadlineExceeded) })
	}
	return c, func() { ctxCancel(c, context.Canceled) }
}

//zz:for context.WithDeadline
func ctxWithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return ctxWithTimeout(parent, 1)
}

// ---- time

//zz:for time.Now
func timeNow() time.Time { return time.Unix(0, zz.Now()) }

//zz:for time.Since
func timeSince(t time.Time) time.Duration { return time.Duration(zz.Now() - t.UnixNano()) }

type tickRec struct {
	t  *time.Ticker
	id int
}

type timerRec struct {
	t  *time.Timer
	id int
}

var (
	tickers []tickRec
	timers  []timerRec
	// Ticks is how often each ticker made from now on fires, at any moments.
	// If zero, it fires once, when nothing else can happen.
	Ticks = 0
)

//zz:for time.NewTicker plain
func timeNewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	if Ticks > 0 {
		n := Ticks
		go func() {
			for i := 0; i < n; i++ {
				select {
				case c <- time.Time{}:
				default:
				}
			}
		}()
		return t
	}
	tickers = append(tickers, tickRec{t, zz.Timer(c)})
	return t
}

//zz:for (*time.Ticker).Stop
func tickerStop(t *time.Ticker) {
	for _, r := range tickers {
		if r.t == t {
			zz.TimerStop(r.id)
		}
	}
}

//zz:for time.NewTimer
func timeNewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	timers = append(timers, timerRec{t, zz.Timer(c)})
	return t
}

//zz:for (*time.Timer).Stop
func timerStop(t *time.Timer) bool {
	for _, r := range timers {
		if r.t == t {
			return zz.TimerStop(r.id)
		}
	}
	return false
}

//zz:for (*time.Timer).Reset
func timerReset(t *time.Timer, d time.Duration) bool {
	for _, r := range timers {
		if r.t == t {
			a := zz.TimerStop(r.id)
			zz.TimerArm(r.id)
			return a
		}
	}
	return false
}

//zz:for time.After
func timeAfter(d time.Duration) <-chan time.Time { return timeNewTimer(d).C }

//zz:for time.AfterFunc
func timeAfterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	timers = append(timers, timerRec{t, zz.TimerFunc(f)})
	return t
}

// Local time is UTC.
//
//zz:for time.initLocal
func timeInitLocal() {}
