package simrt

import (
	"context"
	"time"
)

func (w *World) wall() time.Time { return time.Unix(EpochBase, w.now).UTC() }

// WallAt converts a simulated instant to wall-clock time.
func WallAt(ns int64) time.Time { return time.Unix(EpochBase, ns).UTC() }

// NsOf converts wall-clock time to a simulated instant.
func NsOf(t time.Time) int64 {
	d := t.Unix() - EpochBase
	if d > 1<<33 {
		return 1 << 62
	}
	if d < -(1 << 33) {
		return -(1 << 62)
	}
	return d*1e9 + int64(t.Nanosecond())
}

func Now() time.Time {
	if W == nil {
		return time.Now()
	}
	return W.wall()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !inSim() {
		return
	}
	if d <= 0 {
		Y()
		return
	}
	BlockUntil("sleep", W.now+int64(d), func() bool { return false })
}

// Timer replaces time.Timer (with the buffered channel of Go before 1.23).
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	st *simTimer
	rt *time.Timer
	n  *Node
	id int64
}

func (t *Timer) arm(d time.Duration) {
	w := W
	if d < 0 {
		d = 0
	}
	if t.id == 0 {
		w.timerID++
		t.id = w.timerID
	}
	t.st = w.addTimer(w.now+int64(d), func() {
		if t.n != nil && t.n.Dead {
			return
		}
		if t.f != nil {
			GoNode(t.n, "afterfunc", t.f)
			return
		}
		select {
		case t.c <- w.wall():
		default:
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	if !inSim() {
		rt := time.NewTimer(d)
		return &Timer{C: rt.C, rt: rt}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, n: CurNode()}
	if !dead() {
		t.arm(d)
	}
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if !inSim() {
		return &Timer{rt: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f, n: CurNode()}
	if !dead() {
		t.arm(d)
	}
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.rt != nil {
		return t.rt.Stop()
	}
	if W == nil || dead() {
		return false
	}
	return W.delTimer(t.st)
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.rt != nil {
		return t.rt.Reset(d)
	}
	if W == nil || dead() {
		return false
	}
	act := W.delTimer(t.st)
	t.arm(d)
	return act
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	st *simTimer
	n  *Node
	d  time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, n: CurNode(), d: d}
	if inSim() && !dead() {
		t.arm()
	}
	return t
}

func (t *Ticker) arm() {
	w := W
	t.st = w.addTimer(w.now+int64(t.d), func() {
		if t.n != nil && t.n.Dead {
			return
		}
		select {
		case t.c <- w.wall():
		default:
		}
		t.arm()
	})
}
func (t *Ticker) Stop() {
	if W != nil && !dead() {
		W.delTimer(t.st)
	}
}
func (t *Ticker) Reset(d time.Duration) {
	if W != nil && !dead() {
		W.delTimer(t.st)
		t.d = d
		t.arm()
	}
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// CtxWithDeadline and CtxWithTimeout drive contexts from simulated time.
func CtxWithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	if !inSim() {
		return context.WithDeadline(parent, d)
	}
	ctx, cancel := context.WithCancel(parent)
	w := W
	x := &timedCtx{Context: ctx, d: d}
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		x.d = pd
	}
	tm := w.addTimer(NsOf(d), func() { x.expired = ctx.Err() == nil; cancel() })
	return x, func() { w.delTimer(tm); cancel() }
}

type timedCtx struct {
	context.Context
	d       time.Time
	expired bool
}

func (c *timedCtx) Deadline() (time.Time, bool) { return c.d, true }
func (c *timedCtx) Err() error {
	if c.expired {
		return context.DeadlineExceeded
	}
	return c.Context.Err()
}
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if !inSim() {
		return context.WithTimeout(parent, d)
	}
	return CtxWithDeadline(parent, W.wall().Add(d))
}
