package simrt

import (
	"reflect"
	"unsafe"
)

// Channel operations. Buffered channels use the real channel without ever
// blocking on it; unbuffered channels use waiter queues kept on the side.

type waiter struct {
	task *Task
	done bool
	idx  int
	val  interface{}
	ok   bool
}
type wcase struct {
	w   *waiter
	idx int
	val interface{}
}
type chanState struct {
	recvq, sendq []*wcase
	closed       bool
}

func cid[T any](ch chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func bidirR[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }
func bidirS[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

func (w *World) cs(id uintptr, create bool) *chanState {
	c := w.chans[id]
	if c == nil && create {
		c = &chanState{}
		w.chans[id] = c
	}
	return c
}

func prune(q []*wcase) []*wcase {
	out := q[:0]
	for _, c := range q {
		if !c.w.done && !c.w.task.dead {
			out = append(out, c)
		}
	}
	return out
}

// Case is one alternative of a select.
type Case interface {
	ready() bool
	try() bool
	register(w *waiter, idx int)
	deliver(v interface{}, ok bool)
	unregister(w *waiter)
	readyFor(w *waiter) bool
	reflectCase() reflect.SelectCase
}

type RecvCase[T any] struct {
	ch chan T
	V  T
	OK bool
}

func RecvC[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: bidirR(ch)} }

func (c *RecvCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 {
		return true
	}
	st := W.cs(cid(c.ch), false)
	if st != nil {
		st.sendq = prune(st.sendq)
		if len(st.sendq) > 0 || st.closed {
			return true
		}
	}
	// closed by code outside the simulation?
	if cap(c.ch) == 0 {
		select {
		case _, ok := <-c.ch:
			return !ok
		default:
			return false
		}
	}
	// buffered and empty: a non-blocking receive succeeds only when closed
	select {
	case v, ok := <-c.ch:
		if ok { // cannot happen: len was 0
			panic("simrt: lost value")
		}
		_ = v
		return true
	default:
		return false
	}
}

func (c *RecvCase[T]) try() bool {
	if !c.ready() {
		return false
	}
	if len(c.ch) > 0 {
		c.V, c.OK = <-c.ch
		return true
	}
	st := W.cs(cid(c.ch), false)
	if st != nil && len(st.sendq) > 0 {
		s := st.sendq[0]
		st.sendq = st.sendq[1:]
		s.w.done = true
		s.w.idx = s.idx
		s.w.ok = true
		if s.val != nil {
			c.V = s.val.(T)
		}
		c.OK = true
		return true
	}
	var zero T
	c.V, c.OK = zero, false
	return true
}

func (c *RecvCase[T]) register(w *waiter, idx int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	st := W.cs(cid(c.ch), true)
	st.recvq = append(prune(st.recvq), &wcase{w: w, idx: idx})
}
func (c *RecvCase[T]) deliver(v interface{}, ok bool) {
	if v != nil {
		c.V = v.(T)
	}
	c.OK = ok
}
func (c *RecvCase[T]) unregister(w *waiter) {
	if c.ch == nil {
		return
	}
	unreg(cid(c.ch), w)
}

func unreg(id uintptr, w *waiter) {
	st := W.cs(id, false)
	if st == nil {
		return
	}
	f := func(q []*wcase) []*wcase {
		out := q[:0]
		for _, x := range q {
			if x.w != w {
				out = append(out, x)
			}
		}
		return out
	}
	st.recvq = f(st.recvq)
	st.sendq = f(st.sendq)
	if len(st.recvq) == 0 && len(st.sendq) == 0 && !st.closed {
		delete(W.chans, id)
	}
}

type SendCase[T any] struct {
	ch chan T
	v  T
}

func SendC[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: bidirS(ch), v: v} }
}

func (c *SendCase[T]) closed() bool {
	st := W.cs(cid(c.ch), false)
	return st != nil && st.closed
}

func (c *SendCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	if c.closed() {
		return true
	}
	if cap(c.ch) > 0 {
		return len(c.ch) < cap(c.ch)
	}
	st := W.cs(cid(c.ch), false)
	if st == nil {
		return false
	}
	st.recvq = prune(st.recvq)
	return len(st.recvq) > 0
}

func (c *SendCase[T]) try() bool {
	if !c.ready() {
		return false
	}
	if c.closed() {
		panic("send on closed channel")
	}
	if cap(c.ch) > 0 {
		c.ch <- c.v
		return true
	}
	st := W.cs(cid(c.ch), false)
	r := st.recvq[0]
	st.recvq = st.recvq[1:]
	r.w.done = true
	r.w.idx = r.idx
	r.w.val = c.v
	r.w.ok = true
	return true
}

func (c *SendCase[T]) register(w *waiter, idx int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	st := W.cs(cid(c.ch), true)
	st.sendq = append(prune(st.sendq), &wcase{w: w, idx: idx, val: c.v})
}
func (c *SendCase[T]) deliver(interface{}, bool) {}
func (c *SendCase[T]) unregister(w *waiter) {
	if c.ch != nil {
		unreg(cid(c.ch), w)
	}
}

// Select performs a select statement; -1 means default.
func Select(hasDefault bool, cases ...Case) int {
	if !inSim() {
		return realSelect(hasDefault, cases)
	}
	w := W
	if w.cur.dead {
		block("select", func() bool { return true })
		if hasDefault {
			return -1
		}
		// pretend the last case fired: unwinding code goes its shortest way
		return 0
	}
	if hasDefault {
		Y()
	} else {
		block("select-enter", func() bool { return true })
	}
	var rdy []int
	scan := func() bool {
		rdy = rdy[:0]
		for i, c := range cases {
			if c.ready() {
				rdy = append(rdy, i)
			}
		}
		return len(rdy) > 0
	}
	if scan() {
		i := rdy[w.Choose("sel", len(rdy))]
		cases[i].try()
		return i
	}
	if hasDefault {
		return -1
	}
	wt := &waiter{task: w.cur}
	for i, c := range cases {
		c.register(wt, i)
	}
	block("select", func() bool {
		if wt.done {
			return true
		}
		// look only at conditions that are not handed over through the queues
		for _, c := range cases {
			if c.readyFor(wt) {
				return true
			}
		}
		return false
	})
	for _, c := range cases {
		c.unregister(wt)
	}
	if wt.done {
		cases[wt.idx].deliver(wt.val, wt.ok)
		return wt.idx
	}
	if !scan() {
		panic("simrt: select woke without a ready case")
	}
	i := rdy[w.Choose("sel", len(rdy))]
	cases[i].try()
	return i
}

// readyFor is ready() ignoring registrations of the waiter itself: hand-over
// between blocked tasks happens in try() of the task that arrives second.
func (c *RecvCase[T]) readyFor(wt *waiter) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) > 0 {
		return c.ready()
	}
	st := W.cs(cid(c.ch), false)
	if st != nil {
		if st.closed {
			return true
		}
		st.sendq = prune(st.sendq)
		for _, s := range st.sendq {
			if s.w != wt {
				return true
			}
		}
		select { // closed by code outside the simulation?
		case _, ok := <-c.ch:
			return !ok
		default:
			return false
		}
	}
	return c.ready()
}

func (c *SendCase[T]) readyFor(wt *waiter) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) > 0 || c.closed() {
		return c.ready()
	}
	st := W.cs(cid(c.ch), false)
	if st == nil {
		return false
	}
	st.recvq = prune(st.recvq)
	for _, s := range st.recvq {
		if s.w != wt {
			return true
		}
	}
	return false
}

func realSelect(hasDefault bool, cases []Case) int {
	var rc []reflect.SelectCase
	for _, c := range cases {
		rc = append(rc, c.reflectCase())
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if hasDefault && i == len(cases) {
		return -1
	}
	if v.IsValid() {
		cases[i].deliver(v.Interface(), ok)
	}
	return i
}

func (c *RecvCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *SendCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(c.v)}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !inSim() {
		v, ok := <-ch
		return v, ok
	}
	c := RecvC(ch)
	if W.cur.dead {
		block("recv", func() bool { return true })
		return c.V, false
	}
	Select(false, c)
	return c.V, c.OK
}

// SendTo is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !inSim() {
			ch <- v
			return
		}
		if W.cur.dead {
			block("send", func() bool { return true })
			return
		}
		Select(false, SendC(ch)(v))
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if !inSim() {
		close(ch)
		return
	}
	if dead() {
		return
	}
	c := bidirS(ch)
	st := W.cs(cid(c), true)
	if st.closed {
		panic("close of closed channel")
	}
	close(ch)
	st.closed = true
	// keep the channel alive so that its address is not reused in this world
	W.keep = append(W.keep, c)
	st.sendq = prune(st.sendq)
	Y()
}

// BlockForever is select{}.
func BlockForever() {
	if !inSim() {
		select {}
	}
	block("forever", func() bool { return false })
}

// TrySend is a non-blocking send used by simulator devices.
func TrySend[T any](ch chan T, v T) bool {
	c := SendC[T](ch)(v)
	return c.try()
}
