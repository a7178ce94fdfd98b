package simrt

import "sync"

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	if !inSim() {
		m.locked = true
		return
	}
	block("mutex", func() bool { return !m.locked })
	if dead() {
		return
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if dead() {
		return
	}
	if inSim() && !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	hotY(5)
}

// RWMutex replaces sync.RWMutex; like the original, a waiting writer blocks
// new readers.
type RWMutex struct {
	writer  bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	if !inSim() {
		m.writer = true
		return
	}
	if dead() {
		return
	}
	m.waiting++
	t := W.cur
	defer func() {
		if t.dead { // killed while waiting
			m.waiting--
		}
	}()
	block("rwmutex-lock", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
	W.event("wlock", "")
}

func (m *RWMutex) Unlock() {
	if dead() {
		return
	}
	if inSim() && !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	hotY(10)
}

func (m *RWMutex) RLock() {
	if !inSim() {
		m.readers++
		return
	}
	if dead() {
		return
	}
	block("rwmutex-rlock", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if dead() {
		return
	}
	if inSim() && m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	hotY(10)
}

func (m *RWMutex) TryLock() bool {
	Y()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	Y()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	if dead() {
		return
	}
	Y()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if !inSim() {
		return
	}
	block("waitgroup", func() bool { return g.n == 0 })
}

// Go mirrors sync.WaitGroup.Go of newer releases.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done    bool
	running bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	if inSim() {
		if dead() {
			return
		}
		block("once", func() bool { return !o.running })
		if o.done {
			return
		}
	}
	o.running = true
	defer func() { o.running = false; o.done = true }()
	f()
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond replaces sync.Cond.
type Cond struct {
	L   sync.Locker
	seq int64
	q   []*condWaiter
}
type condWaiter struct{ ok bool }

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	wt := &condWaiter{}
	c.q = append(c.q, wt)
	c.L.Unlock()
	block("cond", func() bool { return wt.ok })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		c.q[0].ok = true
		c.q = c.q[1:]
	}
	Y()
}
func (c *Cond) Broadcast() {
	for _, w := range c.q {
		w.ok = true
	}
	c.q = nil
	Y()
}

// Pool replaces sync.Pool by a deterministic free list.
type Pool struct {
	New  func() interface{}
	free []interface{}
	w    *World
}

func (p *Pool) Get() interface{} {
	if p.w != W {
		p.free, p.w = nil, W
	}
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if p.w != W {
		p.free, p.w = nil, W
	}
	if x != nil && len(p.free) < 64 {
		p.free = append(p.free, x)
	}
}

// SetFinalizer and friends are no-ops: collection is not simulated.
func SetFinalizer(obj interface{}, f interface{}) {}
func Gosched()                                    { Y() }
func RuntimeGC()                                  {}

func hotY(pct int) {
	if W != nil {
		W.hot(pct)
	}
	Y()
}
