// Package simrt is a deterministic simulator runtime: a token-passing
// scheduler with virtual time, channels, locks, network, disk, randomness and
// signals. One World is one execution, fully decided by its configuration.
package simrt

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"math"
	mrand "math/rand"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// SchedCfg decides every scheduling choice of a run.
type SchedCfg struct {
	Seed     int64            `json:"seed"`
	Policy   string           `json:"policy"`            // "fifo", "random", "pct", "trace"
	Gap      int              `json:"gap,omitempty"`     // mean number of yields between preemptions (random)
	Changes  int              `json:"changes,omitempty"` // priority change points (pct)
	StepNs   int64            `json:"step_ns,omitempty"` // simulated CPU time per yield
	StallPct int              `json:"stall,omitempty"`   // percent of preemptions that stall the task
	Pre      [][3]int64       `json:"pre,omitempty"`     // trace: yield index, task to run, stall ns
	Ch       map[string]int64 `json:"ch,omitempty"`      // trace: "kind:counter" -> choice
}

// Limits of a run.
type Limits struct {
	MaxYields  int64
	MaxSwitch  int64
	MaxSimTime int64 // ns
}

type taskState int

const (
	tReady taskState = iota
	tBlocked
	tDone
)

// Task is one simulated thread.
type Task struct {
	ID     int
	Name   string
	Node   *Node
	state  taskState
	pred   func() bool
	why    string
	resume chan struct{}
	dead   bool
	deadOp int
	prio   int
	stall  int64 // not runnable before this time
	exitTo *Task // killer waiting for this task to unwind
	wake   bool  // set when a deadline fired
	joined []*Task
	park   bool // when killed, park the goroutine instead of unwinding it
}

// Node is one simulated process (or machine).
type Node struct {
	ID       int
	Name     string
	w        *World
	tasks    map[int]*Task
	Dead     bool
	Panic    string // non-empty when the process died of a panic
	Stack    string
	ExitCode int
	Exited   bool
	FS       *FS
	Host     string
	sigs     []sigReg
	Log      []string
	Out      strings.Builder
	In       *InputPipe
	Cwd      string
	Rand     *Entropy
	onDeath  []func()
	DieFatal string
}

// World is one simulation.
type World struct {
	timerID  int64
	mapw     map[uintptr]*Task
	Cfg      SchedCfg
	Lim      Limits
	now      int64
	timers   timerHeap
	tseq     int64
	tasks    []*Task
	live     int
	cur      *Task
	nodes    []*Node
	yields   int64
	switchs  int64
	nextPre  int64
	urgent   *Task
	urgentAt int64
	// Watch, if set, is told what simulated processes do: "accept" (address),
	// "disk-<operation>" (path), "wlock" (an exclusive lock was taken).
	Watch   func(kind, arg string)
	nstall  int
	preIdx  int
	rng     *mrand.Rand
	chCnt   map[string]int64
	RecPre  [][3]int64
	RecCh   map[string]int64
	trace   bool
	hash    uint64
	events  int64
	Status  string // "", "deadlock", "yield-limit", "time-limit"
	Detail  string
	ending  bool
	root    chan struct{}
	chans   map[uintptr]*chanState
	keep    []interface{}
	Net     *Network
	Faults  map[string]int64 // fired fault kinds
	Probes  map[string]int64
	pctPts  map[int64]bool
	nextID  int
	Verbose func(string)
	ilv     uint64
	entropy *Entropy
	Horizon int64 // if >0, runnable-less time jumps beyond it end the run with "time-limit"
}

// W is the active world, nil outside a simulation.
var W *World

// EpochBase is the wall clock at simulated time zero (2026-01-01 UTC).
const EpochBase int64 = 1767225600

func NewWorld(cfg SchedCfg, lim Limits) *World {
	if lim.MaxYields == 0 {
		lim.MaxYields = 20_000_000
	}
	if lim.MaxSwitch == 0 {
		lim.MaxSwitch = 2_000_000
	}
	if cfg.StepNs == 0 {
		cfg.StepNs = 500
	}
	w := &World{Cfg: cfg, Lim: lim, chCnt: map[string]int64{}, RecCh: map[string]int64{}, root: make(chan struct{}),
		chans: map[uintptr]*chanState{}, Faults: map[string]int64{}, Probes: map[string]int64{}, hash: 14695981039346656037, ilv: 14695981039346656037}
	w.rng = mrand.New(mrand.NewSource(cfg.Seed))
	w.Net = newNetwork(w)
	w.entropy = NewEntropy(cfg.Seed ^ 0x5eed)
	w.trace = cfg.Policy == "trace"
	if cfg.Policy == "pct" {
		w.pctPts = map[int64]bool{}
		horizon := int64(cfg.Gap)
		if horizon <= 0 {
			horizon = 2000
		}
		for i := 0; i < cfg.Changes; i++ {
			w.pctPts[1+w.rng.Int63n(horizon)] = true
		}
	}
	w.scheduleNextPre()
	return w
}

// hot marks a point where a preemption is more interesting than elsewhere: it
// takes place with the given chance in percent.
func (w *World) hot(pct int) {
	if w.trace || w.Cfg.Policy != "random" || w.cur == nil || w.cur.dead {
		return
	}
	if w.rng.Intn(100) < pct {
		w.nextPre = w.yields + 1
	}
}

// Hurry asks for the given task to run after about n more yields of whoever
// runs now.
func (w *World) Hurry(t *Task, n int64) {
	if w.trace || t == nil || t.dead {
		return
	}
	w.urgent, w.urgentAt = t, w.yields+n
	if w.urgentAt < w.nextPre {
		w.nextPre = w.urgentAt
	}
}

func (w *World) event(kind, arg string) {
	if w.Watch != nil && w.cur != nil && !w.cur.dead {
		w.Watch(kind, arg)
	}
}

func (w *World) scheduleNextPre() {
	w.scheduleNextPre1()
	if w.urgent != nil && w.urgentAt < w.nextPre {
		w.nextPre = w.urgentAt
		if w.nextPre <= w.yields {
			w.nextPre = w.yields + 1
		}
	}
}

func (w *World) scheduleNextPre1() {
	switch w.Cfg.Policy {
	case "trace":
		if w.preIdx < len(w.Cfg.Pre) {
			w.nextPre = w.Cfg.Pre[w.preIdx][0]
		} else {
			w.nextPre = math.MaxInt64
		}
	case "random":
		g := w.Cfg.Gap
		if g <= 0 {
			g = 100
		}
		w.nextPre = w.yields + 1 + int64(w.rng.ExpFloat64()*float64(g))
	case "pct":
		w.nextPre = math.MaxInt64
		for p := range w.pctPts { // min over the set: order does not matter
			if p > w.yields && p < w.nextPre {
				w.nextPre = p
			}
		}
	default:
		w.nextPre = math.MaxInt64
	}
}

// Choose makes a recorded choice in [0,n); 0 is the simplest alternative.
func (w *World) Choose(kind string, n int) int {
	if n <= 1 {
		return 0
	}
	c := w.chCnt[kind]
	w.chCnt[kind] = c + 1
	key := fmt.Sprintf("%s:%d", kind, c)
	var v int64
	if w.trace {
		v = w.Cfg.Ch[key]
		if v >= int64(n) {
			v = 0
		}
	} else if w.Cfg.Policy == "fifo" && kind == "next" {
		v = 0
	} else {
		v = int64(w.rng.Intn(n))
	}
	if v != 0 {
		w.RecCh[key] = v
	}
	return int(v)
}

// Chance is true with probability p (recorded; false is the default).
func (w *World) Chance(kind string, p float64) bool {
	if p <= 0 {
		return false
	}
	c := w.chCnt[kind]
	w.chCnt[kind] = c + 1
	key := fmt.Sprintf("%s:%d", kind, c)
	var v bool
	if w.trace {
		v = w.Cfg.Ch[key] != 0
	} else {
		v = w.rng.Float64() < p
	}
	if v {
		w.RecCh[key] = 1
	}
	return v
}

// Event appends to the event log digest.
func (w *World) Event(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	w.hash = w.hash*1099511628211 ^ h.Sum64() ^ uint64(w.now)
	w.events++
	if w.Verbose != nil {
		name := "-"
		if w.cur != nil {
			name = fmt.Sprintf("%s/t%d.%s", w.cur.Node.Name, w.cur.ID, w.cur.Name)
		}
		w.Verbose(fmt.Sprintf("%14.6fs y=%-7d [%s] %s", float64(w.now)/1e9, w.yields, name, s))
	}
}

func (w *World) Fault(kind string)  { w.Faults[kind]++; w.Event("fault %s", kind) }
func (w *World) Probe(name string)  { w.Probes[name]++ }
func (w *World) Hash() uint64       { return w.hash ^ uint64(w.yields)<<20 ^ uint64(w.switchs) }
func (w *World) Interleave() uint64 { return w.ilv }
func (w *World) Yields() int64      { return w.yields }
func (w *World) Switches() int64    { return w.switchs }
func (w *World) NowNs() int64       { return w.now }
func (w *World) Seq() int64         { w.tseq++; return w.tseq }

func (w *World) NewNode(name string) *Node {
	n := &Node{ID: len(w.nodes), Name: name, w: w, tasks: map[int]*Task{}, Cwd: "/", Host: "127.0.0.1"}
	n.FS = NewFS(w)
	n.Rand = NewEntropy(w.Cfg.Seed*7919 + int64(n.ID)*104729 + 17)
	n.In = &InputPipe{}
	w.nodes = append(w.nodes, n)
	return n
}

func (w *World) newTask(n *Node, name string, f func()) *Task {
	w.nextID++
	t := &Task{ID: w.nextID, Name: name, Node: n, resume: make(chan struct{})}
	if w.Cfg.Policy == "pct" {
		t.prio = 1000 + w.Choose("prio", 1000)
	}
	w.tasks = append(w.tasks, t)
	w.live++
	n.tasks[t.ID] = t
	go func() {
		<-t.resume
		defer w.taskExit(t)
		if t.dead {
			runtime.Goexit()
		}
		f()
	}()
	return t
}

// taskExit runs as the last deferred function of a task's goroutine.
func (w *World) taskExit(t *Task) {
	if r := recover(); r != nil {
		if !t.dead {
			st := cleanStack(string(debug.Stack()))
			w.nodeDied(t.Node, fmt.Sprint(r), st)
		}
	}
	t.state = tDone
	w.live--
	delete(t.Node.tasks, t.ID)
	for i, x := range w.tasks {
		if x == t {
			w.tasks = append(w.tasks[:i:i], w.tasks[i+1:]...)
			break
		}
	}
	if t.exitTo != nil { // killed by another task: give the token back
		k := t.exitTo
		w.cur = k
		k.resume <- struct{}{}
		return
	}
	if w.ending {
		w.root <- struct{}{}
		return
	}
	if !t.dead {
		w.ilvAdd(uint64(t.ID) << 32)
	}
	w.cur = nil
	w.dispatch(nil)
}

func (w *World) ilvAdd(x uint64) { w.ilv = (w.ilv ^ x) * 1099511628211 }

// nodeDied marks a node dead because of a panic and kills its other tasks.
func (w *World) nodeDied(n *Node, msg, stack string) {
	n.Panic = msg
	n.Stack = stack
	w.Event("node %s died: panic: %s", n.Name, msg)
	w.KillNode(n)
}

// KillNode kills every task of n (the current one excepted) as a process
// crash would: deferred functions run with all simulated operations disabled.
func (w *World) KillNode(n *Node) {
	if n.Dead {
		return
	}
	n.Dead = true
	w.Event("kill node %s", n.Name)
	var ids []int
	for id := range n.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	me := w.cur
	for _, id := range ids {
		t := n.tasks[id]
		if t == nil || t == me || t.state == tDone {
			continue
		}
		w.killTask(t)
	}
	w.Net.nodeDied(n)
	for _, f := range n.onDeath {
		f()
	}
}

func (w *World) killTask(t *Task) {
	me := w.cur
	t.dead = true
	t.exitTo = me
	w.cur = t
	t.resume <- struct{}{}
	<-me.resume
	w.cur = me
}

// Run executes main as the first task of a fresh harness node and returns
// when it finishes or a limit is reached.
func (w *World) Run(main func(h *Node)) {
	if W != nil {
		panic("simrt: nested worlds")
	}
	mrand.Seed(w.Cfg.Seed)
	W = w
	h := w.NewNode("harness")
	t := w.newTask(h, "main", func() {
		main(h)
		w.finish("")
	})
	w.cur = t
	t.resume <- struct{}{}
	<-w.root
	// unwind everything that is left
	w.ending = true
	for _, n := range w.nodes {
		n.Dead = true
	}
	for len(w.tasks) > 0 {
		t := w.tasks[len(w.tasks)-1]
		t.dead = true
		t.exitTo = nil
		w.cur = t
		t.resume <- struct{}{}
		<-w.root
	}
	W = nil
}

// finish ends the world from within the current task.
func (w *World) finish(status string) {
	if w.ending {
		return
	}
	w.ending = true
	w.Status = status
	t := w.cur
	w.root <- struct{}{}
	// wait to be unwound
	if t != nil {
		<-t.resume
		if t.dead {
			runtime.Goexit()
		}
	}
	select {}
}

// Stop ends the simulation now (from any task).
func (w *World) Stop(status string) {
	w.finish(status)
}

func (w *World) describe() string {
	var b strings.Builder
	for _, t := range w.tasks {
		fmt.Fprintf(&b, "[%s t%d %s: %s] ", t.Node.Name, t.ID, t.Name, t.why)
	}
	return b.String()
}

// dispatch picks the next task and hands it the token. from is the task that
// stops running (nil if it exited). It returns when from runs again.
func (w *World) dispatch(from *Task) {
	next := w.pick()
	if next == nil { // deadlock or limit
		if from != nil {
			w.cur = from
			w.finish(w.Status)
			return
		}
		w.ending = true
		w.root <- struct{}{}
		return
	}
	w.switchTo(from, next)
}

func (w *World) switchTo(from, next *Task) {
	next.state = tReady
	next.pred = nil
	w.cur = next
	if next == from {
		return
	}
	w.switchs++
	w.ilvAdd(uint64(next.ID))
	next.resume <- struct{}{}
	if from == nil {
		return
	}
	<-from.resume
	if from.dead {
		if from.park {
			w.drop(from)
		}
		runtime.Goexit()
	}
}

func (t *Task) runnable(now int64) bool {
	if t.stall > now {
		return false
	}
	switch t.state {
	case tReady:
		return true
	case tBlocked:
		return t.pred != nil && t.pred()
	}
	return false
}

func (w *World) pick() *Task {
	for {
		w.runTimers()
		if w.switchs > w.Lim.MaxSwitch || w.yields > w.Lim.MaxYields {
			w.Status = "yield-limit"
			w.Detail = w.describe()
			return nil
		}
		if w.Lim.MaxSimTime > 0 && w.now > w.Lim.MaxSimTime {
			w.Status = "time-limit"
			w.Detail = w.describe()
			return nil
		}
		var run []*Task
		minStall := int64(math.MaxInt64)
		for _, t := range w.tasks {
			if t.runnable(w.now) {
				run = append(run, t)
			} else if t.stall > w.now && t.stall < minStall {
				minStall = t.stall
			}
		}
		if len(run) > 0 {
			if w.Cfg.Policy == "pct" {
				best := 0
				for i, t := range run {
					if t.prio > run[best].prio {
						best = i
					}
				}
				if best != 0 {
					key := fmt.Sprintf("next:%d", w.chCnt["next"])
					w.RecCh[key] = int64(best)
				}
				if len(run) > 1 {
					w.chCnt["next"]++
				}
				return run[best]
			}
			return run[w.Choose("next", len(run))]
		}
		// nobody can run: advance time
		nt := minStall
		if len(w.timers) > 0 && w.timers[0].when < nt {
			nt = w.timers[0].when
		}
		if nt == math.MaxInt64 {
			w.Status = "deadlock"
			w.Detail = w.describe()
			return nil
		}
		if nt > w.now {
			w.now = nt
		}
	}
}

// Y is a statement-level yield point.
func Y() {
	w := W
	if w == nil {
		return
	}
	w.yields++
	w.now += w.Cfg.StepNs
	if w.yields >= w.nextPre || (len(w.timers) > 0 && w.timers[0].when <= w.now) {
		w.slowYield()
	} else if w.yields > w.Lim.MaxYields {
		w.slowYield()
	}
}

func (w *World) slowYield() {
	t := w.cur
	if t == nil || t.dead || w.ending {
		return
	}
	w.runTimers()
	if w.yields > w.Lim.MaxYields {
		w.Status = "yield-limit"
		w.Detail = "running " + t.Node.Name + "/" + t.Name + " " + w.describe() + "\n" + cleanStack(string(debug.Stack()))
		w.finish("yield-limit")
		return
	}
	if w.yields >= w.nextPre {
		w.preempt()
	}
}

func (w *World) preempt() {
	t := w.cur
	at := w.yields
	if w.trace {
		e := w.Cfg.Pre[w.preIdx]
		w.preIdx++
		w.scheduleNextPre()
		var next *Task
		for _, x := range w.tasks {
			if int64(x.ID) == e[1] {
				next = x
			}
		}
		if e[2] > 0 {
			t.stall = w.now + e[2]
			w.Faults["stall"]++
		}
		if next == nil || next == t || !next.runnable(w.now) {
			if e[2] > 0 {
				t.why = "stalled"
				w.dispatch(t)
			}
			return
		}
		w.RecPre = append(w.RecPre, [3]int64{at, e[1], e[2]})
		w.switchTo(t, next)
		return
	}
	if x := w.urgent; x != nil && w.yields >= w.urgentAt {
		w.urgent = nil
		w.scheduleNextPre()
		if x != t && x.runnable(w.now) {
			w.Probes["hurried"]++
			w.RecPre = append(w.RecPre, [3]int64{at, int64(x.ID), 0})
			w.switchTo(t, x)
		}
		return
	}
	w.scheduleNextPre()
	stall := int64(0)
	if w.Cfg.StallPct > 0 && w.nstall < 6 && w.rng.Intn(100) < w.Cfg.StallPct {
		w.nstall++
		stall = int64(w.rng.ExpFloat64() * 2e9)
		t.stall = w.now + stall
		w.Faults["stall"]++
	}
	if w.Cfg.Policy == "pct" {
		t.prio = 999 - w.switchPrio()
	}
	var run []*Task
	for _, x := range w.tasks {
		if x.runnable(w.now) {
			run = append(run, x)
		}
	}
	var next *Task
	if len(run) > 0 {
		if w.Cfg.Policy == "pct" {
			next = run[0]
			for _, x := range run {
				if x.prio > next.prio {
					next = x
				}
			}
		} else {
			next = run[w.rng.Intn(len(run))]
		}
	}
	if next == nil { // everything stalled or blocked
		w.RecPre = append(w.RecPre, [3]int64{at, int64(t.ID), stall})
		t.why = "stalled"
		w.dispatch(t)
		return
	}
	if next == t && stall == 0 {
		return
	}
	w.RecPre = append(w.RecPre, [3]int64{at, int64(next.ID), stall})
	w.switchTo(t, next)
}

func (w *World) switchPrio() int {
	w.Probes["pct-change"]++
	return int(w.Probes["pct-change"])
}

// block parks the current task until pred holds.
func block(why string, pred func() bool) {
	w := W
	t := w.cur
	if t.dead {
		t.deadOp++
		if t.deadOp > 10000 {
			// an unwinding task loops for ever: abandon its goroutine
			w.abandon(t)
		}
		return
	}
	w.yields++
	w.now += w.Cfg.StepNs
	if w.yields >= w.nextPre || w.yields > w.Lim.MaxYields || (len(w.timers) > 0 && w.timers[0].when <= w.now) {
		w.slowYield()
	}
	if pred() {
		return
	}
	t.state = tBlocked
	t.pred = pred
	t.why = why
	w.dispatch(t)
	t.why = ""
}

func (w *World) abandon(t *Task) {
	fmt.Fprintln(os.Stderr, "simrt: abandoning a task that does not unwind")
	w.drop(t)
}

// drop ends a dead task without unwinding its goroutine.
func (w *World) drop(t *Task) {
	t.state = tDone
	w.live--
	delete(t.Node.tasks, t.ID)
	for i, x := range w.tasks {
		if x == t {
			w.tasks = append(w.tasks[:i:i], w.tasks[i+1:]...)
			break
		}
	}
	if t.exitTo != nil {
		w.cur = t.exitTo
		t.exitTo.resume <- struct{}{}
	} else {
		w.root <- struct{}{}
	}
	select {}
}

// Block exposes block to harness code.
func Block(why string, pred func() bool) { block(why, pred) }

// BlockUntil parks until pred holds or the deadline (absolute ns) passes; it
// reports whether pred held.
func BlockUntil(why string, deadline int64, pred func() bool) bool {
	w := W
	if w.cur.dead {
		block(why, pred)
		return false
	}
	if deadline >= 0 {
		if !(pred() || deadline <= w.now) {
			tm := w.addTimer(deadline, nil)
			block(why, func() bool { return pred() || w.now >= deadline })
			w.delTimer(tm)
		} else {
			block(why, func() bool { return true })
		}
		return pred()
	}
	block(why, pred)
	return true
}

func dead() bool {
	w := W
	return w != nil && w.cur != nil && w.cur.dead
}

// inSim reports whether the caller runs as a live simulated task.
func inSim() bool { return W != nil && W.cur != nil }

// Cur returns the current task (nil outside a simulation).
func Cur() *Task {
	if W == nil {
		return nil
	}
	return W.cur
}

// CurNode returns the node of the current task.
func CurNode() *Node {
	if W == nil || W.cur == nil {
		return nil
	}
	return W.cur.Node
}

// Go starts f as a task of the current node.
func Go(f func()) {
	if W == nil || W.cur == nil {
		go f()
		return
	}
	if W.cur.dead {
		return
	}
	GoNode(W.cur.Node, "go", f)
	Y()
}

// GoNode starts f as a task of node n.
func GoNode(n *Node, name string, f func()) *Task {
	if n.Dead {
		return nil
	}
	return W.newTask(n, name, f)
}

// Join waits for t to finish.
func Join(t *Task) {
	if t == nil {
		return
	}
	block("join "+t.Name, func() bool { return t.state == tDone })
}

// Done reports whether t has finished.
func (t *Task) Done() bool { return t == nil || t.state == tDone }

// Alive is the number of live tasks of a node.
func (n *Node) Alive() int { return len(n.tasks) }

// TaskNames describes live tasks.
func (n *Node) TaskNames() string {
	var ids []int
	for id := range n.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	s := ""
	for _, id := range ids {
		s += fmt.Sprintf("t%d(%s) ", id, n.tasks[id].why)
	}
	return s
}

// ExitNode terminates node n from within one of its own tasks.
func exitNode(code int, why string) {
	w := W
	t := w.cur
	if t.dead {
		runtime.Goexit()
	}
	n := t.Node
	n.Exited = true
	n.ExitCode = code
	n.DieFatal = why
	w.Event("node %s exit %d %s", n.Name, code, why)
	t.dead = true
	w.KillNode(n)
	t.dead = true
	runtime.Goexit()
}

// ---- timers ----

type simTimer struct {
	when int64
	seq  int64
	f    func()
	idx  int
}
type timerHeap []*simTimer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) { t := x.(*simTimer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

func (w *World) addTimer(when int64, f func()) *simTimer {
	w.tseq++
	t := &simTimer{when: when, seq: w.tseq, f: f}
	heap.Push(&w.timers, t)
	return t
}

func (w *World) delTimer(t *simTimer) bool {
	if t == nil || t.idx < 0 {
		return false
	}
	heap.Remove(&w.timers, t.idx)
	t.idx = -1
	return true
}

func (w *World) runTimers() {
	for len(w.timers) > 0 && w.timers[0].when <= w.now {
		t := heap.Pop(&w.timers).(*simTimer)
		if t.f != nil {
			t.f()
		}
	}
}

// At schedules a non-blocking callback.
func (w *World) At(when int64, f func()) { w.addTimer(when, f) }

var stackArgs = regexp.MustCompile(`\((0x|\{|\.\.\.)[^\n]*\)$`)

// cleanStack drops what differs between identical executions (goroutine
// numbers, addresses) and the frames of the simulator from a stack trace.
func cleanStack(s string) string {
	var out []string
	ls := strings.Split(s, "\n")
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		if l == "" || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "runtime/debug.Stack") || strings.HasPrefix(l, "verif.sim/simrt.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "created by ") {
			continue
		}
		fn := stackArgs.ReplaceAllString(l, "")
		if i+1 < len(ls) && strings.HasPrefix(ls[i+1], "\t") {
			at := strings.TrimSpace(ls[i+1])
			if k := strings.Index(at, " +0x"); k > 0 {
				at = at[:k]
			}
			if k := strings.LastIndex(at, "/"); k >= 0 {
				at = at[k+1:]
			}
			fn += " " + at
		}
		out = append(out, fn)
	}
	return strings.Join(out, "\n")
}
