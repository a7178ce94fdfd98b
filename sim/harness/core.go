// Command harness searches seeded simulated executions of coniks-go for
// violations of the properties in /verif/properties.jsonl.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"

	"verif.sim/simrt"
)

// Op is one generated step (workload or fault). What the fields mean depends
// on the scenario; every field is part of the replay file.
type Op struct {
	K string   `json:"k"`
	W int      `json:"w,omitempty"`
	T int64    `json:"t,omitempty"`
	N []int64  `json:"n,omitempty"`
	S []string `json:"s,omitempty"`
}

func (o Op) n(i int) int64 {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}
func (o Op) s(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

// Plan is one complete simulated execution.
type Plan struct {
	Prop  string           `json:"property"`
	Scen  string           `json:"scenario"`
	Seed  int64            `json:"seed"` // VERIF_SEED
	Run   int              `json:"run"`
	P     map[string]int64 `json:"params"`
	Ops   []Op             `json:"ops"`
	Sched simrt.SchedCfg   `json:"sched"`
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := new(Plan)
	json.Unmarshal(b, q)
	if q.P == nil {
		q.P = map[string]int64{}
	}
	return q
}

// Violation is a broken property.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Result of one execution.
type Result struct {
	Viol       []Violation      `json:"violations,omitempty"`
	Hash       uint64           `json:"hash"`
	Ilv        uint64           `json:"ilv"`
	Status     string           `json:"status,omitempty"`
	Detail     string           `json:"detail,omitempty"`
	Err        string           `json:"err,omitempty"` // harness trouble
	Nontrivial bool             `json:"nontrivial"`
	SimNs      int64            `json:"sim_ns"`
	Yields     int64            `json:"yields"`
	Switches   int64            `json:"switches"`
	Faults     map[string]int64 `json:"faults,omitempty"`
	Probes     map[string]int64 `json:"probes,omitempty"`
	Note       string           `json:"note,omitempty"`
	RecPre     [][3]int64       `json:"-"`
	RecCh      map[string]int64 `json:"-"`
}

// Run is the context of an execution in progress.
type Run struct {
	*Plan
	w     *simrt.World
	h     *simrt.Node
	res   *Result
	seen  map[string]string // random values of the directories of this run
	hang  func(status, detail string)
	extra func() // evaluated after the world ended
}

// Scenario is a workload with its oracles.
type Scenario struct {
	Name string
	Gen  func(g *Gen)
	Exec func(r *Run)
	Lim  simrt.Limits
	// Hang lists the properties a wedged world (deadlock, time or step limit)
	// violates; for the others such a run is inconclusive.
	Hang string
}

// Gen is the generation context.
type Gen struct {
	*rand.Rand
	*Plan
	Tier string
}

func (g *Gen) chance(p float64) bool { return g.Float64() < p }
func (g *Gen) pick(ss ...string) string {
	return ss[g.Intn(len(ss))]
}
func (g *Gen) add(o Op) { g.Ops = append(g.Ops, o) }

// Fail records a violation of every property in the comma separated list.
func (r *Run) Fail(props, class, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 1500 {
		msg = msg[:1500] + "..."
	}
	for _, p := range strings.Split(props, ",") {
		dup := false
		for _, v := range r.res.Viol {
			if v.Prop == p && v.Class == class {
				dup = true
			}
		}
		if dup {
			continue
		}
		r.res.Viol = append(r.res.Viol, Violation{p, class, msg})
	}
	if r.w != nil {
		r.w.Event("VIOLATION %s %s %s", props, class, msg)
	}
}

func (r *Run) p(name string) int64 { return r.P[name] }

// Go starts a harness task.
func (r *Run) Go(name string, f func()) *simrt.Task { return simrt.GoNode(r.h, name, f) }

// sleepUntil parks the task until absolute simulated time ns.
func sleepUntil(ns int64) {
	if d := ns - simrt.W.NowNs(); d > 0 {
		simrt.BlockUntil("harness sleep", ns, func() bool { return false })
	}
}
func sleepNs(d int64) { sleepUntil(simrt.W.NowNs() + d) }

const ms = int64(1e6)
const sec = int64(1e9)

var scenarios = map[string]*Scenario{}

type weighted struct {
	scen   string
	weight int
}

// propScens maps each property to the scenarios that exercise it.
var propScens = map[string][]weighted{}

func register(s *Scenario, props ...string) {
	scenarios[s.Name] = s
	for _, p := range props {
		w := 1
		if i := strings.IndexByte(p, '*'); i > 0 {
			fmt.Sscanf(p[i+1:], "%d", &w)
			p = p[:i]
		}
		propScens[p] = append(propScens[p], weighted{s.Name, w})
	}
}

func mix(parts ...interface{}) int64 {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	return int64(h.Sum64() &^ (1 << 63))
}

// generate makes plan number run of a property.
func generate(prop string, seed int64, run int, tier string) *Plan {
	ws := propScens[prop]
	tot := 0
	for _, w := range ws {
		tot += w.weight
	}
	rng := rand.New(rand.NewSource(mix(seed, prop, run)))
	k := rng.Intn(tot)
	scen := ""
	for _, w := range ws {
		if k < w.weight {
			scen = w.scen
			break
		}
		k -= w.weight
	}
	p := &Plan{Prop: prop, Scen: scen, Seed: seed, Run: run, P: map[string]int64{}}
	p.Sched = genSched(rng)
	g := &Gen{Rand: rng, Plan: p, Tier: tier}
	scenarios[scen].Gen(g)
	return p
}

func genSched(rng *rand.Rand) simrt.SchedCfg {
	s := simrt.SchedCfg{Seed: rng.Int63()}
	switch rng.Intn(10) {
	case 0:
		s.Policy = "fifo"
	case 1, 2:
		s.Policy = "pct"
		s.Changes = 1 + rng.Intn(6)
		s.Gap = []int{1000, 5000, 20000, 100000}[rng.Intn(4)]
	default:
		s.Policy = "random"
		s.Gap = []int{3, 10, 30, 100, 400, 2000}[rng.Intn(6)]
	}
	s.StepNs = []int64{100, 500, 2000, 10000, 20000}[rng.Intn(5)]
	if rng.Intn(3) == 0 {
		s.StallPct = []int{1, 5, 20}[rng.Intn(3)]
	}
	return s
}

// execute runs a plan once.
func execute(p *Plan, verbose func(string)) (res *Result) {
	res = &Result{}
	sc := scenarios[p.Scen]
	if sc == nil {
		res.Err = "unknown scenario " + p.Scen
		return
	}
	lim := sc.Lim
	if lim.MaxSimTime == 0 {
		lim.MaxSimTime = 3600 * sec
	}
	w := simrt.NewWorld(p.Sched, lim)
	w.Verbose = verbose
	r := &Run{Plan: p, w: w, res: res}
	r.hang = func(status, detail string) {
		if sc.Hang != "" {
			r.Fail(sc.Hang, "wedged", "%s after %.1f simulated seconds: %s", status, float64(w.NowNs())/1e9, detail)
		}
	}
	resetGlobals()
	func() {
		defer func() {
			if x := recover(); x != nil {
				res.Err = fmt.Sprintf("harness panic: %v\n%s", x, debug.Stack())
			}
		}()
		w.Run(func(h *simrt.Node) {
			r.h = h
			sc.Exec(r)
		})
	}()
	if r.h != nil && r.h.Panic != "" {
		res.Err = "harness panic: " + r.h.Panic + "\n" + r.h.Stack
	}
	res.Status, res.Detail = w.Status, w.Detail
	if res.Err == "" && w.Status != "" {
		r.hang(w.Status, w.Detail)
	}
	if r.extra != nil && res.Err == "" && w.Status == "" {
		r.extra()
	}
	res.Hash = w.Hash()
	for _, v := range res.Viol {
		res.Hash += uint64(mix(v.Prop, v.Class)) // the messages are derived, and may name any of several culprits
	}
	res.Ilv = w.Interleave()
	if w.Switches() == 0 {
		res.Ilv = res.Hash // one task: the sequence of its events counts
	}
	res.SimNs = w.NowNs()
	res.Yields = w.Yields()
	res.Switches = w.Switches()
	res.Faults = w.Faults
	res.Probes = w.Probes
	res.RecPre = w.RecPre
	res.RecCh = w.RecCh
	return
}

// has returns the violation of the plan's property with the given class
// (any class if empty).
func (res *Result) has(prop, class string) *Violation {
	for i := range res.Viol {
		if res.Viol[i].Prop == prop && (class == "" || res.Viol[i].Class == class) {
			return &res.Viol[i]
		}
	}
	return nil
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
