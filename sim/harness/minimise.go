package main

import (
	"sort"
	"time"

	"verif.sim/simrt"
)

// minimise shrinks a failing plan: first its operations and faults, then,
// after switching to an explicit schedule, its preemptions and choices.
func minimise(p *Plan, class string, budget time.Duration) *Plan {
	end := time.Now().Add(budget)
	left := func() bool { return time.Now().Before(end) }
	fails := func(q *Plan) bool {
		res := execute(q, nil)
		return res.Err == "" && res.has(q.Prop, class) != nil
	}
	best := p.clone()
	try := func(ops []Op) bool {
		for k := int64(0); k < 3; k++ {
			q := best.clone()
			q.Ops = append([]Op(nil), ops...)
			q.Sched.Seed += k
			if fails(q) {
				best = q
				return true
			}
			if !left() {
				return false
			}
		}
		return false
	}
	// a plain schedule is the easiest to read
	for _, pol := range []simrt.SchedCfg{{Policy: "fifo", StepNs: 100}} {
		q := best.clone()
		pol.Seed = best.Sched.Seed
		q.Sched = pol
		if fails(q) {
			best = q
		}
	}
	// ops: ddmin
	for n := 2; len(best.Ops) > 0 && left(); {
		size := (len(best.Ops) + n - 1) / n
		if size < 1 {
			size = 1
		}
		ok := false
		for i := 0; i < len(best.Ops) && left(); i += size {
			j := i + size
			if j > len(best.Ops) {
				j = len(best.Ops)
			}
			ops := append(append([]Op(nil), best.Ops[:i]...), best.Ops[j:]...)
			if try(ops) {
				ok = true
				i -= size
			}
		}
		if !ok {
			if size == 1 {
				break
			}
			n *= 2
		}
	}
	// explicit schedule
	res := execute(best.clone(), nil)
	tr := best.clone()
	tr.Sched = simrt.SchedCfg{Seed: best.Sched.Seed, Policy: "trace", StepNs: best.Sched.StepNs, Pre: res.RecPre, Ch: res.RecCh}
	if !fails(tr) {
		return best
	}
	best = tr
	// choices: drop by kind-sorted chunks
	keys := func(m map[string]int64) []string { return sortedKeys(m) }
	for n := 1; len(best.Sched.Ch) > 0 && left(); n *= 2 {
		ks := keys(best.Sched.Ch)
		if n > len(ks) {
			break
		}
		size := (len(ks) + n - 1) / n
		for i := 0; i < len(ks) && left(); i += size {
			q := best.clone()
			for j := i; j < i+size && j < len(ks); j++ {
				delete(q.Sched.Ch, ks[j])
			}
			if len(q.Sched.Ch) < len(best.Sched.Ch) && fails(q) {
				best = q
			}
		}
	}
	for n := 1; len(best.Sched.Pre) > 0 && left(); n *= 2 {
		l := len(best.Sched.Pre)
		if n > l {
			break
		}
		size := (l + n - 1) / n
		for i := 0; i < len(best.Sched.Pre) && left(); {
			j := i + size
			if j > len(best.Sched.Pre) {
				j = len(best.Sched.Pre)
			}
			q := best.clone()
			q.Sched.Pre = append(append([][3]int64(nil), best.Sched.Pre[:i]...), best.Sched.Pre[j:]...)
			if fails(q) {
				best = q
			} else {
				i = j
			}
		}
	}
	sort.SliceStable(best.Sched.Pre, func(a, b int) bool { return best.Sched.Pre[a][0] < best.Sched.Pre[b][0] })
	return best
}
