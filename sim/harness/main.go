package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|one|list ...")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "worker":
		cmdWorker(os.Args[2:])
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "one":
		os.Exit(cmdOne(os.Args[2:]))
	case "hashes":
		cmdHashes(os.Args[2:])
	case "pin":
		cmdPin(os.Args[2])
	case "minimise":
		cmdMinimise(os.Args[2:])
	case "grind":
		grind(200000)
	case "list":
		var ps []string
		for p := range propScens {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			fmt.Println(p, propScens[p])
		}
	default:
		usage()
	}
}

// msg is a worker's report line.
type msg struct {
	Kind  string           `json:"kind"` // "run", "viol", "stat", "err"
	Run   int              `json:"run,omitempty"`
	Plan  *Plan            `json:"plan,omitempty"`
	Res   *Result          `json:"res,omitempty"`
	Runs  int64            `json:"runs,omitempty"`
	Non   int64            `json:"non,omitempty"`
	Incon int64            `json:"incon,omitempty"`
	SimNs int64            `json:"sim,omitempty"`
	Yld   int64            `json:"yields,omitempty"`
	Swi   int64            `json:"switches,omitempty"`
	Flt   map[string]int64 `json:"faults,omitempty"`
	Prb   map[string]int64 `json:"probes,omitempty"`
	Scen  map[string]int64 `json:"scen,omitempty"`
	Ilv   []uint64         `json:"ilv,omitempty"`
	Hash  []runHash        `json:"hashes,omitempty"`
	Text  string           `json:"text,omitempty"`
	Samp  []string         `json:"samples,omitempty"`
}
type runHash struct {
	Run  int    `json:"run"`
	Hash uint64 `json:"hash"`
}

var watchAt int64
var watchMu sync.Mutex
var watchPlan string

func watchdog(limit time.Duration) {
	go func() {
		for {
			time.Sleep(time.Second)
			watchMu.Lock()
			at, pl := watchAt, watchPlan
			watchMu.Unlock()
			if at != 0 && time.Now().UnixNano()-at > int64(limit) {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "harness: a run does not finish in real time: %s\n%s\n", pl, buf[:n])
				os.Exit(4)
			}
		}
	}()
}
func watch(p *Plan) {
	watchMu.Lock()
	watchAt = time.Now().UnixNano()
	watchPlan = fmt.Sprintf("property=%s seed=%d run=%d", p.Prop, p.Seed, p.Run)
	watchMu.Unlock()
}
func unwatch() { watchMu.Lock(); watchAt = 0; watchMu.Unlock() }

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	start := fs.Int("start", 0, "")
	stride := fs.Int("stride", 1, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	max := fs.Int("max", 1<<30, "")
	tier := fs.String("tier", "quick", "")
	fs.Parse(args)
	watchdog(120 * time.Second)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	m := msg{Kind: "stat", Flt: map[string]int64{}, Prb: map[string]int64{}, Scen: map[string]int64{}}
	ilv := map[uint64]bool{}
	end := time.Now().Add(*budget)
	n, nerr := 0, 0
	for i := *start; i < *max && time.Now().Before(end); i += *stride {
		p := generate(*prop, *seed, i, *tier)
		enc.Encode(msg{Kind: "run", Run: i})
		out.Flush()
		watch(p)
		res := execute(p, nil)
		unwatch()
		if res.Err != "" {
			enc.Encode(msg{Kind: "err", Plan: p, Text: res.Err})
			out.Flush()
			if nerr++; nerr >= 3 {
				os.Exit(0)
			}
			continue
		}
		if v := res.has(*prop, ""); v != nil {
			enc.Encode(msg{Kind: "viol", Plan: p, Res: res})
			out.Flush()
			n++
			if n >= 3 {
				break
			}
		}
		m.Runs++
		if res.Status != "" {
			m.Incon++
		}
		if res.Nontrivial {
			m.Non++
			if !ilv[res.Ilv] {
				ilv[res.Ilv] = true
				m.Ilv = append(m.Ilv, res.Ilv)
			}
		}
		m.SimNs += res.SimNs
		m.Yld += res.Yields
		m.Swi += res.Switches
		m.Scen[p.Scen]++
		for k, v := range res.Faults {
			m.Flt[k] += v
		}
		for k, v := range res.Probes {
			m.Prb[k] += v
		}
		if m.Runs <= 2 || m.Runs%97 == 0 {
			m.Hash = append(m.Hash, runHash{i, res.Hash})
		}
		if m.Runs == 1 {
			b, _ := json.Marshal(p)
			s := string(b)
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			m.Samp = append(m.Samp, s+" => "+res.Note)
		}
	}
	enc.Encode(m)
	out.Flush()
}

// cmdHashes re-executes runs and prints their digests.
func cmdHashes(args []string) {
	prop, tier := args[0], args[2]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	watchdog(120 * time.Second)
	for _, a := range args[3:] {
		run, _ := strconv.Atoi(a)
		p := generate(prop, seed, run, tier)
		watch(p)
		res := execute(p, nil)
		unwatch()
		fmt.Println(run, res.Hash)
	}
}

// Replay is a replay file.
type Replay struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	Hash      uint64    `json:"hash"`
	Found     string    `json:"found"`
	Note      string    `json:"note"`
	Plan      *Plan     `json:"plan"`
}

func cmdMinimise(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var p Plan
	json.Unmarshal(b, &p)
	d, _ := time.ParseDuration(args[2])
	watchdog(d + 120*time.Second)
	watch(&p)
	q := minimise(&p, args[1], d)
	json.NewEncoder(os.Stdout).Encode(q)
}

func cmdReplay(args []string) int {
	quiet := false
	if len(args) > 1 && args[0] == "-q" {
		quiet = true
		args = args[1:]
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rp.Violation.Class == "process-died" {
		self, _ := os.Executable()
		if _, died := pin(self, rp.Plan); died != "" {
			fmt.Println("violation:", died)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
			return 1
		}
		fmt.Println("no violation of", rp.Property, "on this tree")
		return 0
	}
	var verb func(string)
	if !quiet {
		verb = func(s string) { fmt.Println(s) }
	}
	watchdog(300 * time.Second)
	watch(rp.Plan)
	res := execute(rp.Plan, verb)
	if res.Err != "" {
		fmt.Fprintln(os.Stderr, res.Err)
		return 2
	}
	v := res.has(rp.Property, rp.Violation.Class)
	if v == nil {
		fmt.Println("no violation of", rp.Property, "on this tree")
		return 0
	}
	fmt.Printf("violation: %s [%s] %s\n", v.Prop, v.Class, v.Msg)
	if res.Hash != rp.Hash {
		fmt.Println("note: the execution differs from the recorded one (the code changed)")
	} else {
		fmt.Println("exact replay: execution digest", res.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, args[0])
	return 1
}

func cmdOne(args []string) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	run := fs.Int("run", 0, "")
	tier := fs.String("tier", "quick", "")
	v := fs.Bool("v", false, "")
	pl := fs.Bool("plan", false, "")
	fs.Parse(args)
	p := generate(*prop, *seed, *run, *tier)
	if *pl {
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	}
	var verb func(string)
	if *v {
		verb = func(s string) { fmt.Println(s) }
	}
	t0 := time.Now()
	res := execute(p, verb)
	fmt.Printf("scen=%s status=%q hash=%d ilv=%d yields=%d switches=%d sim=%.3fs real=%v nontrivial=%v\n faults=%v\n probes=%v\n note=%s\n", p.Scen, res.Status, res.Hash, res.Ilv, res.Yields, res.Switches, float64(res.SimNs)/1e9, time.Since(t0), res.Nontrivial, res.Faults, res.Probes, res.Note)
	if res.Err != "" {
		fmt.Println("ERR", res.Err)
	}
	if res.Status != "" {
		fmt.Println(res.Detail)
	}
	for _, v := range res.Viol {
		fmt.Println("VIOL", v.Prop, v.Class, v.Msg)
	}
	return 0
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// known returns the violation classes listed as known findings of a property.
func known(prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "class=") {
			out[strings.TrimPrefix(f[2], "class=")] = strings.Join(f[3:], " ")
		}
	}
	return out
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	budget := fs.Duration("budget", 0, "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	fs.Parse(args)
	if fs.NArg() < 1 {
		usage()
	}
	prop := fs.Arg(0)
	tier := os.Getenv("VERIF_TIER")
	if fs.NArg() > 1 {
		tier = fs.Arg(1)
	}
	if tier == "" {
		tier = "quick"
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	if *budget == 0 {
		*budget = 40 * time.Second
		if tier == "thorough" {
			*budget = 600 * time.Second
		}
	}
	if len(propScens[prop]) == 0 {
		fmt.Fprintln(os.Stderr, "harness: no scenario for", prop)
		return 2
	}
	t0 := time.Now()
	fmt.Printf("check %s tier=%s seed=%d workers=%d budget=%v\n", prop, tier, seed, *workers, *budget)
	self, _ := os.Executable()
	c := &checker{self: self, prop: prop, tier: tier, seed: seed, kn: known(prop), knownSeen: map[string]bool{}, workers: *workers}
	c.reset()
	c.search(*budget, false)
	code := c.conclude(t0, "")
	if code == again {
		// the code under test keeps state between the runs of one process:
		// search again with a process for every run
		c.reset()
		b := *budget
		if b > 120*time.Second {
			b = 120 * time.Second
		}
		c.search(b, true)
		code = c.conclude(t0, "one process per run, because runs in one process influence each other")
	}
	return code
}

const again = -1

// checker is one check of one property.
type checker struct {
	self, prop, tier string
	seed             int64
	workers          int
	kn               map[string]string
	knownSeen        map[string]bool
	viols            []msg
	errs             []string
	died             []int // runs whose process died
	tot              msg
	ilv              map[uint64]bool
}

func (c *checker) reset() {
	c.viols, c.errs, c.died = nil, nil, nil
	c.tot = msg{Flt: map[string]int64{}, Prb: map[string]int64{}, Scen: map[string]int64{}}
	c.ilv = map[uint64]bool{}
}

func (c *checker) isNew(m msg) bool {
	fresh := false
	for _, v := range m.Res.Viol {
		if v.Prop == c.prop {
			if _, ok := c.kn[v.Class]; ok {
				c.knownSeen[v.Class] = true
			} else {
				fresh = true
			}
		}
	}
	return fresh
}

// search runs the workers for the budget, each in one process or with a
// process per run.
func (c *checker) search(budget time.Duration, single bool) {
	type wr struct {
		m    []msg
		err  error
		txt  string
		last int
	}
	resc := make(chan wr, c.workers)
	violc := make(chan msg, 1000)
	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	stopped := false
	end := time.Now().Add(budget)
	one := func(slot int, args ...string) wr {
		cmd := exec.Command(c.self, append([]string{"worker", "-prop", c.prop, "-seed", fmt.Sprint(c.seed), "-tier", c.tier}, args...)...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
		so, _ := cmd.StdoutPipe()
		var eb strings.Builder
		cmd.Stderr = &eb
		out := wr{last: -1}
		mu.Lock()
		if stopped {
			mu.Unlock()
			return out
		}
		err := cmd.Start()
		procs[slot] = cmd
		mu.Unlock()
		if err != nil {
			out.err = err
			return out
		}
		dec := json.NewDecoder(so)
		for {
			var m msg
			if dec.Decode(&m) != nil {
				break
			}
			if m.Kind == "run" {
				out.last = m.Run
				continue
			}
			out.m = append(out.m, m)
			if m.Kind == "viol" {
				violc <- m
			}
		}
		out.err = cmd.Wait()
		mu.Lock()
		if stopped {
			out.err = nil
		}
		mu.Unlock()
		out.txt = eb.String()
		return out
	}
	for i := 0; i < c.workers; i++ {
		i := i
		go func() {
			if !single {
				resc <- one(i, "-start", fmt.Sprint(i), "-stride", fmt.Sprint(c.workers), "-budget", budget.String())
				return
			}
			all := wr{last: -1}
			for r := i; time.Now().Before(end) && all.err == nil; r += c.workers {
				o := one(i, "-start", fmt.Sprint(r), "-max", fmt.Sprint(r+1), "-budget", "10m")
				all.m = append(all.m, o.m...)
				all.err, all.txt, all.last = o.err, o.txt, o.last
			}
			resc <- all
		}()
	}
	done := 0
	var grace <-chan time.Time
	for done < c.workers {
		select {
		case m := <-violc:
			if c.isNew(m) {
				c.viols = append(c.viols, m)
				if grace == nil {
					grace = time.After(1500 * time.Millisecond)
				}
			}
		case <-grace:
			mu.Lock()
			stopped = true
			for _, p := range procs {
				p.Process.Kill()
			}
			mu.Unlock()
		case o := <-resc:
			done++
			if o.err != nil {
				c.errs = append(c.errs, fmt.Sprintf("worker failed in run %d: %v\n%s", o.last, o.err, o.txt))
				if o.last >= 0 {
					c.died = append(c.died, o.last)
				}
			}
			for _, m := range o.m {
				c.count(m)
			}
		}
	}
	for len(violc) > 0 {
		if m := <-violc; c.isNew(m) {
			c.viols = append(c.viols, m)
		}
	}
}

func (c *checker) count(m msg) {
	tot := &c.tot
	switch m.Kind {
	case "err":
		c.errs = append(c.errs, fmt.Sprintf("run %d of %s: %s", m.Plan.Run, m.Plan.Scen, m.Text))
	case "stat":
		tot.Runs += m.Runs
		tot.Non += m.Non
		tot.Incon += m.Incon
		tot.SimNs += m.SimNs
		tot.Yld += m.Yld
		tot.Swi += m.Swi
		for k, v := range m.Flt {
			tot.Flt[k] += v
		}
		for k, v := range m.Prb {
			tot.Prb[k] += v
		}
		for k, v := range m.Scen {
			tot.Scen[k] += v
		}
		for _, x := range m.Ilv {
			c.ilv[x] = true
		}
		tot.Hash = append(tot.Hash, m.Hash...)
		if len(tot.Samp) < 3 {
			tot.Samp = append(tot.Samp, m.Samp...)
		}
	}
}

func (c *checker) conclude(t0 time.Time, mode string) int {
	first := mode == ""
	for k := range c.knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.prop, c.kn[k], k)
	}
	// a process that died is a violation of the properties that rule that out
	for _, run := range c.died {
		if len(c.viols) >= 3 {
			break
		}
		p := generate(c.prop, c.seed, run, c.tier)
		if res, died := pin(c.self, p); died != "" && hangs(p.Scen, c.prop) {
			c.viols = append(c.viols, msg{Kind: "viol", Plan: p, Res: &Result{Viol: []Violation{{Prop: c.prop, Class: "process-died", Msg: died}}}})
		} else if died == "" && res != nil && res.Err == "" {
			c.errs = append(c.errs, fmt.Sprintf("run %d does not fail on its own", run))
		}
	}
	note := mode
	if len(c.viols) > 0 {
		code := c.report()
		if code == 1 {
			writeEvidence(c.prop, c.tier, c.seed, t0, c.workers, &c.tot, c.ilv, len(c.viols), 0, mode)
			return 1
		}
		if first {
			fmt.Println("note: no violation found stands on its own in a fresh process; searching with a process per run")
			return again
		}
		note += "; unconfirmed violations were dropped"
	}
	if len(c.errs) > 0 {
		for _, e := range c.errs {
			fmt.Fprintln(os.Stderr, "harness error:", e)
		}
		return 2
	}
	// determinism: a sample of runs again, in one fresh process, other order
	tot := &c.tot
	sort.Slice(tot.Hash, func(a, b int) bool { return tot.Hash[a].Run > tot.Hash[b].Run })
	sample := tot.Hash
	if len(sample) > 24 {
		var s []runHash
		for i := 0; i < 24; i++ {
			s = append(s, sample[i*len(sample)/24])
		}
		sample = s
	}
	checked, bad := 0, ""
	if first {
		checked, bad = determinism(c.self, c.prop, c.seed, c.tier, sample)
		if bad != "" {
			fmt.Println("note: a run repeated in another process differs:", bad)
			return again
		}
	} else {
		var wg sync.WaitGroup
		var mu sync.Mutex
		for _, s := range sample {
			wg.Add(1)
			go func() {
				defer wg.Done()
				n, b := determinism(c.self, c.prop, c.seed, c.tier, []runHash{s})
				mu.Lock()
				checked += n
				if b != "" {
					bad = b
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
		if bad != "" {
			// nondeterminism inside the code under test that no seam controls
			fmt.Println("warning: nondeterminism:", bad)
			note += "; not every run is repeatable: " + bad
		}
	}
	if tot.Runs == 0 || tot.Non == 0 {
		fmt.Fprintf(os.Stderr, "harness error: nothing explored (runs=%d, non-trivial=%d, inconclusive=%d)\n", tot.Runs, tot.Non, tot.Incon)
		return 2
	}
	writeEvidence(c.prop, c.tier, c.seed, t0, c.workers, tot, c.ilv, 0, checked, note)
	fmt.Printf("held: %d runs (%d non-trivial, %d distinct interleavings, %d inconclusive), %.0f simulated hours, faults %v, %d runs re-executed identically, %.1fs\n",
		tot.Runs, tot.Non, len(c.ilv), tot.Incon, float64(tot.SimNs)/3.6e12, tot.Flt, checked, time.Since(t0).Seconds())
	return 0
}

// hangs tells whether a scenario's process must not die or wedge under prop.
func hangs(scen, prop string) bool {
	return scenarios[scen] != nil && strings.Contains(","+scenarios[scen].Hang+",", ","+prop+",")
}

// cmdPin executes one plan and prints its result.
func cmdPin(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := new(Plan)
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	watchdog(120 * time.Second)
	watch(p)
	json.NewEncoder(os.Stdout).Encode(execute(p, nil))
}

// pin executes a plan in a fresh process. died tells how the process ended if
// it did not survive the run.
func pin(self string, p *Plan) (res *Result, died string) {
	f, err := os.CreateTemp("", "plan")
	if err != nil {
		return nil, ""
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(p)
	f.Write(b)
	f.Close()
	c := exec.Command(self, "pin", f.Name())
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
	var eb strings.Builder
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil {
		t := firstLines(strings.TrimSpace(eb.String()), 6)
		if len(t) > 700 {
			t = t[:700]
		}
		return nil, fmt.Sprintf("the process of the simulation died (%v): %s", err, t)
	}
	res = new(Result)
	if json.Unmarshal(out, res) != nil {
		return nil, ""
	}
	return res, ""
}

func determinism(self, prop string, seed int64, tier string, sample []runHash) (int, string) {
	if len(sample) == 0 {
		return 0, ""
	}
	args := []string{"hashes", prop, fmt.Sprint(seed), tier}
	want := map[int]uint64{}
	for _, s := range sample {
		args = append(args, fmt.Sprint(s.Run))
		want[s.Run] = s.Hash
	}
	c := exec.Command(self, args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	b, err := c.Output()
	if err != nil {
		return 0, err.Error()
	}
	n := 0
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var run int
		var h uint64
		fmt.Sscan(l, &run, &h)
		if want[run] != h {
			return n, fmt.Sprintf("run %d: digest %d, then %d", run, want[run], h)
		}
		n++
	}
	return n, ""
}

// report confirms, minimises and reports one of the violations found.
func (c *checker) report() int {
	// smallest plan first
	sort.SliceStable(c.viols, func(a, b int) bool { return len(c.viols[a].Plan.Ops) < len(c.viols[b].Plan.Ops) })
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0755)
	for i, m := range c.viols {
		if i >= 8 {
			break
		}
		var v *Violation
		for k := range m.Res.Viol {
			if m.Res.Viol[k].Prop == c.prop {
				if _, ok := c.kn[m.Res.Viol[k].Class]; !ok {
					v = &m.Res.Viol[k]
					break
				}
			}
		}
		if v == nil {
			continue
		}
		fmt.Printf("run %d of scenario %s (seed %d) violates %s: [%s] %s\n", m.Plan.Run, m.Plan.Scen, c.seed, c.prop, v.Class, v.Msg)
		file := filepath.Join(dir, fmt.Sprintf("%s-%s-s%d-r%d.json", c.prop, v.Class, c.seed, m.Plan.Run))
		emit := func(q *Plan, mv *Violation, hash uint64, note string) int {
			rp := Replay{Property: c.prop, Violation: *mv, Hash: hash, Plan: q, Note: fmt.Sprintf("%s from %d to %d operations; %d preemptions; replay with: /verif/check.sh replay %s", note, len(m.Plan.Ops), len(q.Ops), len(q.Sched.Pre), file),
				Found: fmt.Sprintf("tier=%s VERIF_SEED=%d run=%d scenario=%s", c.tier, c.seed, m.Plan.Run, q.Scen)}
			jb, _ := json.MarshalIndent(rp, "", " ")
			os.WriteFile(file, jb, 0644)
			fmt.Printf("%s to %d operations, %d preemptions: [%s] %s\n", note, len(q.Ops), len(q.Sched.Pre), mv.Class, mv.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, file)
			return 1
		}
		if v.Class == "process-died" {
			return emit(m.Plan, v, 0, "not minimised")
		}
		// it must stand on its own, in a fresh process
		res, _ := pin(c.self, m.Plan)
		if res == nil || res.Err != "" || res.has(c.prop, v.Class) == nil {
			fmt.Println("note: it does not show in a fresh process")
			continue
		}
		raw := filepath.Join(dir, fmt.Sprintf("%s-%s-s%d-r%d.raw.json", c.prop, v.Class, c.seed, m.Plan.Run))
		b, _ := json.Marshal(m.Plan)
		os.WriteFile(raw, b, 0644)
		// minimise in a child so that trouble there cannot lose the report
		q := m.Plan
		note := "minimised"
		mc := exec.Command(c.self, "minimise", raw, v.Class, "30s")
		if ob, err := mc.Output(); err == nil {
			var mp Plan
			if json.Unmarshal(ob, &mp) == nil && mp.Prop == c.prop {
				q = &mp
			}
		} else {
			note = "not minimised: " + err.Error()
		}
		os.Remove(raw)
		// executions in fresh processes must agree
		var loose *Violation
		for attempt := 0; attempt < 2; attempt++ {
			a, _ := pin(c.self, q)
			b, _ := pin(c.self, q)
			if a != nil && b != nil && a.Err == "" && b.Err == "" {
				if mv := a.has(c.prop, v.Class); mv != nil && b.has(c.prop, v.Class) != nil {
					if a.Hash == b.Hash {
						return emit(q, mv, a.Hash, note)
					}
					loose = mv
				}
			}
			q = m.Plan // the minimised one did not reproduce; use the original
			note = "not minimised,"
		}
		if loose != nil {
			return emit(m.Plan, loose, 0, "repeatable but not identical (nondeterminism in the code under test), not minimised,")
		}
	}
	return again
}
