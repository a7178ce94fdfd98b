package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"syscall"

	"github.com/BurntSushi/toml"
	"verif.sim/simrt"
)

// resetGlobals restores process-wide state between runs.

func keysFromFiles(sk, vk []byte) *keyset {
	k := &keyset{sign: append([]byte(nil), sk...), vrf: append([]byte(nil), vk...)}
	k.pub = append([]byte(nil), sk[32:]...)
	k.vpub = vrfPublic(vk)
	return k
}

// ---- policy model ----

// polEvent is a change of what a reload would find, or a reload request.
type polEvent struct {
	t      int64
	signal bool
	res    []int64 // possible outcomes: a deadline, or -1 for "changes nothing"
	cfg    int64   // deadline in the configuration file, whatever the keys; -1 if unusable
}

// loadable predicts the outcome of loading the server's configuration now.
// The second result is the deadline of the configuration file alone: a load
// during which the key files change may pair it with the keys of another time.
func (e *srvEnv) loadable() (res []int64, cfg int64) {
	none := []int64{-1}
	cfg = -1
	raw := e.fs.Peek(e.cfgPath())
	if raw == nil {
		return none, cfg
	}
	var c struct {
		Policies *struct {
			EpochDeadline *uint64 `toml:"epoch_deadline"`
			VRFKeyPath    *string `toml:"vrf_key_path"`
			SignKeyPath   *string `toml:"sign_key_path"`
		} `toml:"policies"`
		LoadedHistoryLength *uint64 `toml:"loaded_history_length"`
		InitSTRPath         *string `toml:"init_str_path"`
		Addresses           []struct {
			Address *string `toml:"address"`
			Cert    string  `toml:"cert"`
			Key     string  `toml:"key"`
			Allow   bool    `toml:"allow_registration"`
		} `toml:"addresses"`
		Logger *struct {
			Env  *string `toml:"env"`
			Path string  `toml:"path"`
		} `toml:"logger"`
	}
	if _, err := toml.Decode(string(raw), &c); err != nil || c.Policies == nil {
		return none, cfg
	}
	p := c.Policies
	if p.EpochDeadline == nil || *p.EpochDeadline == 0 || *p.EpochDeadline > math.MaxInt64/1000000000 || p.VRFKeyPath == nil || p.SignKeyPath == nil {
		return none, cfg
	}
	d := int64(*p.EpochDeadline)
	cfg = d
	abs := func(f string) string {
		if strings.HasPrefix(f, "/") {
			return f
		}
		return e.dir + "/" + f
	}
	vk, sk := e.fs.Peek(abs(*p.VRFKeyPath)), e.fs.Peek(abs(*p.SignKeyPath))
	if len(vk) != 64 || len(sk) != 64 {
		return none, cfg
	}
	whole := c.Logger != nil && c.Logger.Env != nil && len(c.Addresses) > 0 && c.LoadedHistoryLength != nil && c.InitSTRPath != nil
	for _, a := range c.Addresses {
		whole = whole && a.Address != nil
	}
	if !whole || string(vk) != string(e.ks.vrf) || string(sk) != string(e.ks.sign) {
		return []int64{d, -1}, cfg // refusing it is as good as taking the policies
	}
	return []int64{d}, cfg
}

// policies checks the deadlines announced by the roots of an era.
func (e *srvEnv) policies(er *era) {
	r := e.r
	j := er.j
	n := j.maxLatest
	if n < 0 {
		return
	}
	lo, hi, _, _ := j.ticks(j.done, n)
	settle := 300 * ms
	if r.w.Faults["stall"] > 0 {
		settle = 200 * sec
	}
	// outcomes of each reload request
	type load struct {
		a, b int64
		res  map[int64]bool
	}
	var loads []load
	for i, ev := range er.pols {
		if !ev.signal {
			continue
		}
		l := load{ev.t, ev.t + settle, map[int64]bool{}}
		// the state at the signal and all edits until it settles
		before := int64(-1)
		for k := i - 1; k >= 0; k-- {
			if !er.pols[k].signal {
				for _, d := range er.pols[k].res {
					l.res[d] = true
				}
				before = er.pols[k].cfg
				break
			}
		}
		for k := i + 1; k < len(er.pols); k++ {
			if !er.pols[k].signal && er.pols[k].t <= l.b {
				for _, d := range er.pols[k].res {
					l.res[d] = true
				}
				// read in the middle of the edit
				l.res[-1] = true
				for _, d := range []int64{before, er.pols[k].cfg} {
					if d >= 0 {
						l.res[d] = true
					}
				}
			}
		}
		loads = append(loads, l)
	}
	var eps []uint64
	for ep := range j.strs {
		eps = append(eps, ep)
	}
	sort.Slice(eps, func(a, b int) bool { return eps[a] < eps[b] })
	for _, ep := range eps {
		s := j.strs[ep]
		if !s.ok || int64(ep) > n {
			continue
		}
		var A, B int64
		if ep >= 1 {
			A = lo[ep-1]
		}
		B = hi[ep]
		vals := map[uint64]bool{er.initDl: true}
		cand := ""
		for _, l := range loads {
			if ep == 0 || l.a > B {
				continue
			}
			if l.b <= A {
				nv := map[uint64]bool{}
				if l.res[-1] {
					for v := range vals {
						nv[v] = true
					}
				}
				for d := range l.res {
					if d >= 0 {
						nv[uint64(d)] = true
					}
				}
				vals = nv
			} else {
				for d := range l.res {
					if d >= 0 {
						vals[uint64(d)] = true
					}
				}
			}
		}
		for v := range vals {
			cand += fmt.Sprint(" ", v)
		}
		d := s.s.Policies.EpochDeadline
		if !vals[d] {
			r.Fail("C13,C12,C04", "wrong-policy", "the root of epoch %d announces an epoch deadline of %ds; the reloads so far leave only%s (%v)", ep, d, sortWords(cand), s.by)
			return
		}
		if len(loads) > 0 {
			r.w.Probe("policy-checked")
			if r.Prop == "C13" {
				r.res.Nontrivial = true
			}
			if d != er.initDl {
				r.w.Probe("policy-changed")
			}
		}
	}
}

func sortWords(s string) string {
	w := strings.Fields(s)
	sort.Strings(w)
	return " " + strings.Join(w, " ")
}

func (e *srvEnv) polState(er *era) {
	res, cfg := e.loadable()
	if e.fs.Fault != nil {
		res = append([]int64{-1}, res...) // the disk fault still lasts
	}
	er.pols = append(er.pols, polEvent{t: e.r.w.NowNs(), res: res, cfg: cfg})
}

// edit changes the configuration files; kinds other than "good" leave
// something a reload must refuse (or may, see loadable).
func (e *srvEnv) edit(kind string, deadline, at int64) {
	good := e.serverConfig(fmt.Sprint(deadline), "sign.priv", "vrf.priv")
	put := func(s string) { e.fs.Put(e.cfgPath(), []byte(s)) }
	restore := func() {
		e.fs.Put(e.dir+"/sign.priv", e.ks.sign)
		e.fs.Put(e.dir+"/vrf.priv", e.ks.vrf)
	}
	if kind != "good" {
		e.r.w.Fault("config-" + kind)
	}
	switch kind {
	case "good":
		restore()
		put(good)
	case "torn":
		if int(at)%1000 < 1000 {
			good = good[:len(good)*int(at%1000)/1000]
		}
		put(good)
	case "missing":
		e.fs.Delete(e.cfgPath())
	case "empty":
		put("")
	case "garbage":
		b := []byte(good)
		rng := rand.New(rand.NewSource(at))
		for k := 0; k < 1+rng.Intn(4); k++ {
			b[rng.Intn(len(b))] = byte(rng.Intn(256))
		}
		put(string(b))
	case "nopolicies":
		i, k := strings.Index(good, "[policies]"), strings.Index(good, "[[addresses]]")
		put(good[:i] + good[k:])
	case "nologger":
		put(good[:strings.Index(good, "[logger]")])
	case "badaddress":
		put(good + "\n[[addresses]]\n")
	case "zero":
		put(e.serverConfig("0", "sign.priv", "vrf.priv"))
	case "huge":
		put(e.serverConfig([]string{"9223372036854775807", "9223372037", "18446744073709551615", "-1"}[at%4], "sign.priv", "vrf.priv"))
	case "badtype":
		put(e.serverConfig("\"soon\"", "sign.priv", "vrf.priv"))
	case "nosign":
		put(good)
		e.fs.Delete(e.dir + "/sign.priv")
	case "novrf":
		put(good)
		e.fs.Delete(e.dir + "/vrf.priv")
	case "shortsign":
		put(good)
		e.fs.Put(e.dir+"/sign.priv", e.ks.sign[:at%64])
	case "shortvrf":
		put(good)
		e.fs.Put(e.dir+"/vrf.priv", e.ks.vrf[:at%64])
	case "longvrf":
		put(good)
		e.fs.Put(e.dir+"/vrf.priv", append(append([]byte(nil), e.ks.vrf...), 1))
	case "otherkeys":
		o := keysFor(e.r.p("ks") + 1000)
		put(good)
		e.fs.Put(e.dir+"/sign.priv", o.sign)
		e.fs.Put(e.dir+"/vrf.priv", o.vrf)
	default:
		panic(kind)
	}
}

var editKinds = []string{"good", "good", "good", "torn", "torn", "torn", "missing", "empty", "garbage", "nopolicies", "nologger", "badaddress", "zero", "huge", "badtype", "nosign", "novrf", "shortsign", "shortvrf", "longvrf", "otherkeys"}

// ---- generation ----

func genName(g *Gen, i int) string {
	base := fmt.Sprintf("user%d-%06x", i, g.Int63()&0xffffff)
	switch g.Intn(12) {
	case 0:
		return base + "@twitter"
	case 1:
		return "ü\u202eñ☃" + base
	case 2:
		return base + strings.Repeat("x", g.Intn(600))
	case 3:
		return base + "\"\\\n<>&\x00\u2028"
	case 4:
		return string(rune('a' + g.Intn(26)))
	}
	return base
}

func genServer(g *Gen) {
	prop := g.Prop
	P := g.P
	is := func(ps ...string) bool {
		for _, p := range ps {
			if p == prop {
				return true
			}
		}
		return false
	}
	P["ks"] = int64(g.Intn(4))
	D := []int64{1, 1, 2, 3, 5, 10, 30, 60}[g.Intn(8)]
	P["dl"] = D
	switch {
	case is("C24") || g.chance(0.25):
		P["hist"] = int64(1 + g.Intn(8))
	default:
		P["hist"] = 1000
	}
	P["naddr"] = int64(g.Intn(3))
	if is("C10") {
		P["naddr"] = int64(1 + g.Intn(2))
	}
	if g.chance(0.15) || is("C10") && g.chance(0.6) {
		P["mix"] = 1 + g.Int63n(1<<40)
	}
	P["netdelay"] = []int64{100_000, 2 * ms, 2 * ms, 2 * ms, 20 * ms, 100 * ms, 400 * ms}[g.Intn(7)]
	if (is("C12") && g.chance(0.4)) || g.chance(0.05) {
		P["init"] = 1
		D = 60
		P["dl"] = D
	}
	if !is("C11", "C09") && g.chance(0.5) {
		g.Sched.StallPct = 0
	}
	naddr := int(2 + P["naddr"]%3)
	if P["init"] == 1 {
		naddr = 2
		delete(P, "mix")
	} else if g.chance(0.1) || is("C10") && g.chance(0.3) {
		P["api"] = 1
	}
	P["cwd"] = int64(g.Intn(4))
	if P["init"] == 0 && g.chance(0.3) {
		P["tlsdir"] = 1
	}
	if P["mix"] != 0 {
		naddr = len(mixAddrs(P["mix"]))
	}
	epochs := int64(2 + g.Intn(5))
	long := D == 1 && P["hist"] == 1000 && P["init"] != 1 && g.chance(0.06)
	if long {
		epochs = int64(200 + g.Intn(400))
		if g.Sched.StepNs > 500 { // long answers must not run into the deadline for connections
			g.Sched.StepNs = 500
		}
		if P["netdelay"] > 2*ms {
			P["netdelay"] = 2 * ms
		}
	}
	if P["hist"] < 100 {
		epochs = int64(3 + g.Intn(int(3*P["hist"])+3))
		if epochs > 14 {
			epochs = 14
		}
	}
	nc := 1 + g.Intn(5)
	nn := 1 + g.Intn(4)
	if g.chance(0.15) {
		nn = 5 + g.Intn(10)
	}
	var names []string
	for i := 0; i < nn; i++ {
		names = append(names, genName(g, i))
	}
	if g.chance(0.2) && P["init"] != 1 {
		names = append(names, deepGroup(g, P["ks"]+1)...)
	}
	// now and then one name is a variation of another
	if nn > 1 && g.chance(0.2) {
		names[1] = variation(g, names[0])
	}
	dns := D * sec
	at := func() int64 {
		k := g.Int63n(epochs + 1)
		switch g.Intn(4) {
		case 0, 1:
			if k == 0 {
				return g.Int63n(20 * ms)
			}
			return k*dns + g.Int63n(8*ms) - 4*ms + k*ms/2
		case 2:
			if k == 0 {
				return g.Int63n(dns)
			}
			return k*dns + g.Int63n(200*ms) - 100*ms
		}
		return g.Int63n((epochs + 1) * dns)
	}
	nops := 4 + g.Intn(20)
	if g.Tier == "thorough" {
		nops += g.Intn(30)
	}
	regW, lookW, epW, monW, badW := 5, 5, 2, 2, 1
	switch {
	case is("C03", "C24"):
		epW, monW = 5, 5
	case is("C09", "C11"):
		badW = 8
	case is("C10"):
		regW = 8
	case is("C23"):
		regW = 9
	}
	var keyN int64
	addr := func() int64 {
		a := int64(g.Intn(naddr))
		if a == 1 && g.chance(0.5) && !is("C10") {
			a = 0
		}
		return a
	}
	faultP := []float64{0, 0, 0.1, 0.3}[g.Intn(4)]
	clientOp := func(w int, t int64) Op {
		fault, pos := int64(0), int64(0)
		if g.chance(faultP) {
			fault = int64(1 + g.Intn(cfCount-1))
			pos = int64(1 + g.Intn(400))
			if g.chance(0.3) {
				pos = int64(1 + g.Intn(6000))
			}
		}
		pieces, gap := int64(1), int64(0)
		if g.chance(0.1) {
			pieces = int64(2 + g.Intn(5))
			gap = int64(g.Intn(50)) * ms
		}
		pad := int64(0)
		if g.chance(0.05) {
			pad = []int64{8192, 8192, 8191, 8190, 4096, 8193, 9000, 70000}[g.Intn(8)]
		}
		noFin := int64(0)
		if pad == 8192 && g.chance(0.5) {
			noFin = 1
		}
		slow := int64(0)
		if g.chance(0.04) {
			slow = int64(g.Intn(2000)) * ms
		}
		name := names[g.Intn(len(names))]
		if g.chance(0.02) {
			name = ""
		}
		relEp := func() int64 {
			switch g.Intn(6) {
			case 0:
				return 0
			case 1:
				return g.Int63n(epochs + 3)
			case 2:
				if g.chance(0.1) {
					return math.MaxInt64
				}
			}
			return -1 - g.Int63n(P["hist"]%100+3)
		}
		buf := int64(0)
		if g.chance(0.05) {
			buf = []int64{100, 500, 1000, 2000, 5000, 20000}[g.Intn(6)]
		}
		n := []int64{addr(), 0, 0, fault, pos, pieces, gap, pad, noFin, slow, buf}
		k := g.Intn(regW + lookW + epW + monW)
		switch {
		case k < regW:
			keyN++
			key := fmt.Sprintf("key-%d-%s", keyN, name)
			if len(key) > 60 {
				key = key[:60]
			}
			key = strings.ToValidUTF8(key, "?")
			switch g.Intn(20) {
			case 0:
				key = ""
			case 1:
				key = key + strings.Repeat("K", g.Intn(3000))
			}
			return Op{K: "reg", W: w, T: t, S: []string{name, key}, N: n}
		case k < regW+lookW:
			return Op{K: "look", W: w, T: t, S: []string{name}, N: n}
		case k < regW+lookW+epW:
			n[1] = relEp()
			return Op{K: "lookep", W: w, T: t, S: []string{name}, N: n}
		}
		n[1], n[2] = relEp(), relEp()
		if n[1] >= 0 && n[2] >= 0 && n[1] > n[2] && g.chance(0.8) {
			n[1], n[2] = n[2], n[1]
		}
		if n[2] < 0 && g.chance(0.3) {
			n[2] = epochs + 100
		}
		return Op{K: "mon", W: w, T: t, S: []string{name}, N: n}
	}
	for i := 0; i < nops; i++ {
		t := at()
		if g.chance(0.3) { // a burst
			one := clientOp(0, t)
			for c := 0; c < nc; c++ {
				o := one
				if g.chance(0.5) {
					o = clientOp(c, t)
				} else if o.K == "reg" && g.chance(0.8) {
					keyN++
					o.S = []string{o.S[0], fmt.Sprintf("key-%d-b", keyN)}
				}
				o.W = c
				o.T = t + g.Int63n(2*ms)
				g.add(o)
			}
			continue
		}
		if g.Intn(20) < badW {
			g.add(Op{K: "bad", W: 50 + g.Intn(6), T: t, S: []string{badKinds[g.Intn(len(badKinds))]}, N: []int64{addr(), g.Int63n(1 << 30), int64(g.Intn(cfCount)), int64(1 + g.Intn(300))}})
			continue
		}
		g.add(clientOp(g.Intn(nc), t))
	}
	// clients that keep in step ask once per epoch
	if is("C05") || g.chance(0.3) {
		for c := 0; c < nc && (c == 0 || !long); c++ {
			for k := int64(0); k <= epochs; k++ {
				g.add(Op{K: "look", W: c, T: k*dns + dns/2, S: []string{names[g.Intn(len(names))]}, N: []int64{addr()}})
			}
		}
	}
	// a steady observer makes epoch bounds tight
	if is("C12", "C13") || g.chance(0.2) {
		step := dns / int64(2+g.Intn(6))
		for t := step; t < (epochs+1)*dns && t/step < 60; t += step {
			g.add(Op{K: "look", W: 40, T: t + g.Int63n(50*ms), S: []string{names[0]}, N: []int64{addr()}})
		}
	}
	reloadP := 0.15
	if is("C13") {
		reloadP = 1
	} else if is("C12") {
		reloadP = 0.5
	}
	if g.chance(reloadP) {
		for i := 0; i < 1+g.Intn(5); i++ {
			t := at()
			k := editKinds[g.Intn(len(editKinds))]
			nd := []int64{1, 2, 3, 5, 7, 20, 60}[g.Intn(7)]
			g.add(Op{K: "edit", W: -1, T: t, S: []string{"", k}, N: []int64{nd, g.Int63n(1000)}})
			dt := []int64{0, 0, 0, ms / 10, ms, 500 * ms}[g.Intn(6)]
			g.add(Op{K: "usr2", W: -1, T: t + dt})
			if g.chance(0.2) {
				// another edit and reload while the first is in progress
				g.add(Op{K: "on", W: -1, T: t + dt, N: []int64{[]int64{1, 2, 3}[g.Intn(3)], g.Int63n(3), g.Int63n(300)}})
				if g.chance(0.8) {
					g.add(Op{K: "edit", W: -1, T: t + dt, S: []string{"", editKinds[g.Intn(len(editKinds))]}, N: []int64{[]int64{1, 2, 3, 5, 7, 20, 60}[g.Intn(7)], g.Int63n(1000)}})
				}
				g.add(Op{K: "usr2", W: -1, T: t + dt})
			} else if g.chance(0.2) {
				g.add(Op{K: "usr2", W: -1, T: t + dt + g.Int63n(ms)})
			}
			if g.chance(0.2) {
				g.add(Op{K: "fsf", W: -1, T: t - g.Int63n(ms), N: []int64{1, int64(g.Intn(4))}})
				g.add(Op{K: "fsf", W: -1, T: t + dt + g.Int63n(3*ms), N: []int64{0}})
			}
		}
	}
	entP := 0.1
	if is("C23") {
		entP = 1
	}
	if g.chance(entP) {
		for i := 0; i < 1+g.Intn(3); i++ {
			t := at()
			if g.chance(0.7) && len(g.Ops) > 0 { // around an operation
				t = g.Ops[g.Intn(len(g.Ops))].T - g.Int63n(3*ms)
			}
			d := []int64{ms, 10 * ms, 100 * ms, sec, dns}[g.Intn(5)]
			g.add(Op{K: "ent", W: -1, T: t, N: []int64{1, int64(g.Intn(33)), int64(g.Intn(4))}})
			g.add(Op{K: "ent", W: -1, T: t + d, N: []int64{0}})
			if g.chance(0.8) {
				for k := 0; k < 2+g.Intn(4); k++ {
					keyN++
					n := names[g.Intn(len(names))]
					g.add(Op{K: "reg", W: g.Intn(nc), T: t + g.Int63n(d+d/2), S: []string{n, fmt.Sprintf("key-%d-e", keyN)}, N: []int64{0}})
				}
			}
		}
	}
	intP := 0.1
	if is("C11") {
		intP = 0.9
	}
	restart := int64(0)
	if is("C27") || g.chance(0.1) {
		restart = 1
		intP = 0.9
	}
	if g.chance(intP) {
		t := at()
		if g.chance(0.6) && len(g.Ops) > 0 {
			t = g.Ops[g.Intn(len(g.Ops))].T + g.Int63n(6*ms) - ms
		}
		if g.chance(0.05) {
			t = g.Int63n(ms)
		}
		k := "int"
		if g.chance(0.3) && !is("C11") {
			k = "kill"
		}
		if g.chance(0.3) {
			for c := 0; c < 1+g.Intn(5); c++ {
				g.add(clientOp(g.Intn(nc), t+g.Int63n(4*ms)-2*ms))
			}
		}
		if g.chance(0.5) { // answers on their way, to clients that take their time
			for c := 0; c < 1+g.Intn(4); c++ {
				o := clientOp(g.Intn(nc), t-g.Int63n(60*ms))
				o.N[3], o.N[5], o.N[6], o.N[7] = 0, 1, 0, 0
				o.N[9] = []int64{0, 20 * ms, 100 * ms, sec, 2500 * ms}[g.Intn(5)]
				o.N[10] = []int64{100, 500, 1000, 2000, 5000}[g.Intn(5)]
				if g.chance(0.3) {
					o.N[5], o.N[6] = int64(2+g.Intn(3)), g.Int63n(30*ms)
				}
				g.add(o)
			}
		}
		if g.chance(0.4) { // just as the server is doing something
			g.add(Op{K: "on", W: -1, T: t, N: []int64{[]int64{0, 0, 3}[g.Intn(3)], g.Int63n(4), []int64{0, 1, 3, 10, 100}[g.Intn(5)]}})
		}
		g.add(Op{K: k, W: -1, T: t, N: []int64{restart, g.Int63n(5 * sec)}})
		if restart == 1 {
			for i := 0; i < 4+g.Intn(8); i++ {
				g.add(clientOp(g.Intn(nc), t+8*sec+g.Int63n(4*dns)))
			}
		}
	}
	for i := range g.Ops {
		if g.Ops[i].T < 0 {
			g.Ops[i].T = 0
		}
	}
	sort.SliceStable(g.Ops, func(a, b int) bool { return g.Ops[a].T < g.Ops[b].T })
}

// ---- execution ----

func execServer(r *Run) {
	e := newSrvEnv(r)
	w := r.w
	if r.p("init") == 1 {
		if !e.runInit() {
			return
		}
	} else {
		e.writeConfig(r.p("dl"))
	}
	er := e.start()
	er.initDl = uint64(r.p("dl"))
	// an interrupt may arrive before the server listens
	early := int64(-1)
	for _, o := range r.Ops {
		if o.W == -1 && o.K == "int" && o.T < ms/2 {
			early = o.T
		}
	}
	_ = early
	if !e.await(er, 30*sec) {
		if w.Faults["stall"] > 0 && !er.node.Dead {
			if !e.await(er, 600*sec) {
				return
			}
		} else {
			r.Fail("C12,C09,C01,C11", "no-start", "the server does not start: %s", firstLines(er.node.Panic+er.node.DieFatal+"\n"+er.node.Stack, 12))
			return
		}
	}
	e.checkInit(er)
	base := w.NowNs()
	e.polState(er)
	byW := map[int][]Op{}
	var ws []int
	for _, o := range r.Ops {
		if byW[o.W] == nil {
			ws = append(ws, o.W)
		}
		byW[o.W] = append(byW[o.W], o)
	}
	sort.Ints(ws)
	var tasks []*simrt.Task
	for _, c := range ws {
		c := c
		if c == -1 {
			continue
		}
		tasks = append(tasks, simrt.GoNode(e.clientNode(c), fmt.Sprintf("client%d", c), func() {
			for _, o := range byW[c] {
				sleepUntil(base + o.T)
				e.clientStep(c, o)
			}
		}))
	}
	ctl := r.Go("control", func() {
		for _, o := range byW[-1] {
			sleepUntil(base + o.T)
			e.control(o)
		}
	})
	for _, t := range tasks {
		simrt.Join(t)
	}
	simrt.Join(ctl)
	// faults have stopped
	er = e.cur
	er.node.Rand.Fail = nil
	e.fs.Fault = nil
	for _, x := range e.eras {
		if e.crashed(x) && x == er {
			break
		}
	}
	var names []string
	for n := range e.names {
		if n != "" && n != "bad" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if !er.node.Dead && !er.exited && er.tInt == 0 && er.serving {
		if w.Faults["stall"] > 0 {
			sleepNs(20 * sec) // stalled tasks resume
		}
		if len(er.pols) > 1 && r.Prop == "C13" {
			e.reloadStillWorks(er, names)
		}
		e.finalQueries(er, names)
		if !e.crashed(er) {
			if r.Prop == "C11" {
				r.res.Nontrivial = true
			}
			e.stopServer(er)
		}
	}
	e.crashed(er)
	for _, x := range e.eras {
		e.judgeEra(x)
	}
	r.res.Note = fmt.Sprintf("%d exchanges", e.exID)
}

// reloadStillWorks: after faults end, a correct reload takes effect.
func (e *srvEnv) reloadStillWorks(er *era, names []string) {
	r := e.r
	w := r.w
	nd := int64(4)
	e.edit("good", nd, 0)
	e.polState(er)
	er.pols = append(er.pols, polEvent{t: w.NowNs(), signal: true})
	er.node.Signal(syscall.SIGUSR2)
	if w.Faults["stall"] > 0 {
		return
	}
	t := simrt.GoNode(e.clientNode(80), "probe", func() {
		for i := 0; i < 40; i++ {
			x := e.exchange(80, "look", names[0], nil, 0, 0, xopt{}, 0)
			if x.Latest >= 0 {
				if s := er.j.strs[uint64(x.Latest)]; s != nil && s.s.Policies.EpochDeadline == uint64(nd) {
					w.Probe("reload-effective")
					return
				}
			}
			cur := int64(5)
			if x.Latest >= 0 {
				if s := er.j.strs[uint64(x.Latest)]; s != nil {
					cur = int64(s.s.Policies.EpochDeadline)
				}
			}
			sleepNs(cur*sec/2 + 100*ms)
		}
		if w.Faults["stall"] > 0 {
			return
		}
		r.Fail("C13", "reload-dead", "a correct reload after the faults never takes effect")
	})
	simrt.Join(t)
}

func (e *srvEnv) clientStep(c int, o Op) {
	r := e.r
	er := e.cur
	if er.node.Dead && er.tInt == 0 && !er.killed {
		return
	}
	switch o.K {
	case "reg", "look", "lookep", "mon":
		rel := func(v int64) uint64 {
			if v < 0 {
				b := e.lastKnown + 1 + v
				if b < 0 {
					b = 0
				}
				return uint64(b)
			}
			return uint64(v)
		}
		var key []byte
		if o.K == "reg" {
			key = []byte(o.s(1))
		}
		x := e.exchange(c, o.K, o.s(0), key, rel(o.n(1)), rel(o.n(2)), xopt{addr: int(o.n(0)), fault: o.n(3), pos: o.n(4), pieces: o.n(5), gap: o.n(6), noFin: o.n(8) == 1, slow: o.n(9), buf: o.n(10)}, int(o.n(7)))
		e.feedHonest(c, x)
		e.feedOld(c, x)
	case "bad":
		e.badConn(c, o)
	default:
		r.res.Err = "unknown client op " + o.K
	}
}

// feedOld shows answers of a run that lost its state to clients of an
// earlier run.
func (e *srvEnv) feedOld(c int, x *Ex) {
	r := e.r
	if x.Era == 0 || x.Resp == nil || x.Resp.Error >= codeUnknown || x.Latest < 0 {
		return
	}
	s := e.eras[x.Era].j.strs[uint64(x.Latest)]
	if s == nil || !s.ok {
		return
	}
	for i := 0; i < 100; i++ {
		h := e.honest[i]
		if h == nil || h.cc.VerifiedSTR() == nil {
			continue
		}
		before := h.cc.VerifiedSTR()
		err := h.cc.AuditDirectory([]*strType{toDirSTR(s.s)})
		r.w.Probe("old-client-checked")
		if r.Prop == "C27" {
			r.res.Nontrivial = true
		}
		if err == nil {
			r.Fail("C27,C07", "lost-state-accepted", "a client holding the root of epoch %d of the earlier run accepts the root of epoch %d of the run that lost its state", before.Epoch, s.s.Epoch)
		}
		break
	}
}

func (e *srvEnv) control(o Op) {
	r := e.r
	w := r.w
	er := e.cur
	switch o.K {
	case "on":
		e.onEvent(o)
	case "edit":
		e.edit(o.s(1), o.n(0), o.n(1))
		e.polState(er)
	case "usr2":
		if er.node.Dead || er.exited || er.tInt != 0 {
			return
		}
		er.pols = append(er.pols, polEvent{t: w.NowNs(), signal: true})
		er.node.Signal(syscall.SIGUSR2)
		w.Probe("reload")
	case "fsf":
		if o.n(0) == 0 {
			e.fs.Fault = nil
			e.polState(er)
			return
		}
		which := []string{e.cfgPath(), e.dir + "/sign.priv", e.dir + "/vrf.priv", ""}[o.n(1)%4]
		e.fs.Fault = func(op, path string, n int) *simrt.FSFault {
			if simrt.CurNode() == e.cur.node && (op == "open" || op == "read") && (path == which || (which == "" && strings.HasPrefix(path, e.dir))) {
				return &simrt.FSFault{Err: syscall.EIO}
			}
			return nil
		}
		er.pols = append(er.pols, polEvent{t: w.NowNs(), res: []int64{-1}})
	case "ent":
		if o.n(0) == 0 {
			er.node.Rand.Fail = nil
			for i := range er.outage {
				if er.outage[i].b == math.MaxInt64 {
					er.outage[i].b = w.NowNs()
				}
			}
			return
		}
		short := int(o.n(1))
		mode := o.n(2)
		er.outage = append(er.outage, span{w.NowNs(), math.MaxInt64})
		er.node.Rand.Fail = func(read int64, n int) (int, error) {
			if mode == 3 && short < n {
				return short, syscall.EINTR
			}
			return short % 32, errors.New("entropy source failed")
		}
		w.Fault("entropy-outage")
	case "int":
		if er.node.Dead || er.exited {
			return
		}
		e.stopServer(er)
		if o.n(0) == 1 {
			e.restart(o.n(1))
		}
	case "kill":
		if er.node.Dead || er.exited {
			return
		}
		er.killed = true
		er.tInt = w.NowNs()
		er.j.stopAt = er.tInt
		w.Fault("server-crash")
		w.KillNode(er.node)
		if o.n(0) == 1 {
			e.restart(o.n(1))
		}
	}
}

// onEvent waits until the server does something for the k-th time and goes on
// at about that moment.
func (e *srvEnv) onEvent(o Op) {
	w := e.r.w
	node := e.cur.node
	me := simrt.Cur()
	kind := []string{"accept", "disk-open", "disk-read", "wlock"}[o.n(0)%4]
	left := 1 + o.n(1)
	hit := false
	w.Watch = func(k, arg string) {
		if hit || k != kind || simrt.CurNode() != node {
			return
		}
		if strings.HasPrefix(k, "disk-") && arg != e.cfgPath() && !strings.HasSuffix(arg, ".priv") {
			return
		}
		if left--; left == 0 {
			hit = true
			w.Hurry(me, o.n(2))
		}
	}
	if simrt.BlockUntil("event", w.NowNs()+2*sec, func() bool { return hit }) {
		w.Probe("on-" + kind)
	}
	w.Watch = nil
}

// restart starts a new server process on the same files; the directory's
// state is lost.
func (e *srvEnv) restart(after int64) {
	r := e.r
	e.fs.Fault = nil
	if !e.cur.node.Dead && !e.cur.exited {
		return
	}
	sleepNs(after)
	for _, a := range e.addrs { // stale sockets are the operator's to remove
		if strings.HasPrefix(a.url, "unix") {
			e.fs.Delete(strings.TrimPrefix(a.url, "unix://"))
		}
	}
	if l, _ := e.loadable(); l[0] < 0 || len(l) > 1 || string(e.fs.Peek(e.cfgPath())) != e.serverConfig(fmt.Sprint(l[0]), "sign.priv", "vrf.priv") {
		// the operator repairs a damaged configuration first
		e.edit("good", r.p("dl"), 0)
	}
	l, _ := e.loadable()
	dl := uint64(l[0])
	er := e.start()
	er.initDl = dl
	if r.p("api") == 1 {
		er.initDl = uint64(r.p("dl")) // built in memory, the files play no part
	}
	if !e.await(er, 600*sec) {
		r.Fail("C27,C12", "no-restart", "the server does not start again: %s", firstLines(er.node.Panic+er.node.DieFatal+"\n"+er.node.Stack, 12))
		return
	}
	r.w.Probe("restarted")
	if r.Prop == "C27" {
		r.res.Nontrivial = true
	}
	e.checkInit(er)
	e.polState(er)
}

var _ = os.Interrupt

func init() {
	register(&Scenario{Name: "server", Gen: genServer, Exec: execServer, Hang: "C01,C09,C11,C12,C13,C24,C23,C10,C02",
		Lim: simrt.Limits{MaxYields: 6_000_000, MaxSwitch: 1_000_000, MaxSimTime: 7200 * sec}},
		"C01*3", "C02*3", "C03*3", "C04*3", "C05*3", "C09*3", "C10*3", "C11*3", "C12*3", "C13*3", "C22*2", "C23*2", "C24*2", "C25*2", "C27*2")
}
