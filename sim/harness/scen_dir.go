package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"syscall"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"verif.sim/simrt"
)

// The dir scenario drives a real directory directly: long histories, many
// names (also such whose private indices share long prefixes), tight
// retention, policy changes, parallel readers and failing randomness at exact
// points, without the cost of the network in between.

// deepGroup picks a group of names whose private indices under keysFor(ks)
// share a long prefix.
func deepGroup(g *Gen, ks int64) []string {
	gs := deepNames[ks]
	if len(gs) == 0 {
		return nil
	}
	return strings.Fields(gs[g.Intn(len(gs))])
}

// variation returns a name that is easily confused with another.
func variation(g *Gen, name string) string {
	switch g.Intn(8) {
	case 0:
		return name + "\u0000"
	case 1:
		return name + " "
	case 2:
		return " " + name
	case 3:
		return name + "\u200b"
	case 4:
		return name + "x"
	case 5:
		rs := []rune(name)
		return string(rs[:len(rs)-1])
	case 6:
		return strings.Title(name)
	}
	return strings.ToUpper(name)
}

func genDir(g *Gen) {
	P := g.P
	P["ks"] = int64(g.Intn(4))
	P["dl"] = []int64{1, 60, 86400}[g.Intn(3)]
	P["hist"] = 1000
	if g.Prop == "C24" || g.chance(0.3) {
		P["hist"] = int64(1 + g.Intn(9))
	}
	var names []string
	nn := 1 + g.Intn(12)
	if g.chance(0.2) {
		nn += g.Intn(40)
	}
	for i := 0; i < nn; i++ {
		names = append(names, genName(g, i))
	}
	if g.chance(0.6) {
		for i := 0; i < 1+g.Intn(3); i++ {
			names = append(names, deepGroup(g, P["ks"]+1)...)
		}
	}
	g.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
	never := g.Intn(len(names)/3 + 1) // names nobody registers
	epochs := int64(1 + g.Intn(12))
	if g.chance(0.15) {
		epochs = int64(10 + g.Intn(40))
	}
	nops := 10 + g.Intn(60)
	long := g.chance(0.03)
	if long { // a history of hundreds of epochs
		names = names[:1+g.Intn(min(4, len(names)))]
		never = 0
		nops = 10 + g.Intn(20)
		epochs = int64(2 + g.Intn(6))
	}
	if g.Tier == "thorough" {
		nops += g.Intn(100)
	}
	regW, lookW, epW, monW, histW := 6, 4, 3, 3, 1
	switch g.Prop {
	case "C03", "C24":
		regW, epW, monW = 4, 6, 6
	case "C04":
		histW = 6
	case "C23", "C22", "C25":
		regW = 12
	}
	keyN := 0
	ep := func() int64 {
		switch g.Intn(8) {
		case 0:
			return 0
		case 1:
			return g.Int63n(epochs + 3)
		case 2:
			return []int64{math.MaxInt64, -1 << 40, 1 << 62}[g.Intn(3)]
		}
		return -1 - g.Int63n(P["hist"]%100+4)
	}
	read := func() Op {
		name := names[g.Intn(len(names))]
		k := g.Intn(lookW + epW + monW + histW)
		switch {
		case k < lookW:
			return Op{K: "look", S: []string{name}}
		case k < lookW+epW:
			return Op{K: "lookep", S: []string{name}, N: []int64{ep()}}
		case k < lookW+epW+monW:
			return Op{K: "mon", S: []string{name}, N: []int64{ep(), ep()}}
		}
		return Op{K: "hist", S: []string{""}, N: []int64{ep(), ep()}}
	}
	ticks := int64(0)
	for i := 0; i < nops; i++ {
		switch {
		case ticks < epochs && g.chance(math.Min(0.35, float64(epochs)/float64(nops))):
			o := Op{K: "tick"}
			if long {
				o.N = []int64{100 + g.Int63n(400)}
			}
			g.add(o)
			ticks++
		case g.chance(0.04):
			g.add(Op{K: "pol", N: []int64{[]int64{1, 2, 60, 3600, 1 << 31, math.MaxInt64}[g.Intn(6)]}})
		case g.chance(0.1):
			o := Op{K: "par"}
			for k := 0; k < 2+g.Intn(4); k++ {
				x := read()
				x.W = 1
				g.add(x)
			}
			g.add(o)
		case g.Intn(regW+lookW+epW+monW+histW) < regW:
			keyN++
			name := names[never+g.Intn(len(names)-never)]
			key := fmt.Sprintf("key-%d-%06x", keyN, g.Int63()&0xffffff)
			switch g.Intn(25) {
			case 0:
				key = ""
			case 1:
				key += strings.Repeat("K", g.Intn(3000))
			case 2:
				name = ""
			}
			o := Op{K: "reg", S: []string{name, key}}
			if (g.Prop == "C23" && g.chance(0.35)) || g.chance(0.03) {
				// randomness fails during this registration
				o.N = []int64{1 + int64(g.Intn(3)), int64(g.Intn(33)), int64(g.Intn(4))}
			}
			g.add(o)
			if g.chance(0.3) { // the same name again
				keyN++
				if len([]rune(name)) > 1 && g.chance(0.3) { // or almost the same
					name = variation(g, name)
				}
				g.add(Op{K: "reg", S: []string{name, fmt.Sprintf("key-%d-again", keyN)}})
				if g.chance(0.5) {
					g.add(Op{K: "look", S: []string{name}})
				}
			}
		default:
			g.add(read())
		}
	}
	for k := int64(0); k < 1+int64(g.Intn(3)); k++ {
		g.add(Op{K: "tick"})
	}
}

type dirRun struct {
	r     *Run
	d     *directory.ConiksDirectory
	node  *simrt.Node
	j     *Judge
	e     *srvEnv
	id    int
	epoch int64
	pol   map[uint64]bool // deadlines the next root may announce
	cur   uint64
	kept  keeper
}

func (d *dirRun) request(x *Ex) *protocol.Response {
	switch x.Kind {
	case "reg":
		return d.d.Register(&protocol.RegistrationRequest{Username: x.Name, Key: x.Key})
	case "look":
		return d.d.KeyLookup(&protocol.KeyLookupRequest{Username: x.Name})
	case "lookep":
		return d.d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: x.Name, Epoch: x.Ep})
	case "mon":
		return d.d.Monitor(&protocol.MonitoringRequest{Username: x.Name, StartEpoch: x.Ep, EndEpoch: x.End})
	}
	return d.d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: x.Ep, EndEpoch: x.End})
}

// ask performs one request on the directory.
func (d *dirRun) ask(o Op) *Ex {
	w := d.r.w
	rel := func(v int64) uint64 {
		if v < 0 && v > -1000 {
			v = d.epoch + 1 + v
			if v < 0 {
				v = 0
			}
		}
		return uint64(v)
	}
	d.id++
	x := &Ex{ID: d.id, Cli: o.W, Kind: o.K, Name: o.s(0), Addr: "dir", AllowReg: true, AllowHist: true, Latest: -1}
	if o.K == "reg" {
		x.Key = []byte(o.s(1))
	} else {
		x.Ep, x.End = rel(o.n(0)), rel(o.n(1))
	}
	x.TInv, x.SInv = w.NowNs(), w.Seq()
	res := d.request(x)
	raw, err := application.MarshalResponse(res)
	d.kept.keep(res, raw, x.String())
	x.TRet, x.SRet = w.NowNs(), w.Seq()
	if err != nil {
		d.r.Fail("C01,C09,C04,C24", "unmarshallable", "the answer to %v cannot be encoded: %v", x, err)
		raw = nil
		x.Err = "unmarshallable"
	}
	x.Raw = raw
	return x
}

func execDir(r *Run) {
	d := &dirRun{r: r}
	d.kept = keeper{r: r, ids: "C01,C02,C03,C04,C05,C09,C24"}
	ks := keysFor(r.p("ks") + 1)
	d.node = r.w.NewNode("dir")
	d.j = newJudge(r, ks, r.p("hist"))
	d.e = &srvEnv{r: r, ks: ks, honest: map[int]*honest{}, eras: []*era{{j: d.j}}}
	names := map[string]bool{}
	for _, o := range r.Ops {
		if o.s(0) != "" {
			names[o.s(0)] = true
			d.j.secretNames[o.s(0)] = true
		}
	}
	var all []string
	for n := range names {
		all = append(all, n)
	}
	sort.Strings(all)
	t := simrt.GoNode(d.node, "dir", func() {
		d.d = directory.New(protocol.Timestamp(r.p("dl")), vrf.PrivateKey(ks.vrf), sign.PrivateKey(ks.sign), uint64(r.p("hist")), true)
		d.cur = uint64(r.p("dl"))
		d.pol = map[uint64]bool{d.cur: true}
		d.root()
		var batch []Op
		for _, o := range r.Ops {
			d.step(o, &batch)
		}
		d.finish(all)
		d.kept.finish()
	})
	simrt.Join(t)
	if d.node.Dead {
		r.Fail("C01,C02,C03,C04,C05,C09,C23,C24", "directory-crash", "the directory crashed: %s", firstLines(d.node.Panic+d.node.DieFatal+"\n"+d.node.Stack, 12))
		return
	}
	d.j.Final()
	if (r.Prop == "C04" || r.Prop == "C24") && d.epoch > 0 {
		r.res.Nontrivial = true
	}
	r.res.Note = fmt.Sprintf("%d requests, %d epochs", d.id, d.epoch)
}

// root looks at the newest root.
func (d *dirRun) root() {
	r := d.r
	b, _ := json.Marshal(d.d.LatestSTR())
	s := new(rSTR)
	if json.Unmarshal(b, s) != nil || s.Policies == nil {
		r.Fail("C04", "str-incomplete", "incomplete root %s", b)
		return
	}
	if int64(s.Epoch) != d.epoch {
		r.Fail("C04,C12,C24", "epoch-number", "epoch change number %d produced a root of epoch %d", d.epoch, s.Epoch)
	}
	x := &Ex{ID: d.id, Kind: "look", Name: "(newest root)", Latest: -1, TInv: r.w.NowNs(), TRet: r.w.NowNs()}
	d.j.seeSTR(x, s)
	if d.epoch == 0 {
		d.e.initSTR = s
		d.j.init = s
	}
	if !d.pol[s.Policies.EpochDeadline] {
		r.Fail("C13,C12,C04", "wrong-policy", "the root of epoch %d announces an epoch deadline of %ds, the policy changes leave only %v", s.Epoch, s.Policies.EpochDeadline, d.pol)
	}
	if got := uint64(d.d.EpochDeadline()); got != s.Policies.EpochDeadline {
		r.Fail("C12,C13", "deadline-differs", "the directory reports a deadline of %d, its newest root announces %d", got, s.Policies.EpochDeadline)
	}
}

func (d *dirRun) step(o Op, batch *[]Op) {
	r := d.r
	w := r.w
	switch o.K {
	case "tick":
		d.tick()
		for i := int64(1); i < o.n(0); i++ {
			d.tick()
		}
	case "pol":
		d.d.SetPolicies(protocol.Timestamp(o.n(0)))
		d.cur = uint64(o.n(0))
		d.pol[d.cur] = true
		w.Event("policy %d", o.n(0))
	case "par":
		var xs []*Ex
		var ts []*simrt.Task
		for i, b := range *batch {
			b := b
			ts = append(ts, simrt.GoNode(d.node, fmt.Sprint("reader", i), func() {
				x := d.ask(b)
				xs = append(xs, x)
			}))
		}
		for _, t := range ts {
			simrt.Join(t)
		}
		*batch = nil
		for _, x := range xs {
			d.j.Add(x)
		}
		w.Probe("parallel-readers")
	case "reg", "look", "lookep", "mon", "hist":
		if o.W == 1 {
			*batch = append(*batch, o)
			return
		}
		fail := o.K == "reg" && o.n(0) > 0
		reads, failed := int64(0), int64(0)
		if fail {
			from := o.n(0)
			short := int(o.n(1))
			mode := o.n(2)
			d.node.Rand.Fail = func(_ int64, n int) (int, error) {
				reads++
				if reads < from {
					return n, nil
				}
				failed++
				if mode == 3 && short < n {
					return short, syscall.EINTR
				}
				return short % 32, errors.New("entropy source failed")
			}
		}
		x := d.ask(o)
		d.node.Rand.Fail = nil
		if failed > 0 {
			w.Fault("entropy-outage")
			x.Outage = 1
			if reads == failed {
				x.Outage = 2 // not a single read succeeded
			}
		}
		d.j.Add(x)
		if o.K == "reg" || o.K == "look" {
			d.e.feedHonest(0, x)
		}
		w.Event("%v", x)
		if fail && r.Prop == "C23" && failed > 0 {
			r.res.Nontrivial = true
			// at once, and by someone else
			d.j.Add(d.ask(Op{K: "look", S: o.S}))
		}
	default:
		r.res.Err = "unknown op " + o.K
	}
}

func (d *dirRun) tick() {
	d.d.Update()
	d.epoch++
	d.root()
	// the next root announces what is in effect now, or a later change
	d.pol = map[uint64]bool{d.cur: true}
	if d.epoch < 100 {
		d.r.w.Event("tick %d", d.epoch)
	}
}

func (d *dirRun) finish(names []string) {
	for round := 0; round < 2; round++ {
		for _, n := range names {
			x := d.ask(Op{K: "look", S: []string{n}})
			d.j.Add(x)
			d.e.feedHonest(0, x)
		}
		if round == 0 {
			d.tick()
			d.j.Add(d.ask(Op{K: "hist", N: []int64{0, math.MaxInt64}}))
			d.j.Add(d.ask(Op{K: "hist", N: []int64{-d.j.half(), math.MaxInt64}}))
		}
	}
	for i, n := range names {
		if i > 30 {
			break
		}
		d.j.Add(d.ask(Op{K: "mon", S: []string{n}, N: []int64{-d.j.half(), math.MaxInt64}}))
		d.j.Add(d.ask(Op{K: "mon", S: []string{n}, N: []int64{0, math.MaxInt64}}))
	}
}

func init() {
	register(&Scenario{Name: "dir", Gen: genDir, Exec: execDir, Hang: "C24,C04,C03,C02",
		Lim: simrt.Limits{MaxYields: 20_000_000, MaxSwitch: 1_000_000, MaxSimTime: 3600 * sec}},
		"C02", "C03*2", "C04*2", "C05", "C22", "C23", "C24", "C25*2")
}
