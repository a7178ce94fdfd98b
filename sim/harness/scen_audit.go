package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

// Scenario "audit": an auditor (the real audit log) and clients (the real
// consistency checks) follow several directories, some of them real and
// honest, some showing different histories to different parties, over a
// network that loses, repeats, reorders, delays, damages and misdelivers
// answers; the auditor restarts from saved, sometimes damaged, histories.

type audDir struct {
	ks     *keyset
	real   *directory.ConiksDirectory
	cap    int64
	ws     []*rDir
	known  []*rSTR // all roots of a real directory
	id     [32]byte
	addr   string
	log    []*rSTR // what the auditor must hold
	inLog  bool
	names  []string
	signer sign.PublicKey
}

func (d *audDir) strs(world int) []*rSTR {
	if d.real != nil {
		return d.known
	}
	return d.ws[world%len(d.ws)].strs
}

type flight struct {
	dir   int
	raw   []byte
	how   string
	world int
}

type audClient struct {
	cc    *client.ConsistencyChecks
	dir   int
	cur   *rSTR
	world int
}

type audit struct {
	r    *Run
	ds   []*audDir
	log  auditlog.ConiksAuditLog
	net  []flight
	pool [][]byte
	cs   []*audClient
	n    int
	kept keeper
}

// tick ends the directory's epoch.
func (a *audit) tick(d *audDir, world int) {
	if d.real != nil {
		d.real.Update()
		a.observe(d)
		return
	}
	d.ws[world%len(d.ws)].tick()
}

// observe reads a real directory's newest root.
func (a *audit) observe(d *audDir) {
	s := d.real.LatestSTR()
	j, _ := json.Marshal(s)
	x := new(rSTR)
	json.Unmarshal(j, x)
	d.known = append(d.known, x)
}

// history asks the directory for its roots.
func (a *audit) history(d *audDir, world int, lo, hi uint64) []byte {
	if d.real != nil {
		res := d.real.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: lo, EndEpoch: hi})
		b, err := application.MarshalResponse(res)
		a.kept.keep(res, b, fmt.Sprintf("the auditor's request for roots %d to %d", lo, hi))
		if err != nil {
			a.r.Fail("C04,C14", "unmarshallable", "the directory's answer cannot be encoded: %v", err)
		}
		return b
	}
	strs := d.strs(world)
	n := uint64(len(strs))
	if lo >= n || hi < lo {
		return []byte(`{"Error":106}`)
	}
	if hi >= n {
		hi = n - 1
	}
	return histWire(codeOK, strs[lo:hi+1])
}

// refAudit tells why an audit log at history log must refuse an answer.
func refAudit(pub []byte, log []*rSTR, raw []byte) ([]*rSTR, error) {
	code, strs, err := parseHist(raw)
	if err != nil {
		return nil, err
	}
	if code >= codeErrDir && code <= codeMalformed {
		return nil, fmt.Errorf("it is the error %s", codeName(code))
	}
	if len(strs) == 0 {
		return nil, fmt.Errorf("it contains no root")
	}
	for _, s := range strs {
		if s == nil || s.Policies == nil {
			return nil, fmt.Errorf("it contains an incomplete root")
		}
	}
	cur := log[len(log)-1]
	if canonSTR(strs[0]) != canonSTR(cur) {
		if strs[0].Epoch == cur.Epoch {
			return nil, fmt.Errorf("its first root differs from the one verified for epoch %d", cur.Epoch)
		}
		if err := refSTR(pub, strs[0]); err != nil {
			return nil, err
		}
		if err := refChain(cur, strs[0]); err != nil {
			return nil, err
		}
	}
	for i := 1; i < len(strs); i++ {
		if err := refSTR(pub, strs[i]); err != nil {
			return nil, err
		}
		if err := refChain(strs[i-1], strs[i]); err != nil {
			return nil, err
		}
	}
	out := append([]*rSTR(nil), log...)
	for _, s := range strs {
		if s.Epoch > cur.Epoch {
			out = append(out, s)
		}
	}
	return out, nil
}

func (a *audit) observed(d *audDir, lo, hi uint64) (int, []*rSTR, error) {
	res := a.log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: d.id, StartEpoch: lo, EndEpoch: hi})
	raw, err := application.MarshalResponse(res)
	if err != nil {
		return 0, nil, err
	}
	a.kept.keep(res, raw, fmt.Sprintf("a query for roots %d to %d", lo, hi))
	return parseHist2(raw)
}

func parseHist2(raw []byte) (int, []*rSTR, error) { return parseHist(raw) }

func canonSTRs(ss []*rSTR) string {
	j, _ := json.Marshal(ss)
	return string(j)
}

// checkLog compares the whole log with the model.
func (a *audit) checkLog(after string, only int) {
	r := a.r
	for i, d := range a.ds {
		if !d.inLog {
			continue
		}
		tag := "C14,C15"
		if only >= 0 && only != i {
			tag = "C15,C14"
		}
		last := d.log[len(d.log)-1].Epoch
		code, strs, err := a.observed(d, 0, last)
		if err != nil || code != codeOK || canonSTRs(strs) != canonSTRs(d.log) {
			r.Fail(tag, "log", "after %s the auditor's log of directory %d holds %s (code %d, err %v), expected the %d roots verified so far", after, i, epochs(strs), code, err, len(d.log))
			return
		}
		// nothing beyond the latest verified root
		code, strs, _ = a.observed(d, last, last+1)
		if code == codeOK || len(strs) > 0 {
			r.Fail(tag, "log-extra", "after %s the auditor answers for epoch %d of directory %d (%s), only epochs up to %d were verified", after, last+1, i, epochs(strs), last)
			return
		}
	}
}

func epochs(ss []*rSTR) string {
	var out []string
	for _, s := range ss {
		if s == nil {
			out = append(out, "nil")
		} else {
			out = append(out, fmt.Sprint(s.Epoch))
		}
	}
	return fmt.Sprintf("epochs %v", out)
}

func (a *audit) deliver(f flight, dir int, honest bool) {
	r := a.r
	d := a.ds[dir]
	if !d.inLog {
		return
	}
	what := fmt.Sprintf("%s answer %s", f.how, trunc(string(f.raw)))
	next, why := refAudit(d.ks.pub, d.log, f.raw)
	var err error
	crashed := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				crashed = true
				r.Fail("C08", "panic", "the auditor crashed on the %s: %v", what, p)
			}
		}()
		err = a.log[d.id].Audit(application.UnmarshalResponse(protocol.STRType, f.raw))
		if err != nil {
			_ = err.Error()
		}
	}()
	a.n++
	if crashed {
		return
	}
	r.w.Event("audit %d %s ok=%v err=%v", dir, f.how, why == nil, err)
	switch {
	case err == nil && why != nil:
		tag := "C14"
		if _, _, e := parseHist(f.raw); e != nil {
			tag = "C08,C14"
		}
		r.Fail(tag, "audit-accepted", "the auditor accepted the %s for directory %d although %v", what, dir, why)
		return
	case err != nil && why == nil && honest:
		r.Fail("C14", "audit-refused", "the auditor at epoch %d refused the directory's valid %s: %v", d.log[len(d.log)-1].Epoch, what, err)
		return
	case err == nil:
		d.log = next
		r.w.Probe("audit-accepted")
	default:
		r.w.Probe("audit-refused")
	}
	a.checkLog("the "+what, dir)
}

// initHistory starts the auditor's history of a directory from saved roots.
func (a *audit) initHistory(dir int, raw []byte, key sign.PublicKey, how string) bool {
	r := a.r
	d := a.ds[dir]
	var snaps []*protocol.DirSTR
	var refs []*rSTR
	if json.Unmarshal(raw, &snaps) != nil || json.Unmarshal(raw, &refs) != nil {
		return false
	}
	why := func() error {
		if len(refs) == 0 {
			return fmt.Errorf("it is empty")
		}
		for _, s := range refs {
			if s == nil || s.Policies == nil {
				return fmt.Errorf("it contains an incomplete root")
			}
		}
		if refs[0].Epoch != 0 {
			return fmt.Errorf("it starts with epoch %d", refs[0].Epoch)
		}
		for i := range refs {
			if err := refSTR(key, refs[i]); err != nil {
				return err
			}
			if i == 0 {
				continue
			}
			if err := refChain(refs[i-1], refs[i]); err != nil {
				return err
			}
		}
		return nil
	}()
	same := len(refs) > 0 && refs[0] != nil && bytes.Equal(refDigest(refs[0].Signature), d.id[:])
	known := same && d.inLog
	var err error
	crashed := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				crashed = true
				r.Fail("C08,C14", "panic", "the auditor crashed on a %s saved history %s: %v", how, epochs(refs), p)
			}
		}()
		// a directory is known by its initial root, whatever its address
		addr := d.addr
		if a.n%3 == 1 {
			addr = a.ds[(dir+1)%len(a.ds)].addr
		} else if known && a.n%3 == 2 {
			addr = "moved.example.org"
		}
		err = a.log.InitHistory(addr, key, snaps)
	}()
	a.n++
	if crashed {
		return false
	}
	r.w.Event("init %d %s ok=%v known=%v err=%v", dir, how, why == nil, known, err)
	switch {
	case err == nil && known:
		r.Fail("C15", "reinit", "directory %d was registered a second time (%s history %s)", dir, how, epochs(refs))
	case err == nil && why != nil:
		r.Fail("C14", "init-accepted", "the auditor restored a %s history %s although %v", how, epochs(refs), why)
	case err != nil && why == nil && !known:
		r.Fail("C14", "init-refused", "the auditor refused to restore its %s history %s: %v", how, epochs(refs), err)
	}
	if err == nil && !known && same {
		d.log, d.inLog = refs, true
	}
	a.checkLog("restoring a "+how+" history", -1)
	return err == nil
}

func (a *audit) saved(d *audDir) []byte {
	j, _ := json.Marshal(d.log)
	return j
}

var saveDamage = []string{"none", "none", "none", "tail", "gap", "swap", "forged", "fork", "first", "json", "empty", "dup", "otherkey", "resigned"}

func (a *audit) restart(o Op) {
	r := a.r
	rng := rand.New(rand.NewSource(o.n(0)))
	a.log = auditlog.New()
	r.w.Fault("auditor-restart")
	old := make([][]byte, len(a.ds))
	for i, d := range a.ds {
		if d.inLog {
			old[i] = a.saved(d)
		}
		d.inLog = false
	}
	for i, d := range a.ds {
		if old[i] == nil {
			continue
		}
		kind := o.s(0)
		if int(o.n(1))%len(a.ds) != i {
			kind = "none"
		}
		var ss []*rSTR
		json.Unmarshal(old[i], &ss)
		key := d.signer
		raw := old[i]
		switch kind {
		case "tail":
			ss = ss[:1+rng.Intn(len(ss))]
		case "gap":
			if len(ss) > 2 {
				k := 1 + rng.Intn(len(ss)-2)
				ss = append(ss[:k], ss[k+1:]...)
			}
		case "swap":
			if len(ss) > 1 {
				k := rng.Intn(len(ss) - 1)
				ss[k], ss[k+1] = ss[k+1], ss[k]
			}
		case "forged":
			k := rng.Intn(len(ss))
			ss[k].TreeHash = bytes.Repeat([]byte{7}, 32)
		case "resigned": // correctly signed, wrong place
			k := rng.Intn(len(ss))
			ss[k].TreeHash = bytes.Repeat([]byte{7}, 32)
			resign(d.ks, ss[k])
		case "fork":
			if len(d.ws) > 1 {
				o := d.ws[1].strs
				for k := len(ss) / 2; k < len(ss) && k < len(o); k++ {
					ss[k] = copySTR(o[k])
				}
			}
		case "first":
			ss = ss[1:]
		case "empty":
			ss = nil
		case "dup":
			k := rng.Intn(len(ss))
			ss = append(ss[:k+1], ss[k:]...)
		case "otherkey":
			key = sign.PublicKey(keysFor(77).pub)
		}
		raw, _ = json.Marshal(ss)
		if kind == "json" {
			raw = mutateJSON(raw, rng, a.pool)
		}
		if kind != "none" {
			r.w.Fault("saved-" + kind)
		}
		if !a.initHistory(i, raw, key, kind) && !d.inLog {
			// the operator falls back to a good copy
			a.initHistory(i, old[i], d.signer, "good")
		}
	}
}

func (a *audit) clientStep(o Op) {
	r := a.r
	c := a.cs[int(o.n(0))%len(a.cs)]
	d := a.ds[c.dir]
	strs := d.strs(c.world)
	if int(c.cur.Epoch) >= len(strs) {
		return
	}
	to := int(c.cur.Epoch) + 1 + int(o.n(1))
	if to >= len(strs) {
		to = len(strs) - 1
	}
	from := int(c.cur.Epoch)
	if o.n(2) == 1 && from < to {
		from++
	}
	raw := histWire(codeOK, strs[from:to+1])
	_, xs, _ := parseHist(raw)
	var ds []*protocol.DirSTR
	for _, x := range xs {
		ds = append(ds, toDirSTR(x))
	}
	okRef := true
	if _, err := refAudit(d.ks.pub, []*rSTR{c.cur}, raw); err != nil {
		okRef = false
	}
	err := c.cc.AuditDirectory(ds)
	if err == nil && !okRef {
		r.Fail("C07,C06", "range-accepted", "a client at epoch %d accepted the range %s it cannot verify", c.cur.Epoch, epochs(xs))
		return
	}
	if err != nil && okRef {
		r.Fail("C05,C16", "range-refused", "a client at epoch %d refused the directory's roots %s: %v", c.cur.Epoch, epochs(xs), err)
		return
	}
	if err == nil {
		c.cc.Update(ds[len(ds)-1])
		c.cur = xs[len(xs)-1]
	}
}

// clientAudit compares a client's view with the auditor's.
func (a *audit) clientAudit(o Op) {
	r := a.r
	rng := rand.New(rand.NewSource(o.n(3)))
	c := a.cs[int(o.n(0))%len(a.cs)]
	d := a.ds[c.dir]
	if !d.inLog {
		return
	}
	end := int64(c.cur.Epoch) + []int64{0, 0, 0, 1, -1, 2}[o.n(1)%6]
	start := end - o.n(2)
	if start < 0 {
		start = 0
	}
	if end < 0 {
		return
	}
	res := a.log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: d.id, StartEpoch: uint64(start), EndEpoch: uint64(end)})
	raw, err := application.MarshalResponse(res)
	if err != nil {
		return
	}
	how := "auditor's"
	if o.s(0) != "" {
		how = o.s(0)
		r.w.Fault("audit-answer-" + how)
		switch how {
		case "json":
			raw = mutateJSON(raw, rng, a.pool)
		case "bytes":
			raw = mutateBytes(raw, rng, a.pool)
		case "replayed":
			if len(a.pool) > 0 {
				raw = a.pool[rng.Intn(len(a.pool))]
			}
		}
	}
	if len(a.pool) < 30 {
		a.pool = append(a.pool, raw)
	}
	old := strJSON(c.cc.VerifiedSTR())
	crashed := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				crashed = true
				r.Fail("C08,C16", "panic", "the client crashed on the %s answer %s: %v", how, trunc(string(raw)), p)
			}
		}()
		err = c.cc.CheckEquivocation(application.UnmarshalResponse(protocol.AuditType, raw))
	}()
	a.n++
	if crashed {
		return
	}
	bad := refEquiv(d.ks.pub, c.cur, raw)
	r.w.Event("equiv %d [%d,%d] %s bad=%v err=%v", c.dir, start, end, how, bad != nil, err)
	if strJSON(c.cc.VerifiedSTR()) != old {
		r.Fail("C16,C07", "equiv-moved", "comparing with the %s answer moved the client's verified root", how)
		return
	}
	if bad == nil && err != nil && o.s(0) == "" {
		r.Fail("C16", "equiv-alarm", "a client at epoch %d reports %q about the auditor's identical history [%d,%d]", c.cur.Epoch, err, start, end)
		return
	}
	if bad != nil && err == nil {
		r.Fail("C16", "equiv-missed", "a client at epoch %d reports no inconsistency about the %s answer for [%d,%d] although %v", c.cur.Epoch, how, start, end, bad)
		return
	}
	if err != nil && o.s(0) == "" && uint64(end) == c.cur.Epoch && int(end) < len(d.log) {
		r.w.Probe("equivocation-exposed")
	}
	if err == nil {
		r.w.Probe("histories-agree")
	}
}

// query asks the auditor for ranges, valid or not.
func (a *audit) query(o Op) {
	r := a.r
	d := a.ds[o.W%len(a.ds)]
	lo, hi := uint64(o.n(0)), uint64(o.n(1))
	switch o.n(2) {
	case 1:
		hi = ^uint64(0)
	case 2:
		lo = ^uint64(0)
	case 3:
		lo, hi = ^uint64(0), ^uint64(0)
	}
	id := d.id
	inLog := d.inLog
	if o.n(3) > 0 {
		id[o.n(3)%32] ^= 1
		inLog = false
	}
	res := a.log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: lo, EndEpoch: hi})
	raw, err := application.MarshalResponse(res)
	a.kept.keep(res, raw, fmt.Sprintf("a query for roots %d to %d", lo, hi))
	code, strs, perr := parseHist(raw)
	if err != nil || perr != nil {
		r.Fail("C15", "unreadable", "the auditor's answer for [%d,%d] cannot be read: %v %v", lo, hi, err, perr)
		return
	}
	a.n++
	r.w.Probe("range-query")
	if !inLog || lo > hi || hi >= uint64(len(d.log)) {
		if code < codeUnknown || len(strs) > 0 || lo <= hi && (code == codeUnknown) == inLog {
			r.Fail("C15", "invalid-range", "the auditor answered code %d and %s for the range [%d,%d] (known directory: %v, %d roots verified)", code, epochs(strs), lo, hi, inLog, len(d.log))
		}
		return
	}
	if code != codeOK || canonSTRs(strs) != canonSTRs(d.log[lo:hi+1]) {
		r.Fail("C15", "range", "the auditor answered code %d and %s for the range [%d,%d] of %d verified roots", code, epochs(strs), lo, hi, len(d.log))
	}
}

func genAudit(g *Gen) {
	P := g.P
	P["dirs"] = int64(1 + g.Intn(3))
	P["seed"] = g.Int63()
	P["ks"] = int64(g.Intn(6))
	P["kinds"] = g.Int63()
	P["clients"] = int64(1 + g.Intn(3))
	P["samekeys"] = int64(g.Intn(3))
	n := 30 + g.Intn(70)
	if g.Tier == "thorough" {
		n += g.Intn(150)
	}
	evil := []float64{0, 0.1, 0.4}[g.Intn(3)]
	if g.Prop == "C08" {
		evil = 0.6
	}
	loss := []float64{0, 0.2, 0.5}[g.Intn(3)]
	forks := g.chance(0.6)
	for i := 0; i < n; i++ {
		dir := g.Intn(3)
		switch k := g.Intn(24); {
		case k < 5:
			g.add(Op{K: "tick", W: dir, N: []int64{int64(g.Intn(3))}})
		case k < 8:
			// start relative to the verified root, end relative to start (-1: open)
			g.add(Op{K: "poll", W: dir, N: []int64{int64(g.Intn(5) - 1), int64(g.Intn(6) - 1), int64(g.Intn(3))}})
		case k < 13:
			how := ""
			if g.chance(evil) {
				how = g.pick("json", "json", "bytes", "cross", "resign", "alien", "gap", "resign", "empty")
			}
			dup := int64(0)
			if g.chance(loss) {
				dup = 1
			}
			g.add(Op{K: "deliver", S: []string{how}, N: []int64{int64(g.Intn(8)), dup, g.Int63()}})
		case k == 13:
			if g.chance(loss) {
				g.add(Op{K: "drop", N: []int64{int64(g.Intn(8))}})
			}
		case k < 16:
			g.add(Op{K: "client", N: []int64{int64(g.Intn(3)), int64(g.Intn(3)), int64(g.Intn(2))}})
		case k < 19:
			how := ""
			if g.chance(evil) {
				how = g.pick("json", "bytes", "replayed")
			}
			g.add(Op{K: "equiv", S: []string{how}, N: []int64{int64(g.Intn(3)), int64(g.Intn(6)), int64(g.Intn(5)), g.Int63()}})
		case k < 21:
			bad := int64(0)
			if g.chance(0.2) {
				bad = int64(1 + g.Intn(31))
			}
			lo := int64(g.Intn(8))
			g.add(Op{K: "query", W: dir, N: []int64{lo, lo + int64(g.Intn(8)) - 2, int64(g.Intn(20)), bad}})
		case k == 21 && g.chance(0.4):
			g.add(Op{K: "restart", S: []string{saveDamage[g.Intn(len(saveDamage))]}, N: []int64{g.Int63(), int64(g.Intn(3))}})
		case k == 22 && g.chance(0.5):
			g.add(Op{K: "reinit", W: dir, N: []int64{int64(g.Intn(4))}})
		case k == 23 && forks && g.chance(0.6):
			g.add(Op{K: "fork", W: dir, N: []int64{g.Int63()}})
		default:
			g.add(Op{K: "switch", N: []int64{int64(g.Intn(3)), int64(g.Intn(3))}})
		}
	}
}

func execAudit(r *Run) {
	a := &audit{r: r, log: auditlog.New()}
	a.kept = keeper{r: r, ids: "C15,C14,C04,C16"}
	rng := rand.New(rand.NewSource(r.p("seed")))
	for i := int64(0); i < r.p("dirs"); i++ {
		ks := keysFor(r.p("ks") + 1 + i)
		if r.p("samekeys") == 0 {
			ks = keysFor(r.p("ks") + 1) // one operator, several directories
		}
		d := &audDir{ks: ks, addr: fmt.Sprintf("dir%d", i), signer: sign.PublicKey(ks.pub)}
		if r.p("samekeys") == 1 {
			d.addr = "dir"
		}
		k := r.p("kinds") >> uint(4*i)
		if k&3 == 0 {
			d.cap = []int64{1000, 1000, 2, 5}[k>>2&3]
			d.real = directory.New(60, vrf.PrivateKey(ks.vrf), sign.PrivateKey(ks.sign), uint64(d.cap), true)
			a.observe(d)
		} else {
			w := newRDir(ks, rand.New(rand.NewSource(rng.Int63())), 60)
			w.tick()
			d.ws = []*rDir{w}
		}
		copy(d.id[:], refDigest(d.strs(0)[0].Signature))
		a.ds = append(a.ds, d)
		j, _ := json.Marshal(d.strs(0)[:1])
		a.initHistory(int(i), j, d.signer, "initial")
	}
	for i := int64(0); i < r.p("clients"); i++ {
		di := int(i) % len(a.ds)
		d := a.ds[di]
		s := d.strs(0)[0]
		a.cs = append(a.cs, &audClient{cc: client.New(toDirSTR(s), true, d.signer), dir: di, cur: copySTR(s)})
	}
	for _, o := range r.Ops {
		if len(r.res.Viol) > 0 {
			break
		}
		di := o.W % len(a.ds)
		d := a.ds[di]
		switch o.K {
		case "tick":
			a.tick(d, int(o.n(0)))
		case "fork":
			if d.real == nil && len(d.ws) < 3 {
				d.ws = append(d.ws, d.ws[0].clone(o.n(0)))
				d.ws[len(d.ws)-1].pol.EpochDeadline++
				r.w.Fault("fork")
			}
		case "switch":
			c := a.cs[int(o.n(0))%len(a.cs)]
			q := a.ds[c.dir]
			if q.real == nil {
				// only a history containing the client's root keeps it alive
				c.world = int(o.n(1)) % len(q.ws)
			}
		case "poll":
			if !d.inLog {
				break
			}
			at := int64(d.log[len(d.log)-1].Epoch)
			lo := at + o.n(0)
			if lo < 0 {
				lo = 0
			}
			hi := uint64(lo + o.n(1))
			if o.n(1) < 0 {
				hi = 1 << 40
			}
			raw := a.history(d, int(o.n(2)), uint64(lo), hi)
			if len(a.net) < 12 {
				a.net = append(a.net, flight{di, raw, "directory's", int(o.n(2))})
			}
			if len(a.pool) < 30 {
				a.pool = append(a.pool, raw)
			}
			if d.real != nil {
				a.checkReal(d, uint64(lo), hi, raw)
			}
		case "deliver":
			if len(a.net) == 0 {
				break
			}
			i := int(o.n(0)) % len(a.net)
			f := a.net[i]
			if o.n(1) == 0 {
				a.net = append(a.net[:i:i], a.net[i+1:]...)
			} else {
				r.w.Fault("duplicate")
			}
			if i > 0 {
				r.w.Fault("reorder")
			}
			to := f.dir
			honest := true
			if o.s(0) != "" {
				honest = false
				f.how = o.s(0)
				r.w.Fault("history-" + f.how)
				f.raw, to = a.damage(f, o.s(0), rand.New(rand.NewSource(o.n(2))))
			}
			a.deliver(f, to, honest)
		case "drop":
			if len(a.net) > 0 {
				i := int(o.n(0)) % len(a.net)
				a.net = append(a.net[:i:i], a.net[i+1:]...)
				r.w.Fault("loss")
			}
		case "client":
			a.clientStep(o)
		case "equiv":
			a.clientAudit(o)
		case "query":
			a.query(o)
		case "restart":
			a.restart(o)
		case "reinit":
			j := a.saved(d)
			if o.n(0) == 1 {
				j, _ = json.Marshal(d.log[:1])
			}
			key := d.signer
			if o.n(0) == 2 {
				key = sign.PublicKey(keysFor(77).pub)
				j, _ = json.Marshal(d.log[:1])
			}
			if o.n(0) == 3 {
				j, _ = json.Marshal(d.strs(0))
			}
			a.initHistory(di, j, key, "known")
		}
	}
	if len(r.res.Viol) == 0 {
		a.settle()
	}
	a.kept.finish()
	r.res.Nontrivial = a.n >= 5
	switch r.Prop {
	case "C14":
		r.res.Nontrivial = r.w.Probes["audit-accepted"] > 0
	case "C15":
		r.res.Nontrivial = r.w.Probes["range-query"] > 0
	case "C16":
		r.res.Nontrivial = r.w.Probes["histories-agree"] > 0 || r.w.Probes["equivocation-exposed"] > 0
	}
}

// settle: once faults stop, polling an honest directory catches up, and
// clients in step with the auditor agree with it.
func (a *audit) settle() {
	r := a.r
	for i, d := range a.ds {
		if !d.inLog {
			continue
		}
		w := a.worldOf(d)
		if w < 0 {
			continue
		}
		last := d.log[len(d.log)-1].Epoch
		strs := d.strs(w)
		for _, step := range []uint64{1, 1 << 40} {
			raw := a.history(d, w, last, last+step)
			code, _, _ := parseHist(raw)
			if code != codeOK {
				break // evicted
			}
			a.deliver(flight{i, raw, "directory's final", w}, i, true)
			if len(r.res.Viol) > 0 {
				return
			}
			last = d.log[len(d.log)-1].Epoch
			if step > 1 && last != strs[len(strs)-1].Epoch {
				r.Fail("C14", "behind", "after polling everything the auditor is at epoch %d of directory %d, which is at %d", last, i, strs[len(strs)-1].Epoch)
				return
			}
		}
		for k := range a.cs {
			if a.cs[k].dir == i {
				a.clientAudit(Op{N: []int64{int64(k), 0, int64(a.cs[k].cur.Epoch)}, S: []string{""}})
			}
		}
	}
}

// worldOf finds a history the auditor's log is a prefix of.
func (a *audit) worldOf(d *audDir) int {
	last := d.log[len(d.log)-1]
	if d.real != nil {
		if int(last.Epoch) < len(d.known) && canonSTR(d.known[last.Epoch]) == canonSTR(last) {
			return 0
		}
		return -1
	}
	for i, w := range d.ws {
		if int(last.Epoch) < len(w.strs) && canonSTR(w.strs[last.Epoch]) == canonSTR(last) {
			return i
		}
	}
	return -1
}

// checkReal compares a real directory's history answer with its roots.
func (a *audit) checkReal(d *audDir, lo, hi uint64, raw []byte) {
	r := a.r
	code, strs, err := parseHist(raw)
	n := uint64(len(d.known))
	if err != nil {
		r.Fail("C04,C24", "history-unreadable", "the directory's history answer cannot be read: %v", err)
		return
	}
	if lo >= n || hi < lo {
		if code == codeOK || len(strs) > 0 {
			r.Fail("C04", "history-range", "the directory at epoch %d answers code %d and %s for [%d,%d]", n-1, code, epochs(strs), lo, hi)
		}
		return
	}
	if code == codeErrDir && d.cap < 1000 {
		r.w.Probe("evicted")
		return
	}
	if hi >= n {
		hi = n - 1
	}
	if code != codeOK || canonSTRs(strs) != canonSTRs(d.known[lo:hi+1]) {
		r.Fail("C04,C03", "history", "the directory at epoch %d answers code %d and %s for [%d,%d]", n-1, code, epochs(strs), lo, hi)
	}
}

func (a *audit) damage(f flight, how string, rng *rand.Rand) ([]byte, int) {
	d := a.ds[f.dir]
	_, strs, _ := parseHist(f.raw)
	switch how {
	case "json":
		raw := f.raw
		for i := 1 + rng.Intn(3); i > 0; i-- {
			raw = mutateJSON(raw, rng, a.pool)
		}
		return raw, f.dir
	case "bytes":
		return mutateBytes(f.raw, rng, a.pool), f.dir
	case "cross":
		return f.raw, rng.Intn(len(a.ds))
	case "empty":
		return [][]byte{histWire(codeOK, nil), []byte(`{"Error":100}`), []byte(`{"Error":103,"DirectoryResponse":null}`)}[rng.Intn(3)], f.dir
	case "gap":
		if len(strs) > 1 {
			k := rng.Intn(len(strs))
			strs = append(strs[:k:k], strs[k+1:]...)
		}
	case "alien":
		if len(strs) > 0 {
			resign(keysFor(77), strs[rng.Intn(len(strs))])
		}
	case "resign":
		if len(strs) == 0 {
			break
		}
		k := rng.Intn(len(strs))
		s := strs[k]
		if rng.Intn(2) == 0 {
			s = copySTR(strs[len(strs)-1])
			s.Epoch++
			s.PreviousEpoch = s.Epoch - 1
			s.PreviousSTRHash = refDigest(strs[len(strs)-1].Signature)
			strs = append(strs, s)
		}
		switch rng.Intn(9) {
		case 0:
			s.Epoch++
		case 1:
			s.Epoch += 2
			s.PreviousEpoch += 2
		case 2:
			s.PreviousEpoch++
		case 3:
			s.PreviousSTRHash = nil
		case 4:
			s.PreviousSTRHash = refDigest(s.Signature)
		case 5:
			s.TreeHash = bytes.Repeat([]byte{3}, 32)
		case 6:
			s.Policies.EpochDeadline++
		case 7:
			if s.Epoch > 0 {
				s.Epoch--
				s.PreviousEpoch--
			}
		case 8: // a valid next root of the adversary's own
			if k > 0 {
				s.PreviousSTRHash = refDigest(strs[k-1].Signature)
			}
		}
		resign(d.ks, s)
	}
	code := codeOK
	if rng.Intn(6) == 0 {
		code = []int{codeErrAudit, codeMalformed, codeUnknown, codeErrDir, 0}[rng.Intn(5)]
	}
	return histWire(code, strs), f.dir
}

func init() {
	register(&Scenario{Name: "audit", Gen: genAudit, Exec: execAudit, Hang: "C08,C14,C15"}, "C14*3", "C15*3", "C16*3", "C08*1", "C04*1")
}
