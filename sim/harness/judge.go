package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Ex is one request to a directory and what became of it.
type Ex struct {
	ID        int
	Cli       int
	Kind      string // reg, look, lookep, mon, hist, raw
	Name      string
	Key       []byte
	Ep, End   uint64
	Addr      string
	AllowReg  bool
	AllowHist bool
	SInv      int64 // sequence numbers: total order of harness observations
	SRet      int64
	TInv      int64
	TRet      int64
	Raw       []byte
	Err       string
	Faulted   bool // the harness interfered with this connection
	Must      bool // nothing excuses a missing answer
	Outage    int  // registration while randomness was unavailable: 1 maybe, 2 surely
	Resp      *rResp
	Lost      bool // no complete answer
	Latest    int64
	Bound     []byte // key shown bound in the latest epoch
	Unbound   bool
	Era       int
}

func (x *Ex) String() string {
	s := fmt.Sprintf("#%d c%d %s(%q", x.ID, x.Cli, x.Kind, trunc(x.Name))
	switch x.Kind {
	case "reg":
		s += fmt.Sprintf(", key %q", trunc(string(x.Key)))
	case "lookep":
		s += fmt.Sprintf(", epoch %d", x.Ep)
	case "mon", "hist":
		s += fmt.Sprintf(", %d..%d", x.Ep, x.End)
	}
	s += fmt.Sprintf(") on %s at %.6f..%.6fs", x.Addr, float64(x.TInv)/1e9, float64(x.TRet)/1e9)
	if x.Resp != nil {
		s += " = " + codeName(x.Resp.Error)
		if x.Latest >= 0 {
			s += fmt.Sprintf(" epoch %d", x.Latest)
		}
		if x.Bound != nil {
			s += fmt.Sprintf(" key %q", trunc(string(x.Bound)))
		}
	} else {
		s += " = lost " + x.Err
	}
	return s
}

func trunc(s string) string {
	if len(s) > 24 {
		return s[:20] + ".."
	}
	return s
}

type apKey struct {
	name string
	ep   uint64
}
type apSeen struct {
	canon string
	inc   bool
	key   []byte
	salt  []byte
	val   []byte
	nonce []byte
	by    *Ex
}
type strSeen struct {
	canon string
	s     *rSTR
	by    *Ex
	ok    bool
}

// Judge evaluates the answers of one directory incarnation.
type Judge struct {
	r    *Run
	ks   *keyset
	hist int64 // configured number of retained snapshots
	exs  []*Ex
	strs map[uint64]*strSeen
	aps  map[apKey]*apSeen
	init *rSTR // root saved by the server
	// names and keys other than a request's own must not appear in answers
	secretNames map[string]bool
	start       int64 // time the directory was created, at the earliest
	calm        bool  // no stalls: upper time bounds apply
	useTime     bool
	maxLatest   int64
	final       bool
	stopAt      int64 // time of shutdown or crash (0 none)
	noC25       bool
	done        []*Ex
	openings    []opening // every commitment salt shown so far
	opened      map[string]bool
}

type opening struct{ name, enc string }

func newJudge(r *Run, ks *keyset, hist int64) *Judge {
	return &Judge{r: r, ks: ks, hist: hist, strs: map[uint64]*strSeen{}, aps: map[apKey]*apSeen{}, secretNames: map[string]bool{}, opened: map[string]bool{}, maxLatest: -1}
}

func (j *Judge) half() int64 {
	h := j.hist / 2
	if h < 1 {
		h = 1
	}
	return h
}

func canonSTR(s *rSTR) string { b, _ := json.Marshal(s); return string(b) }
func canonAP(a *rAP) string {
	c := *a
	c.VrfProof = nil
	b, _ := json.Marshal(&c)
	return string(b)
}

// seeSTR checks a signed root and its agreement with all others seen.
func (j *Judge) seeSTR(x *Ex, s *rSTR) bool {
	if s == nil || s.Policies == nil {
		j.r.Fail("C01,C04,C05,C09", "str-incomplete", "incomplete signed root in the answer to %v", x)
		return false
	}
	c := canonSTR(s)
	if o := j.strs[s.Epoch]; o != nil {
		if o.canon != c {
			j.r.Fail("C04,C05,C01,C03", "str-differs", "two different signed roots for epoch %d: %s in the answer to %v, %s in the answer to %v", s.Epoch, o.canon, o.by, c, x)
			return false
		}
		return o.ok
	}
	o := &strSeen{c, s, x, true}
	j.strs[s.Epoch] = o
	if err := refSTR(j.ks.pub, s); err != nil {
		o.ok = false
		j.r.Fail("C04,C05", "str-invalid", "%v in the answer to %v", err, x)
		return false
	}
	if !bytes.Equal(s.Policies.VrfPublicKey, j.ks.vpub) {
		j.r.Fail("C13,C05,C04", "vrf-key-changed", "root of epoch %d announces another index key, in the answer to %v", s.Epoch, x)
	}
	if s.Policies.HashID != "SHAKE128" || s.Policies.Version == "" {
		j.r.Fail("C04", "str-policies", "root of epoch %d announces hash %q version %q", s.Epoch, s.Policies.HashID, s.Policies.Version)
	}
	if p := j.strs[s.Epoch-1]; s.Epoch > 0 && p != nil {
		if err := refChain(p.s, s); err != nil {
			j.r.Fail("C04,C05,C24", "str-chain", "%v (answer to %v)", err, x)
		}
	}
	if n := j.strs[s.Epoch+1]; n != nil {
		if err := refChain(s, n.s); err != nil {
			j.r.Fail("C04,C05,C24", "str-chain", "%v (answer to %v)", err, x)
		}
	}
	if s.Epoch == 0 && j.init != nil && canonSTR(j.init) != c {
		j.r.Fail("C27,C04", "init-differs", "the saved initial root is not the root served for epoch 0 (answer to %v): saved %s, served %s", x, canonSTR(j.init), c)
	}
	return true
}

// seeAP checks a proof about name in the snapshot s.
func (j *Judge) seeAP(x *Ex, s *rSTR, ap *rAP, hist bool) (*apSeen, bool) {
	props := "C01,C02,C05"
	if hist {
		props = "C03,C05,C01"
		if j.hist < 100 {
			props += ",C24"
		}
	}
	inc, key, err := refAP(s, ap, x.Name)
	if err != nil {
		j.r.Fail(props, "proof-invalid", "%v: proof for epoch %d in the answer to %v", err, s.Epoch, x)
		return nil, false
	}
	if !bytes.Equal(ap.LookupIndex, refIndex(j.ks.vrf, x.Name)) {
		j.r.Fail("C22,C13", "index-differs", "private index of %q is not the one under the server's key: %v", x.Name, x)
	}
	if !inc && ap.Leaf.Commitment != nil && ap.Leaf.Commitment.Salt != nil {
		j.r.Fail("C22", "absence-opening", "proof of absence with a commitment opening in the answer to %v", x)
	}
	a := &apSeen{canon: canonAP(ap), inc: inc, key: key, nonce: ap.TreeNonce, by: x}
	if inc {
		a.salt = ap.Leaf.Commitment.Salt
		a.val = ap.Leaf.Commitment.Value
		if len(a.salt) < 16 {
			j.r.Fail("C22", "salt-short", "commitment salt of %d bytes: %v", len(a.salt), x)
		}
	}
	k := apKey{x.Name, s.Epoch}
	if o := j.aps[k]; o != nil {
		if o.canon != a.canon {
			j.r.Fail("C03,C01,C25", "past-changed", "the proof about %q in epoch %d differs between %v and %v", x.Name, s.Epoch, o.by, x)
		}
	} else {
		j.aps[k] = a
		if id := x.Name + "\x00" + string(a.salt); inc && !j.opened[id] {
			j.opened[id] = true
			j.openings = append(j.openings, opening{x.Name, base64.StdEncoding.EncodeToString(a.salt)})
		}
	}
	return a, true
}

// Add judges one exchange on its own.
func (j *Judge) Add(x *Ex) {
	j.exs = append(j.exs, x)
	x.Latest = -1
	if x.Raw == nil && x.Err != "" || x.Lost {
		x.Lost = true
		if x.Must {
			j.r.Fail("C09,C01,C11", "no-answer", "no answer (%s) to %v", x.Err, x)
			if !x.AllowReg && x.Kind != "reg" {
				j.r.Fail("C10", "no-answer", "no answer (%s) to %v", x.Err, x)
			}
			if x.Kind == "lookep" || x.Kind == "mon" || x.Kind == "hist" {
				j.r.Fail("C24", "no-answer", "no answer (%s) to %v", x.Err, x)
			}
		}
		return
	}
	resp, err := parseAnswer(x.Raw)
	if err != nil {
		x.Lost = true
		if !x.Faulted {
			j.r.Fail("C09,C01,C11", "bad-answer", "%v: answer to %v (%s)", err, x, x.Err)
		}
		return
	}
	x.Resp = resp
	if x.Kind == "raw" {
		if resp.Error < codeUnknown || resp.Proof != nil {
			j.r.Fail("C09", "malformed-accepted", "malformed or unsupported request %q was answered with %s", trunc(x.Name), codeName(resp.Error))
		}
		return
	}
	j.secrets(x)
	p := resp.Proof
	errAnswer := resp.Error >= codeUnknown
	if errAnswer && p != nil {
		j.r.Fail("C01,C09", "error-with-proof", "error answer with proofs to %v", x)
		return
	}
	if !errAnswer && p == nil {
		j.r.Fail("C01,C09", "no-proof", "answer without proofs to %v", x)
		return
	}
	switch x.Kind {
	case "reg":
		if !x.AllowReg {
			if !errAnswer {
				j.r.Fail("C10", "registration-on-read-only", "%v was carried out on a read-only address", x)
			}
			return
		}
		if x.Name == "" || len(x.Key) == 0 {
			if !errAnswer {
				j.r.Fail("C09,C01", "malformed-accepted", "incomplete registration accepted: %v", x)
			}
			return
		}
		if errAnswer {
			if x.Outage == 0 {
				j.r.Fail("C01,C09,C23,C05", "unexpected-error", "%v", x)
			}
			return
		}
	case "look":
		if x.Name == "" {
			if !errAnswer {
				j.r.Fail("C09,C01", "malformed-accepted", "%v", x)
			}
			return
		}
		if errAnswer {
			j.r.Fail("C01,C09,C10,C05,C24", "unexpected-error", "%v", x)
			return
		}
	case "lookep", "mon", "hist":
		j.histAnswer(x, resp)
		return
	}
	// registrations and current lookups
	if len(p.AP) != 1 || len(p.STR) != 1 || p.AP[0] == nil {
		j.r.Fail("C01,C09,C04", "answer-shape", "%d proofs and %d roots in the answer to %v", len(p.AP), len(p.STR), x)
		return
	}
	s := p.STR[0]
	if !j.seeSTR(x, s) {
		return
	}
	x.Latest = int64(s.Epoch)
	a, ok := j.seeAP(x, s, p.AP[0], false)
	if !ok {
		return
	}
	if p.TB != nil {
		if err := refTB(j.ks.pub, s, p.TB); err != nil {
			j.r.Fail("C01,C02,C05", "promise-invalid", "%v in the answer to %v", err, x)
			return
		}
		if !bytes.Equal(p.TB.Index, p.AP[0].LookupIndex) {
			j.r.Fail("C01,C02,C05", "promise-invalid", "promise for another index in the answer to %v", x)
			return
		}
		if a.inc {
			j.r.Fail("C01,C02", "promise-and-inclusion", "both promise and inclusion in the answer to %v", x)
			return
		}
	}
	switch {
	case a.inc:
		x.Bound = a.key
	case p.TB != nil:
		x.Bound = p.TB.Value
		if x.Bound == nil {
			x.Bound = []byte{}
		}
	default:
		x.Unbound = true
	}
	switch x.Kind {
	case "reg":
		switch resp.Error {
		case codeOK:
			if a.inc || p.TB == nil {
				j.r.Fail("C01,C02,C05", "registration-proof", "successful registration without promise: %v", x)
				return
			}
			if !bytes.Equal(p.TB.Value, x.Key) {
				j.r.Fail("C02,C05,C01", "registration-key", "registration succeeded with another key: %v", x)
				return
			}
		case codeExisted:
			if x.Unbound {
				j.r.Fail("C01,C02,C05", "existed-without-evidence", "%v shows no binding", x)
				return
			}
		default:
			j.r.Fail("C01,C02", "code", "unexpected code in %v", x)
		}
		if x.Outage == 2 && resp.Error == codeOK {
			j.r.Fail("C23", "registered-without-randomness", "%v succeeded while randomness was unavailable", x)
		}
	case "look":
		if (resp.Error == codeOK) != !x.Unbound || resp.Error == codeExisted {
			j.r.Fail("C01,C02,C05", "code", "%v contradicts its proofs (bound: %v)", x, !x.Unbound)
		}
	}
	j.r.res.Nontrivial = true
}

// histAnswer judges answers about past epochs.
func (j *Judge) histAnswer(x *Ex, resp *rResp) {
	p := resp.Proof
	allowed := x.Kind != "hist" || x.AllowHist
	if !allowed {
		if resp.Error < codeUnknown {
			j.r.Fail("C10", "unsupported-served", "%v", x)
		}
		return
	}
	if x.Kind != "hist" && x.Name == "" || (x.Kind != "lookep" && x.Ep > x.End) {
		if resp.Error < codeUnknown {
			j.r.Fail("C09,C24,C01", "malformed-accepted", "%v", x)
		}
		return
	}
	if resp.Error >= codeUnknown {
		return // judged in Final, when the epoch bounds are known
	}
	var want int
	switch x.Kind {
	case "lookep":
		want = 1
	case "mon":
		want = len(p.STR)
	}
	if len(p.AP) != want || len(p.STR) == 0 || p.TB != nil {
		j.r.Fail("C01,C24,C04", "answer-shape", "%d proofs and %d roots in the answer to %v", len(p.AP), len(p.STR), x)
		return
	}
	for i, s := range p.STR {
		if s == nil || s.Epoch != x.Ep+uint64(i) {
			j.r.Fail("C04,C24,C01", "range", "root %d of the answer to %v is not that of epoch %d", i, x, x.Ep+uint64(i))
			return
		}
		if !j.seeSTR(x, s) {
			return
		}
	}
	last := int64(p.STR[len(p.STR)-1].Epoch)
	if x.Kind != "lookep" && uint64(last) > x.End {
		j.r.Fail("C04,C24", "range", "answer to %v reaches epoch %d", x, last)
		return
	}
	x.Latest = -1
	if x.Kind == "lookep" || uint64(last) < x.End {
		x.Latest = last
	}
	for i, ap := range p.AP {
		s := p.STR[i]
		if ap == nil {
			j.r.Fail("C24,C01", "answer-shape", "missing proof in the answer to %v", x)
			return
		}
		a, ok := j.seeAP(x, s, ap, true)
		if !ok {
			return
		}
		if x.Kind == "lookep" && (resp.Error == codeOK) != a.inc {
			j.r.Fail("C03,C01", "code", "%v contradicts its proof", x)
		}
	}
	if resp.Error != codeOK && !(x.Kind == "lookep" && resp.Error == codeNotFound) {
		j.r.Fail("C01", "code", "unexpected code in %v", x)
	}
	j.r.res.Nontrivial = true
}

// secrets scans an answer for other users' data.
func (j *Judge) secrets(x *Ex) {
	raw := string(x.Raw)
	for _, n := range sortedKeys(j.secretNames) {
		if n != x.Name && len(n) >= 8 && !strings.Contains(x.Name, n) && (strings.Contains(raw, n) || strings.Contains(raw, strings.TrimRight(base64.StdEncoding.EncodeToString([]byte(n)), "="))) {
			j.r.Fail("C22", "name-leak", "the answer to %v contains the name %q", x, n)
		}
	}
	for _, o := range j.exs {
		if o.Kind == "reg" && o.Name != x.Name && len(o.Key) >= 8 && !bytes.Equal(o.Key, x.Key) {
			if strings.Contains(raw, base64.StdEncoding.EncodeToString(o.Key)) {
				j.r.Fail("C22", "key-leak", "the answer to %v contains the key of %q", x, o.Name)
			}
		}
	}
	for _, s := range j.openings {
		if s.name != x.Name && strings.Contains(raw, s.enc) {
			j.r.Fail("C22", "salt-leak", "the answer to %v contains the commitment opening of %q", x, s.name)
		}
	}
}

type nameInfo struct {
	reg     int64 // epoch of the registration, -1 unknown
	lo, hi  int64 // bounds if unknown: lo <= reg <= hi
	key     []byte
	bound   bool
	succ    *Ex
	source  *Ex
	attempt []*Ex
}

// Final judges the whole history.
func (j *Judge) Final() map[string]*nameInfo {
	r := j.r
	done := make([]*Ex, 0, len(j.exs))
	for _, x := range j.exs {
		if !x.Lost && x.Latest >= 0 {
			done = append(done, x)
			if x.Latest > j.maxLatest {
				j.maxLatest = x.Latest
			}
		}
	}
	// epochs never go back in real time
	byRet := append([]*Ex(nil), done...)
	sort.Slice(byRet, func(a, b int) bool { return byRet[a].SRet < byRet[b].SRet })
	byInv := append([]*Ex(nil), done...)
	sort.Slice(byInv, func(a, b int) bool { return byInv[a].SInv < byInv[b].SInv })
	{
		i := 0
		var best *Ex
		for _, x := range byInv {
			for i < len(byRet) && byRet[i].SRet < x.SInv {
				if best == nil || byRet[i].Latest > best.Latest {
					best = byRet[i]
				}
				i++
			}
			if best != nil && best.Latest > x.Latest {
				r.Fail("C01,C04,C02", "epoch-went-back", "%v was answered before %v", best, x)
				break
			}
		}
	}
	// bounds on the latest epoch around an exchange
	loAt := func(x *Ex) int64 { // known at invocation
		b := int64(0)
		for _, o := range done {
			if o.SRet < x.SInv && o.Latest > b {
				b = o.Latest
			}
		}
		return b
	}
	hiAt := func(x *Ex) int64 { // possible at return
		b := int64(math.MaxInt64)
		for _, o := range done {
			if o.SInv > x.SRet && o.Latest < b {
				b = o.Latest
			}
		}
		return b
	}
	for _, x := range j.exs {
		if x.Lost || x.Resp == nil || (x.Kind != "lookep" && x.Kind != "mon" && x.Kind != "hist") || (x.Kind == "hist" && !x.AllowHist) {
			continue
		}
		if x.Kind != "hist" && x.Name == "" || (x.Kind != "lookep" && x.Ep > x.End) {
			continue
		}
		if x.Resp.Error >= codeUnknown {
			lo, hi := loAt(x), hiAt(x)
			if x.Ep <= uint64(math.MaxInt64) && int64(x.Ep) <= lo {
				// the epoch had begun: only eviction excuses an error
				if hi != math.MaxInt64 && int64(x.Ep) > hi-j.half() {
					r.Fail("C24,C01,C03,C10", "history-refused", "%v although epoch %d is among the most recent %d of %d (at most %d)", x, x.Ep, j.half(), j.hist, hi)
				}
				if j.hist >= 100 && hi < j.hist {
					r.Fail("C01,C03,C10,C24", "history-refused", "%v although every epoch is retained", x)
				}
			}
		} else if x.Kind == "mon" || x.Kind == "hist" {
			// capped at the latest epoch
			last := int64(x.Ep) + int64(len(x.Resp.Proof.STR)) - 1
			if uint64(last) < x.End && last < loAt(x) {
				r.Fail("C04,C24,C01", "range-short", "%v stops at epoch %d although epoch %d had begun", x, last, loAt(x))
			}
			hi := hiAt(x)
			if last > hi {
				r.Fail("C04,C01", "range-long", "%v reaches epoch %d although epoch %d was still the latest afterwards", x, last, hi)
			}
		}
	}
	j.done = done
	infos := j.bindings(done)
	j.leaves(infos)
	if j.useTime {
		j.cadence(done)
	}
	return infos
}

// bindings checks, per name, that the answers are those of a write-once
// register with a snapshot at every epoch.
func (j *Judge) bindings(done []*Ex) map[string]*nameInfo {
	r := j.r
	infos := map[string]*nameInfo{}
	get := func(n string) *nameInfo {
		if infos[n] == nil {
			infos[n] = &nameInfo{reg: -1, hi: math.MaxInt64}
		}
		return infos[n]
	}
	for _, x := range j.exs {
		if x.Kind == "reg" && x.Name != "" {
			in := get(x.Name)
			in.attempt = append(in.attempt, x)
			if x.Resp != nil && x.Resp.Error == codeOK && x.Bound != nil {
				if in.succ != nil {
					r.Fail("C02,C01", "registered-twice", "%v and %v", in.succ, x)
				} else {
					in.succ = x
					in.bound = true
					in.key = x.Bound
					in.reg = x.Latest
					in.source = x
				}
			}
		}
	}
	var names []string
	for _, x := range j.exs {
		if x.Name != "" && x.Kind != "raw" {
			get(x.Name)
		}
	}
	for n := range infos {
		names = append(names, n)
	}
	sort.Strings(names)
	type snap struct {
		ep int64
		a  *apSeen
	}
	snaps := map[string][]snap{}
	for k, a := range j.aps {
		snaps[k.name] = append(snaps[k.name], snap{int64(k.ep), a})
	}
	for _, n := range names {
		in := infos[n]
		var obs []*Ex
		for _, x := range done {
			if x.Name == n && (x.Unbound || x.Bound != nil) {
				obs = append(obs, x)
			}
		}
		sort.Slice(obs, func(a, b int) bool { return obs[a].SRet < obs[b].SRet })
		sn := snaps[n]
		sort.Slice(sn, func(a, b int) bool { return sn[a].ep < sn[b].ep })
		claim := func(key []byte, src *Ex, hist bool) bool {
			props := "C02,C01"
			if hist {
				props = "C03,C02"
			}
			if in.bound {
				if !bytes.Equal(key, in.key) {
					r.Fail(props+",C25", "key-changed", "%q is bound to %q in %v and to %q in %v", n, trunc(string(in.key)), in.source, trunc(string(key)), src)
					return false
				}
				return true
			}
			// not acknowledged: must stem from an attempt whose answer was lost
			var from *Ex
			for _, a := range in.attempt {
				if bytes.Equal(a.Key, key) && (from == nil || (a.AllowReg && !from.AllowReg) || (a.AllowReg == from.AllowReg && a.Lost && !from.Lost)) {
					from = a
				}
			}
			switch {
			case from == nil:
				r.Fail(props+",C25", "never-registered", "%q is bound to %q in %v but was never registered so", n, trunc(string(key)), src)
				return false
			case !from.AllowReg:
				r.Fail("C10", "registration-on-read-only", "%v took effect: %v", from, src)
				return false
			case from.Lost:
			case from.Outage > 0 && from.Resp != nil && from.Resp.Error >= codeUnknown:
				r.Fail("C23,C02", "failed-registration-took-effect", "%v took effect: %v", from, src)
				return false
			default:
				r.Fail("C02,C01,C23", "refused-registration-took-effect", "%v took effect: %v", from, src)
				return false
			}
			in.bound, in.key, in.source = true, key, from
			return true
		}
		// promises first: they date the registration
		okAll := true
		for _, x := range obs {
			if x.Bound != nil {
				if !claim(x.Bound, x, false) {
					okAll = false
					break
				}
				if a := j.aps[apKey{n, uint64(x.Latest)}]; a != nil && !a.inc && in.reg < 0 {
					in.reg = x.Latest
				}
			}
		}
		if !okAll {
			continue
		}
		for _, s := range sn {
			if s.a.inc {
				if !claim(s.a.key, s.a.by, true) {
					okAll = false
					break
				}
			}
		}
		if !okAll {
			continue
		}
		if in.bound && in.reg < 0 { // bounds from the snapshots
			for _, s := range sn {
				if s.a.inc && s.ep-1 < in.hi {
					in.hi = s.ep - 1
				}
			}
			for _, s := range sn {
				if !s.a.inc && s.ep > in.lo {
					if s.ep > in.hi {
						r.Fail("C02,C03", "binding-vanished", "%q is in the snapshot of epoch %d and not in that of epoch %d (%v)", n, in.hi+1, s.ep, s.a.by)
					} else {
						in.lo = s.ep
					}
				}
			}
			if in.lo == in.hi {
				in.reg = in.lo
			}
		} else if in.bound {
			in.lo, in.hi = in.reg, in.reg
		}
		for _, s := range sn {
			switch {
			case s.a.inc && !in.bound:
			case s.a.inc && s.ep <= in.lo:
				r.Fail("C03,C02,C25", "early-inclusion", "%q, registered in epoch %d (%v), is already in the snapshot of epoch %d (%v)", n, in.lo, in.source, s.ep, s.a.by)
			case !s.a.inc && in.bound && s.ep > in.hi:
				r.Fail("C02,C03,C01,C25", "binding-missing", "%q, registered in epoch %d (%v), is not in the snapshot of epoch %d (%v)", n, in.hi, in.source, s.ep, s.a.by)
			}
		}
		// order of the observations
		var firstBound, lastUnbound *Ex
		for _, x := range obs { // by return
			if x.Bound != nil && firstBound == nil {
				firstBound = x
			}
			if x.Unbound && (lastUnbound == nil || x.SInv > lastUnbound.SInv) {
				lastUnbound = x
			}
			if x.Bound != nil && in.bound && x.Latest < in.lo {
				r.Fail("C02,C01", "bound-early", "%v shows the binding registered in epoch %d", x, in.lo)
			}
			if x.Unbound && in.bound && x.Latest > in.hi {
				r.Fail("C02,C01,C05", "promise-forgotten", "%v does not show the binding registered in epoch %d (%v)", x, in.hi, in.source)
			}
			if a := j.aps[apKey{n, uint64(x.Latest)}]; x.Bound != nil && a != nil && !a.inc && in.reg >= 0 && x.Latest != in.reg {
				r.Fail("C02,C01", "promise-late", "%v shows a promise outside the epoch %d of the registration", x, in.reg)
			}
		}
		if firstBound != nil && lastUnbound != nil && firstBound.SRet < lastUnbound.SInv {
			r.Fail("C02,C01,C05", "promise-forgotten", "%v was answered before %v was sent", firstBound, lastUnbound)
		}
		if in.succ != nil {
			for _, x := range obs {
				if x != in.succ && x.Bound != nil && x.SRet < in.succ.SInv {
					r.Fail("C01,C02", "bound-before-registration", "%v was answered before %v was sent", x, in.succ)
				}
			}
		} else if in.bound {
			for _, x := range obs {
				if x.Bound != nil {
					early := true
					for _, a := range in.attempt {
						if bytes.Equal(a.Key, in.key) && a.SInv < x.SRet {
							early = false
						}
					}
					if early {
						r.Fail("C01,C02", "bound-before-registration", "%v was answered before any registration was sent", x)
					}
				}
			}
		}
		// a registration that was told "existed" needs an earlier binding
		for _, x := range obs {
			if x.Kind == "reg" && x.Resp.Error == codeExisted && in.bound && in.succ == nil && in.source == x {
				r.Fail("C02", "existed-without-evidence", "%v", x)
			}
		}
	}
	return infos
}

// leaves checks that every root commits to exactly the registered bindings.
func (j *Judge) leaves(infos map[string]*nameInfo) {
	r := j.r
	type leafc struct{ salt, val []byte }
	leaf := map[string]leafc{}
	var nonce []byte
	salts := map[string]string{}
	for _, k := range j.apKeys() {
		a := j.aps[k]
		if nonce == nil {
			nonce = a.nonce
			if len(nonce) < 16 {
				r.Fail("C22", "nonce-short", "tree nonce of %d bytes: %v", len(nonce), a.by)
			}
		} else if !bytes.Equal(nonce, a.nonce) {
			r.Fail("C25", "nonce-changed", "the tree nonce changed: %v", a.by)
			return
		}
		if !a.inc {
			continue
		}
		if l, ok := leaf[k.name]; ok {
			if !bytes.Equal(l.val, a.val) || !bytes.Equal(l.salt, a.salt) {
				r.Fail("C25,C03", "leaf-changed", "the leaf of %q changed by epoch %d (%v)", k.name, k.ep, a.by)
				return
			}
		} else {
			leaf[k.name] = leafc{a.salt, a.val}
			if o, dup := salts[string(a.salt)]; dup {
				r.Fail("C22", "salt-reused", "%q and %q use the same commitment salt", k.name, o)
			}
			salts[string(a.salt)] = k.name
		}
	}
	j.noteRandom(nonce, salts)
	if j.noC25 || nonce == nil {
		return
	}
	// only when every name's state is known
	var names []string
	for n := range infos {
		names = append(names, n)
	}
	sort.Strings(names)
	var eps []uint64
	for e := range j.strs {
		eps = append(eps, e)
	}
	sort.Slice(eps, func(a, b int) bool { return eps[a] < eps[b] })
	for _, e := range eps {
		s := j.strs[e]
		if !s.ok {
			continue
		}
		t := &refTree{nonce: nonce}
		known := true
		for _, n := range names {
			in := infos[n]
			if !in.bound {
				if j.undetermined(n, in, int64(e)) {
					known = false
					break
				}
				continue
			}
			if in.lo < int64(e) && in.hi >= int64(e) {
				known = false
				break
			}
			if in.hi < int64(e) {
				l, ok := leaf[n]
				if !ok {
					known = false
					break
				}
				t.leaves = append(t.leaves, refLeaf{refIndex(j.ks.vrf, n), l.val})
			}
		}
		if !known {
			r.w.Probe("root-undetermined")
			continue
		}
		r.w.Probe("root-recomputed")
		if r.Prop == "C25" && len(t.leaves) > 0 {
			r.res.Nontrivial = true
		}
		if !bytes.Equal(t.root(), s.s.TreeHash) {
			var ls []string
			for _, n := range names {
				if infos[n].bound && infos[n].hi < int64(e) {
					ls = append(ls, fmt.Sprintf("%q", trunc(n)))
				}
			}
			r.Fail("C25", "root-mismatch", "the root of epoch %d is not the root of the tree of the registered names %s", e, strings.Join(ls, " "))
			return
		}
	}
}

// undetermined reports whether an attempt on a name not known to be bound
// could have taken effect before epoch e.
func (j *Judge) undetermined(n string, in *nameInfo, e int64) bool {
	lost := false
	for _, a := range in.attempt {
		if a.Lost && a.AllowReg {
			lost = true
		}
	}
	if !lost {
		return false
	}
	for ep := e; ep <= j.maxLatest; ep++ {
		if a := j.aps[apKey{n, uint64(ep)}]; a != nil && !a.inc {
			return false
		}
	}
	return true
}

func (j *Judge) apKeys() []apKey {
	var ks []apKey
	for k := range j.aps {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool {
		if ks[a].ep != ks[b].ep {
			return ks[a].ep < ks[b].ep
		}
		return ks[a].name < ks[b].name
	})
	return ks
}

// noteRandom compares the random values of this directory with those of the
// others in the same run.
func (j *Judge) noteRandom(nonce []byte, salts map[string]string) {
	r := j.r
	if r.seen == nil {
		r.seen = map[string]string{}
	}
	if nonce != nil {
		if o, dup := r.seen[string(nonce)]; dup {
			r.Fail("C22", "random-reused", "the tree nonce is also the %s", o)
		}
		r.seen[string(nonce)] = "tree nonce of a directory"
	}
	var ks []string
	for s := range salts {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for _, s := range ks {
		if o, dup := r.seen[s]; dup {
			r.Fail("C22", "random-reused", "the salt of %q is also the %s", salts[s], o)
		}
		r.seen[s] = fmt.Sprintf("salt of %q", salts[s])
	}
}

// ticks bounds the instants of the epoch changes: change e happened after
// lo[e] and before hi[e].
func (j *Judge) ticks(done []*Ex, n int64) (lo, hi []int64, byLo, by []*Ex) {
	lo = make([]int64, n+2)
	hi = make([]int64, n+2)
	by = make([]*Ex, n+2)
	byLo = make([]*Ex, n+2)
	for e := int64(0); e <= n+1; e++ {
		lo[e], hi[e] = j.start, math.MaxInt64
		for _, x := range done {
			if x.Latest >= e && x.TRet < hi[e] {
				hi[e] = x.TRet
				by[e] = x
			}
			if x.Latest < e && x.TInv > lo[e] {
				lo[e] = x.TInv
				byLo[e] = x
			}
		}
	}
	return
}

// cadence checks when epochs changed against the announced deadlines.
func (j *Judge) cadence(done []*Ex) {
	r := j.r
	if j.maxLatest < 0 {
		return
	}
	const slack = 300 * ms
	n := j.maxLatest
	lo, hi, byLo, by := j.ticks(done, n)
	dl := func(e int64) int64 {
		if s := j.strs[uint64(e)]; s != nil && s.ok {
			d := s.s.Policies.EpochDeadline
			if d > 1<<32 {
				return -1
			}
			return int64(d) * sec
		}
		return -1
	}
	// never early
	for e := int64(0); e < n; e++ {
		d := dl(e)
		if d >= 0 && hi[e+1] != math.MaxInt64 && hi[e+1] < lo[e]+d {
			ids := "C12"
			if j.stopAt != 0 && by[e+1].TRet > j.stopAt {
				ids = "C11,C12"
			}
			r.Fail(ids, "epoch-early", "epoch %d lasted at most %.6fs, its root announces %.0fs (%v; %v)", e, float64(hi[e+1]-lo[e])/1e9, float64(d)/1e9, byLo[e], by[e+1])
			return
		}
		if d >= 0 && e+1 <= n {
			// tick e+1 is at least d after tick e
			if lo[e]+d > lo[e+1] {
				lo[e+1] = lo[e] + d
			}
		}
	}
	if !j.calm {
		return
	}
	// never late: by e's upper bound plus deadline plus slack, e+1 is there
	up := hi[0]
	if up == math.MaxInt64 {
		return
	}
	for e := int64(0); ; e++ {
		if e <= n && hi[e] < up {
			up = hi[e]
		}
		d := dl(e)
		if d < 0 {
			return
		}
		next := up + d + slack
		for _, x := range done {
			if x.TInv > next && x.Latest <= e && (j.stopAt == 0 || x.TInv < j.stopAt) {
				r.Fail("C12,C02", "epoch-late", "epoch %d began by %.6fs and announces %.0fs, yet it is the latest in %v", e, float64(up)/1e9, float64(d)/1e9, x)
				return
			}
		}
		up = next
		if e >= n {
			return
		}
	}
}
