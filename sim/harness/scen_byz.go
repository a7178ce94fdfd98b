package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"verif.sim/refvrf"
)

// Scenario "byz": clients of the real library against a directory that is
// honest for a while and then anything but, over a network that damages,
// repeats, reorders and mixes up its answers.

// refClient is the reference model of a client's state.
type refClient struct {
	cc    *client.ConsistencyChecks
	cur   *rSTR
	pins  map[string][]byte
	tbs   map[string]heldTB
	clean bool // saw only one consistent history
	world int
}
type heldTB struct {
	value []byte
	epoch uint64
}

type byz struct {
	r     *Run
	ks    *keyset
	alien *keyset
	ws    []*rDir
	wi    int
	cs    []*refClient
	names []string
	pool  [][]byte
	taint []bool // world changed in a way no honest directory would
	n     int
}

// verdict is what the evidence in an answer supports.
type verdict struct {
	parse   error
	resp    *rResp
	shape   error
	strErr  error
	reasons []string // why it must not be accepted
	tags    []string
	broken  string // the held promise is not honoured
	substit bool
	differs bool // proves another key than expected
	bound   []byte
	only    string
}

func (v *verdict) no(tag, f string, a ...interface{}) {
	v.reasons = append(v.reasons, fmt.Sprintf(f, a...))
	v.tags = append(v.tags, tag)
}

func respShape(p *rResp) error {
	if p.Proof == nil {
		return fmt.Errorf("no directory response")
	}
	if len(p.Proof.AP) == 0 || len(p.Proof.STR) == 0 {
		return fmt.Errorf("no proof or no signed root")
	}
	for _, s := range p.Proof.STR {
		if s == nil || s.Policies == nil {
			return fmt.Errorf("incomplete signed root")
		}
	}
	for _, a := range p.Proof.AP {
		if a == nil || a.Leaf == nil || len(a.LookupIndex) != 32 || len(a.TreeNonce) != 32 || int(a.Leaf.Level) != len(a.PrunedTree) || len(a.PrunedTree) > 256 {
			return fmt.Errorf("incomplete proof")
		}
		if !a.Leaf.IsEmpty && (a.Leaf.Commitment == nil || len(a.Leaf.Index) != 32) {
			return fmt.Errorf("incomplete leaf")
		}
	}
	return nil
}

// judgeAnswer evaluates an answer against what client c has verified.
func (b *byz) judgeAnswer(c *refClient, typ int, raw []byte, name string, key []byte) *verdict {
	v := &verdict{}
	v.resp, v.parse = parseAnswer(raw)
	if v.parse != nil {
		v.no("C08", "%v", v.parse)
		return v
	}
	p := v.resp
	if p.Error >= codeErrDir && p.Error <= codeMalformed {
		v.no("C08", "it is the error %s", codeName(p.Error))
		v.shape = fmt.Errorf("error answer")
		return v
	}
	if v.shape = respShape(p); v.shape != nil {
		v.no("C08", "it is incomplete: %v", v.shape)
		return v
	}
	// the root
	s := p.Proof.STR[0]
	switch {
	case canonSTR(s) == canonSTR(c.cur):
	case s.Epoch == c.cur.Epoch+1:
		v.strErr = refSTR(b.ks.pub, s)
		if v.strErr == nil {
			v.strErr = refChain(c.cur, s)
		}
	case s.Epoch == c.cur.Epoch:
		v.strErr = fmt.Errorf("another root than the verified one of epoch %d", s.Epoch)
	default:
		v.strErr = fmt.Errorf("root of epoch %d after %d", s.Epoch, c.cur.Epoch)
	}
	if v.strErr != nil {
		v.no("C07", "%v", v.strErr)
	}
	if len(p.Proof.STR) != 1 || len(p.Proof.AP) != 1 {
		v.no("C06", "%d proofs and %d signed roots", len(p.Proof.AP), len(p.Proof.STR))
	}
	switch {
	case p.Error == codeOK, p.Error == codeExisted && typ == protocol.RegistrationType, p.Error == codeNotFound && typ == protocol.KeyLookupType:
	default:
		v.no("C06", "code %d is no answer to this request", p.Error)
	}
	ap := p.Proof.AP[0]
	included, got, err := refAP(s, ap, name)
	if err != nil {
		v.no("C06", "%v", err)
		return v
	}
	tb := p.Proof.TB
	absent := false
	switch {
	case included:
		if p.Error == codeNotFound || typ == protocol.RegistrationType && p.Error == codeOK {
			v.no("C06", "%s with a proof of presence", codeName(p.Error))
		}
		if tb != nil {
			v.no("C06", "a promise along with a proof of presence")
		}
		v.bound = got
	case p.Error == codeNotFound:
		absent = true
		if tb != nil {
			v.no("C06", "a promise along with NameNotFound")
		}
	case tb == nil:
		v.no("C06", "neither presence nor a promise")
		absent = true
	default:
		if err := refTB(b.ks.pub, s, tb); err != nil {
			v.no("C06", "%v", err)
		}
		if !bytes.Equal(tb.Index, ap.LookupIndex) {
			v.no("C06", "the promise is for another index")
		}
		v.bound = tb.Value
	}
	want := key
	if want == nil {
		want = c.pins[name]
	}
	if !absent {
		if want != nil && !bytes.Equal(v.bound, want) {
			v.differs = true
		}
		if pin := c.pins[name]; pin != nil && !bytes.Equal(pin, v.bound) {
			v.differs, v.substit = true, true
		}
	}
	others := len(v.reasons) == 0
	// promises and pins
	held, isHeld := c.tbs[name]
	switch {
	case isHeld && included && !bytes.Equal(held.value, v.bound):
		v.broken = "another key was included"
	case isHeld && !included && s.Epoch > held.epoch:
		v.broken = "it is still absent"
	case isHeld && !included && absent:
		v.no("C07", "the name is absent although a promise for it was made with this root")
	case isHeld && !included && !bytes.Equal(held.value, v.bound):
		v.no("C07", "a second promise with another key")
	case !isHeld && c.pins[name] != nil && !included:
		v.no("C07", "the name is absent although it was bound before")
	}
	if v.broken != "" {
		v.no("C07", "a promise was broken: %s", v.broken)
		if !others {
			v.broken = ""
		}
	}
	if v.differs {
		tag := "C06"
		if v.substit {
			tag = "C06,C07"
		}
		if v.substit {
			want = c.pins[name]
		}
		v.no(tag, "it binds key %q, not %q", trunc(string(v.bound)), trunc(string(want)))
	}
	return v
}

// ask delivers one answer to a client and judges its reaction.
func (b *byz) ask(ci int, typ int, raw []byte, name string, key []byte, honest bool, how string) {
	r := b.r
	c := b.cs[ci]
	v := b.judgeAnswer(c, typ, raw, name, key)
	var err error
	var got []byte
	crashed := false
	oldSTR := strJSON(c.cc.VerifiedSTR())
	oldPins, oldTBs := fmt.Sprint(c.cc.Bindings), fmt.Sprint(len(c.cc.TBs))
	_ = oldTBs
	what := fmt.Sprintf("%s answer (%s) to %s of %q", how, trunc(string(raw)), []string{"a registration", "a lookup"}[typ], trunc(name))
	func() {
		defer func() {
			if p := recover(); p != nil {
				crashed = true
				r.Fail("C08", "panic", "the client crashed on the %s: %v", what, p)
			}
		}()
		res := application.UnmarshalResponse(typ, raw)
		err = c.cc.HandleResponse(typ, res, name, key)
		if err == nil {
			got, _ = res.GetKey()
		} else {
			res.GetKey()
			_ = err.Error()
		}
	}()
	b.n++
	if crashed {
		// what the client keeps is unknown from here on
		b.cs[ci] = b.newClient(c.world)
		return
	}
	r.w.Event("ask %s ok=%v err=%v", how, len(v.reasons) == 0, err)
	newSTR := strJSON(c.cc.VerifiedSTR())
	if newSTR != oldSTR {
		s := new(rSTR)
		json.Unmarshal([]byte(newSTR), s)
		var e error
		if e = refSTR(b.ks.pub, s); e == nil {
			e = refChain(c.cur, s)
		}
		if e != nil {
			r.Fail("C07,C06", "root-moved", "the verified root moved from epoch %d to an unverified one (%v) on the %s", c.cur.Epoch, e, what)
		}
		if v.parse != nil || v.shape != nil {
			r.Fail("C08,C07", "malformed-moved", "the verified root moved on the malformed %s", what)
		}
	}
	if err != nil && fmt.Sprint(c.cc.Bindings) != oldPins {
		r.Fail("C08,C07", "pins-changed", "the pinned keys changed although the %s was rejected (%v): %s before, %s after", what, err, oldPins, fmt.Sprint(c.cc.Bindings))
	}
	if err == nil && len(v.reasons) > 0 {
		tags := map[string]bool{"C06": true}
		for _, t := range v.tags {
			for _, q := range strings.Split(t, ",") {
				tags[q] = true
			}
		}
		class := "accepted"
		var ts []string
		for _, t := range []string{"C06", "C07", "C08"} {
			if tags[t] {
				ts = append(ts, t)
			}
		}
		r.Fail(strings.Join(ts, ","), class, "the client accepted the %s although %s", what, strings.Join(v.reasons, "; "))
		b.cs[ci] = b.newClient(c.world)
		return
	}
	if err == nil {
		r.w.Probe("accepted")
		if !bytes.Equal(got, v.bound) {
			r.Fail("C06,C05", "wrong-key", "the %s binds %q but the client reports %q", what, trunc(string(v.bound)), trunc(string(got)))
		}
		if v.resp.Error != codeNotFound && !bytes.Equal(c.cc.Bindings[name], v.bound) {
			r.Fail("C07,C05", "not-pinned", "the client accepted the %s but pinned %q", what, trunc(string(c.cc.Bindings[name])))
		}
	} else {
		r.w.Probe("rejected")
		if v.broken != "" {
			r.w.Probe("broken-promise")
			ok := err == protocol.CheckBrokenPromise || (v.differs || v.bound != nil && !bytes.Equal(v.bound, c.tbs[name].value)) && err == protocol.CheckBindingsDiffer
			if !ok {
				r.Fail("C07", "broken-promise-unreported", "the %s breaks a promise (%s); the client reports %q", what, v.broken, err)
			}
		}
		if honest && len(v.reasons) == 0 {
			r.Fail("C05", "honest-rejected", "the client rejected the honest %s: %v", what, err)
		}
		if honest && len(v.reasons) == 1 && v.differs && err != protocol.CheckBindingsDiffer {
			r.Fail("C05", "conflict-misreported", "the client reports %q for the honest %s, a name bound to another key", err, what)
		}
	}
	if honest {
		r.w.Probe("honest")
	}
	// the model's state
	if v.parse == nil && v.shape == nil && v.strErr == nil {
		if newSTR != strJSONr(v.resp.Proof.STR[0]) {
			if err == nil {
				r.Fail("C07,C05", "root-kept", "the client accepted the %s but still holds the root of epoch %d", what, c.cc.VerifiedSTR().Epoch)
			}
		} else {
			c.cur = v.resp.Proof.STR[0]
		}
	} else if newSTR != oldSTR {
		b.cs[ci] = b.newClient(c.world)
		return
	}
	if err == nil && v.resp.Error != codeNotFound {
		c.pins[name] = v.bound
		if v.resp.Proof.TB != nil {
			c.tbs[name] = heldTB{v.bound, v.resp.Proof.STR[0].Epoch}
		} else {
			delete(c.tbs, name)
		}
	}
}

func strJSON(s *protocol.DirSTR) string {
	j, err := json.Marshal(s)
	if err != nil || s == nil {
		return "nil"
	}
	x := new(rSTR)
	json.Unmarshal(j, x)
	return strJSONr(x)
}
func strJSONr(s *rSTR) string { return canonSTR(s) }

func (b *byz) newClient(world int) *refClient {
	w := b.ws[world%len(b.ws)]
	s := w.last()
	return &refClient{cc: client.New(toDirSTR(s), true, b.ks.pub), cur: copySTR(s), pins: map[string][]byte{}, tbs: map[string]heldTB{}, world: world}
}

func (b *byz) pooled(rng *rand.Rand) []byte {
	if len(b.pool) == 0 {
		return nil
	}
	return b.pool[rng.Intn(len(b.pool))]
}

func (b *byz) other(rng *rand.Rand, name string) string {
	for k := 0; k < 5; k++ {
		if n := b.names[rng.Intn(len(b.names))]; n != name {
			return n
		}
	}
	return name + "x"
}

// answer makes the honest answer.
func (b *byz) answer(w *rDir, typ int, name string, key []byte) *rResp {
	if typ == protocol.RegistrationType {
		return copyResp(w.register(name, key))
	}
	return copyResp(w.lookup(name))
}

// resign makes a root validly signed after its fields were changed.
func resign(k *keyset, s *rSTR) { s.Signature = ed25519.Sign(k.sign, s.serialize()) }

var byzActions = []string{"honest", "json", "json2", "bytes", "replay", "othername", "splice", "code", "tb", "str", "alien", "skip", "extra", "shift", "oldap", "leaf", "world", "future", "open", "pathbits", "resign", "evilroot", "evilroot", "under", "under"}

// craft turns the honest answer into what the adversary sends.
func (b *byz) craft(act string, rng *rand.Rand, typ int, name string, key []byte, res *rResp, c *refClient) []byte {
	w := b.ws[b.wi]
	p := res.Proof
	s, ap := p.STR[0], p.AP[0]
	switch act {
	case "json":
		return mutateJSON(res.wire(), rng, b.pool)
	case "json2":
		raw := res.wire()
		for i := 1 + rng.Intn(4); i > 0; i-- {
			raw = mutateJSON(raw, rng, b.pool)
		}
		return raw
	case "bytes":
		return mutateBytes(res.wire(), rng, b.pool)
	case "replay":
		if q := b.pooled(rng); q != nil {
			return q
		}
	case "othername":
		o := b.other(rng, name)
		q := b.answer(w, protocol.KeyLookupType, o, nil)
		switch rng.Intn(5) {
		case 0:
			res.Proof = q.Proof
		case 1: // its index and VRF proof with our path
			ap.LookupIndex, ap.VrfProof = q.Proof.AP[0].LookupIndex, q.Proof.AP[0].VrfProof
		case 2: // its path under our index
			x := q.Proof.AP[0]
			x.LookupIndex, x.VrfProof = ap.LookupIndex, ap.VrfProof
			p.AP[0] = x
			if rng.Intn(2) == 0 {
				x.Leaf.Value = nil
			}
		case 3: // its whole path, our VRF proof
			x := q.Proof.AP[0]
			x.VrfProof = ap.VrfProof
			p.AP[0] = x
		case 4: // a name of the adversary's choice with a claim that fits
			res = q
		}
		if rng.Intn(2) == 0 {
			res.Error = []int{codeOK, codeExisted, codeNotFound}[rng.Intn(3)]
		}
	case "splice":
		raw := res.wire()
		t := parseTree(raw)
		for i := 1 + rng.Intn(2); i > 0; i-- {
			k := []string{"AP", "STR", "TB", "Leaf", "Commitment", "VrfProof", "LookupIndex", "PrunedTree", "TreeNonce", "Signature", "Policies", "Value", "Index", "TreeHash", "PreviousSTRHash", "Salt", "Error"}[rng.Intn(17)]
			f := findKey(parseTree(b.pooled(rng)), k, nil)
			if len(f) == 0 {
				continue
			}
			var at []slot
			for _, q := range slots(t, nil, false) {
				if q.obj != nil && q.key == k {
					at = append(at, q)
				}
			}
			if len(at) > 0 {
				at[rng.Intn(len(at))].set(cloneTree(f[rng.Intn(len(f))]))
			}
		}
		x, _ := json.Marshal(t)
		return x
	case "code":
		res.Error = []int{codeOK, codeExisted, codeNotFound, codeUnknown, codeErrDir, codeErrAudit, codeMalformed, 0, 200, 206, 208, -1}[rng.Intn(12)]
	case "tb":
		if p.TB == nil || rng.Intn(4) == 0 {
			k := key
			if k == nil || rng.Intn(2) == 0 {
				k = []byte("promised-by-adversary")
			}
			p.TB = w.signTB(name, k, s)
			if rng.Intn(2) == 0 {
				res.Error = []int{codeOK, codeExisted}[rng.Intn(2)]
			}
			if rng.Intn(3) == 0 {
				break
			}
		}
		tb := p.TB
		switch rng.Intn(9) {
		case 0: // made with an older root
			old := w.strs[rng.Intn(len(w.strs))]
			p.TB = w.signTB(name, tb.Value, old)
		case 1: // for another name
			p.TB = w.signTB(b.other(rng, name), tb.Value, s)
		case 2:
			tb.Value = append([]byte("x"), tb.Value...)
		case 3: // signed by someone else
			m := append(append(append([]byte(nil), s.Signature...), tb.Index...), tb.Value...)
			tb.Signature = ed25519.Sign(b.alien.sign, m)
		case 4: // the boundary between index and key moved
			if len(tb.Value) > 1 {
				tb.Index = append(append([]byte(nil), tb.Index...), tb.Value[0])
				tb.Value = tb.Value[1:]
			}
		case 5:
			tb.Value = append([]byte{tb.Index[31]}, tb.Value...)
			tb.Index = tb.Index[:31]
		case 6: // another key, properly signed
			p.TB = w.signTB(name, []byte("other-key"), s)
		case 7:
			p.TB = nil
		case 8:
			p.TB = w.signTB(name, nil, s)
		}
	case "str":
		switch rng.Intn(12) {
		case 0:
			s.Epoch++
			s.PreviousEpoch++
		case 1:
			s.Epoch++
		case 2:
			s.PreviousEpoch--
		case 3:
			s.PreviousSTRHash = w.random()
		case 4:
			s.TreeHash = w.random()
		case 5:
			s.Policies.EpochDeadline++
		case 6:
			s.Policies.Version = "9.9"
		case 7:
			s.Policies.VrfPublicKey = b.alien.vpub
		case 8: // a boundary moved
			if len(s.PreviousSTRHash) > 0 {
				s.TreeHash = append(append([]byte(nil), s.TreeHash...), s.PreviousSTRHash[0])
				s.PreviousSTRHash = s.PreviousSTRHash[1:]
			}
		case 9: // links to a root the client did not see
			k := uint64(rng.Intn(len(w.strs)))
			s.PreviousSTRHash = refDigest(w.strs[k].Signature)
			s.PreviousEpoch = k
		case 10:
			s.Epoch = c.cur.Epoch + 1
			s.PreviousEpoch = c.cur.Epoch
			if rng.Intn(2) == 0 {
				s.PreviousSTRHash = refDigest(c.cur.Signature)
			}
		case 11:
			s.Epoch = uint64(rng.Intn(4))
			s.PreviousEpoch = s.Epoch - 1
		}
		if rng.Intn(3) > 0 {
			resign(w.ks, s)
		}
		if p.TB != nil && rng.Intn(2) == 0 {
			p.TB = w.signTB(name, p.TB.Value, s)
		}
	case "alien": // signed with another key
		resign(b.alien, s)
		if p.TB != nil {
			m := append(append(append([]byte(nil), s.Signature...), p.TB.Index...), p.TB.Value...)
			p.TB.Signature = ed25519.Sign(b.alien.sign, m)
		}
	case "skip": // the root after next, made to look like the next one
		f := w.clone(rng.Int63())
		f.tick()
		if rng.Intn(2) == 0 {
			f.tick()
		}
		q := b.answer(f, protocol.KeyLookupType, name, nil)
		res.Proof = q.Proof
		if res.Error = q.Error; typ == protocol.RegistrationType && q.Proof.TB == nil {
			res.Error = codeExisted
		}
		x := res.Proof.STR[0]
		switch rng.Intn(4) {
		case 0:
			x.PreviousEpoch = c.cur.Epoch
			resign(w.ks, x)
		case 1:
			x.PreviousEpoch = c.cur.Epoch
			x.PreviousSTRHash = refDigest(c.cur.Signature)
			resign(w.ks, x)
		}
	case "extra":
		o := b.other(rng, name)
		q := b.answer(w, protocol.KeyLookupType, o, nil)
		n := rng.Intn(4)
		if n != 1 {
			if rng.Intn(2) == 0 {
				p.AP = append(p.AP, q.Proof.AP[0])
			} else {
				p.AP = append([]*rAP{q.Proof.AP[0]}, p.AP...)
			}
			if rng.Intn(3) == 0 { // same name, forged key
				f := *ap
				l := *ap.Leaf
				f.Leaf = &l
				l.Index, l.IsEmpty, l.Value = f.LookupIndex, false, []byte("forged")
				salt := w.random()
				l.Commitment = &rCommit{salt, refDigest(salt, []byte(name), l.Value)}
				p.AP[len(p.AP)-1] = &f
			}
		}
		if n != 0 {
			x := copySTR(w.strs[rng.Intn(len(w.strs))])
			if rng.Intn(2) == 0 {
				p.STR = append(p.STR, x)
			} else {
				p.STR = append([]*rSTR{x}, p.STR...)
			}
		}
	case "shift": // move bytes between the hashed parts of a proof
		l := ap.Leaf
		switch rng.Intn(6) {
		case 0, 1: // nonce -> index: an included name looks absent
			n := ap.TreeNonce
			k := 1 + rng.Intn(2)
			l.Index = append(append([]byte(nil), n[32-k:]...), l.Index...)
			ap.TreeNonce = n[:32-k]
			l.Value = nil
			if l.Commitment != nil {
				l.Commitment.Salt = nil
			}
			p.TB = nil
			if res.Error = codeNotFound; typ == protocol.RegistrationType {
				res.Error = codeOK
				p.TB = w.signTB(name, key, s)
			}
		case 2: // index -> nonce
			if len(l.Index) > 0 {
				ap.TreeNonce = append(append([]byte(nil), ap.TreeNonce...), l.Index[0])
				l.Index = l.Index[1:]
				l.Value = nil
			}
			p.TB = nil
			res.Error = codeNotFound
		case 3, 4: // salt, name and key
			if l.Commitment != nil && l.Value != nil {
				if i := strings.Index(string(l.Value), name); i >= 0 {
					l.Commitment.Salt = append(append(append([]byte(nil), l.Commitment.Salt...), name...), l.Value[:i]...)
					l.Value = append([]byte(nil), l.Value[i+len(name):]...)
				}
			}
		case 5:
			if l.Commitment != nil && len(l.Commitment.Salt) > 0 && l.Value != nil {
				cs := l.Commitment.Salt
				l.Value = append(append(append([]byte(nil), cs[len(cs)-1]), name...), l.Value...)[1:]
				l.Commitment.Salt = cs[:len(cs)-1]
			}
		}
	case "oldap": // proofs and roots of different epochs
		k := uint64(rng.Intn(len(w.strs)))
		p.AP[0] = w.apFor(name, k)
		switch rng.Intn(3) {
		case 0:
			p.STR[0] = copySTR(w.strs[k])
		case 1:
			if rng.Intn(2) == 0 {
				p.TB = nil
			}
			res.Error = codeNotFound
			if p.AP[0].Leaf.Value != nil {
				res.Error = codeOK
			}
		}
	case "leaf":
		l := ap.Leaf
		switch rng.Intn(9) {
		case 0: // another key
			l.Value = []byte("forged")
			if l.Commitment != nil && rng.Intn(2) == 0 {
				l.Commitment.Value = refDigest(l.Commitment.Salt, []byte(name), l.Value)
			}
		case 1: // claims presence out of thin air
			salt := w.random()
			l.Index, l.IsEmpty, l.Value = ap.LookupIndex, false, []byte("forged")
			l.Commitment = &rCommit{salt, refDigest(salt, []byte(name), l.Value)}
			p.TB, res.Error = nil, codeOK
			if typ == protocol.RegistrationType {
				res.Error = codeExisted
			}
		case 2: // claims an empty branch
			l.IsEmpty, l.Index, l.Value, l.Commitment = true, refBytes(refBits(ap.LookupIndex)[:l.Level]), nil, nil
			p.TB, res.Error = nil, codeNotFound
		case 3: // a neighbour that is not there
			l.IsEmpty = false
			l.Index = append([]byte(nil), ap.LookupIndex...)
			l.Index[31] ^= 1
			l.Value = nil
			if l.Commitment == nil {
				l.Commitment = &rCommit{nil, w.random()}
			}
			l.Commitment.Salt = nil
			p.TB, res.Error = nil, codeNotFound
		case 4:
			l.Level++
		case 5: // an inner node of the path passed off as the end of it
			if n := len(ap.PrunedTree); n > 1 {
				ap.PrunedTree = ap.PrunedTree[:n-1]
				l.Level--
			}
		case 6:
			l.Value = []byte{}
		case 7: // a proof of presence without opening
			l.Commitment = nil
		case 8:
			l.Value = nil
			l.IsEmpty = true
		}
	case "pathbits":
		// the path of a real leaf elsewhere in the tree, as a neighbour
		o := b.other(rng, name)
		x := w.apFor(o, s.Epoch)
		x.LookupIndex, x.VrfProof = ap.LookupIndex, ap.VrfProof
		x.Leaf.Value = nil
		if x.Leaf.Commitment != nil {
			x.Leaf.Commitment.Salt = nil
		}
		p.AP[0] = x
		if s.Epoch < uint64(len(w.strs)) {
			p.TB, res.Error = nil, codeNotFound
			if typ == protocol.RegistrationType {
				p.TB, res.Error = w.signTB(name, key, s), codeOK
			}
		}
	case "resign": // any change to the signed parts, correctly signed
		part := []string{"STR", "STR", "STR", "TB", "Policies"}[rng.Intn(5)]
		raw := res.wire()
		t := parseTree(raw)
		for i := 1 + rng.Intn(2); i > 0; i-- {
			if f := findKey(t, part, nil); len(f) > 0 {
				if sl := slots(f[0], nil, false); len(sl) > 0 {
					mutateSlot(sl[rng.Intn(len(sl))], t, rng, b.pool)
				}
			}
		}
		x, _ := json.Marshal(t)
		q, err := parseAnswer(x)
		if err != nil || q.Proof == nil || len(q.Proof.STR) == 0 || q.Proof.STR[0] == nil || q.Proof.STR[0].Policies == nil {
			return x
		}
		resign(w.ks, q.Proof.STR[0])
		if tb := q.Proof.TB; tb != nil {
			m := append(append(append([]byte(nil), q.Proof.STR[0].Signature...), tb.Index...), tb.Value...)
			tb.Signature = ed25519.Sign(w.ks.sign, m)
		}
		return q.wire()
	case "evilroot": // a root made to fit a proof of the adversary's choice
		x := copySTR(s)
		if s.Epoch == c.cur.Epoch || rng.Intn(3) == 0 {
			x.Epoch, x.PreviousEpoch = c.cur.Epoch+1, c.cur.Epoch
			x.PreviousSTRHash = refDigest(c.cur.Signature)
		}
		if rng.Intn(3) > 0 {
			raw := b.craft([]string{"leaf", "shift", "open", "othername", "pathbits", "oldap"}[rng.Intn(6)], rng, typ, name, key, res, c)
			if q, err := parseAnswer(raw); err == nil {
				res = q
			}
		}
		if rng.Intn(3) == 0 {
			t := parseTree(res.wire())
			if f := findKey(t, "AP", nil); len(f) > 0 {
				if sl := slots(f[0], nil, false); len(sl) > 0 {
					mutateSlot(sl[rng.Intn(len(sl))], t, rng, b.pool)
				}
			}
			j, _ := json.Marshal(t)
			q, err := parseAnswer(j)
			if err != nil {
				return j
			}
			res = q
		}
		if res.Proof == nil || len(res.Proof.AP) == 0 || res.Proof.AP[0] == nil || res.Proof.AP[0].Leaf == nil {
			return res.wire()
		}
		root := looseRoot(res.Proof.AP[0], rng.Intn(4) > 0)
		if root == nil {
			return res.wire()
		}
		x.TreeHash = root
		resign(w.ks, x)
		res.Proof.STR = []*rSTR{x}
		if tb := res.Proof.TB; tb != nil {
			m := append(append(append([]byte(nil), x.Signature...), tb.Index...), tb.Value...)
			tb.Signature = ed25519.Sign(w.ks.sign, m)
		}
	case "under": // signatures, proofs and hashes that leave a part out
		return b.under(rng, typ, name, key, res, c).wire()
	case "world": // from another history
		o := b.ws[(b.wi+1)%len(b.ws)]
		return b.answer(o, typ, name, key).wire()
	case "future":
		f := w.clone(rng.Int63())
		f.tick()
		q := b.answer(f, protocol.KeyLookupType, name, nil)
		switch rng.Intn(3) {
		case 0:
			p.STR[0] = q.Proof.STR[0]
		case 1:
			p.AP[0] = q.Proof.AP[0]
		case 2:
			res = q
		}
	case "open": // open the commitment differently
		if l := ap.Leaf; l.Commitment != nil && l.Value != nil {
			switch rng.Intn(3) {
			case 0:
				l.Commitment.Salt = w.random()
			case 1:
				l.Commitment.Salt = nil
			case 2:
				l.Value = append([]byte(name), l.Value...)
			}
		}
	}
	return res.wire()
}

// under crafts an answer whose evidence covers less than it has to: a client
// that checks exactly that little accepts it.
func (b *byz) under(rng *rand.Rand, typ int, name string, key []byte, res *rResp, c *refClient) *rResp {
	w := b.ws[b.wi]
	p := res.Proof
	s, ap := p.STR[0], p.AP[0]
	promise := func() {
		k := key
		if k == nil || p.TB != nil {
			k = []byte("promised-by-adversary")
			if p.TB != nil && rng.Intn(2) == 0 {
				k = p.TB.Value
			}
		}
		if p.TB == nil {
			p.TB = w.signTB(name, k, s)
			res.Error = codeOK
		}
	}
	cat := func(ps ...[]byte) []byte {
		var m []byte
		for _, x := range ps {
			m = append(m, x...)
		}
		return m
	}
	partTB := func(kind int, s *rSTR, tb *rTB) []byte {
		switch kind {
		case 0:
			return cat(tb.Index, tb.Value)
		case 1:
			return cat(s.Signature, tb.Value)
		case 2:
			return cat(s.Signature, tb.Index)
		case 3:
			return cat(tb.Value)
		case 4:
			return cat(s.TreeHash, tb.Index, tb.Value)
		case 5:
			return cat(le64(s.Epoch), tb.Index, tb.Value)
		case 6:
			return cat(refDigest(s.Signature), tb.Index, tb.Value)
		case 7:
			return cat(s.PreviousSTRHash, tb.Index, tb.Value)
		}
		return cat(s.Signature[:32], tb.Index, tb.Value)
	}
	next := func() *rSTR { // the successor of the root the client verified
		x := copySTR(s)
		if s.Epoch != c.cur.Epoch+1 {
			x.Epoch, x.PreviousEpoch = c.cur.Epoch+1, c.cur.Epoch
			x.PreviousSTRHash = refDigest(c.cur.Signature)
		}
		return x
	}
	resignTB := func(x *rSTR) {
		if tb := p.TB; tb != nil {
			tb.Signature = ed25519.Sign(w.ks.sign, cat(x.Signature, tb.Index, tb.Value))
		}
	}
	switch rng.Intn(5) {
	case 0: // a promise
		promise()
		p.TB.Signature = ed25519.Sign(w.ks.sign, partTB(rng.Intn(9), s, p.TB))
	case 1: // a root
		x := next()
		ep, prev, pol := le64(x.Epoch), le64(x.PreviousEpoch), x.Policies
		v, h, k, d := []byte(pol.Version), []byte(pol.HashID), pol.VrfPublicKey, le64(pol.EpochDeadline)
		parts := [][]byte{ep, prev, x.TreeHash, x.PreviousSTRHash, v, h, k, d}
		if x.Epoch == 0 {
			parts[1] = nil
		}
		switch n := rng.Intn(12); {
		case n < 8:
			parts[n] = nil
		case n == 8:
			parts = parts[:4]
		case n == 9:
			parts[4], parts[5] = nil, nil
		case n == 10:
			parts[0] = le32(uint32(x.Epoch))
		case n == 11:
			parts[7] = le32(uint32(pol.EpochDeadline))
		}
		if rng.Intn(3) == 0 && (len(parts) < 7 || parts[6] == nil) || rng.Intn(8) == 0 {
			x.Policies.VrfPublicKey = b.alien.vpub
		}
		x.Signature = ed25519.Sign(w.ks.sign, cat(parts...))
		p.STR[0] = x
		resignTB(x)
	case 2: // the tree
		x := next()
		l := ap.Leaf
		var cv []byte
		if l.Commitment != nil {
			if l.Value != nil {
				switch rng.Intn(5) {
				case 0:
					l.Commitment.Value = refDigest(l.Commitment.Salt, l.Value)
				case 1:
					l.Commitment.Value = refDigest(l.Commitment.Salt, []byte(name))
				case 2:
					l.Commitment.Value = refDigest([]byte(name), l.Value)
				case 3:
					l.Commitment.Value = refDigest(l.Commitment.Salt, l.Value, []byte(name))
				}
			}
			cv = l.Commitment.Value
		}
		parts := [][]byte{[]byte("L"), ap.TreeNonce, l.Index, le32(l.Level), cv}
		if l.IsEmpty {
			parts[0], parts[4] = []byte("E"), nil
		}
		if n := rng.Intn(8); n < 5 {
			parts[n] = nil
		} else if n == 5 {
			parts[0] = []byte("LE")[rng.Intn(2):][:1]
		}
		bits := refBits(l.Index)
		hash := refDigest(parts...)
		low := 0
		if rng.Intn(6) == 0 && l.Level > 0 {
			low = 1 + rng.Intn(int(l.Level)) // the way to the root ends early
		}
		for d := int(l.Level) - 1; d >= low; d-- {
			if d >= len(bits) || d >= len(ap.PrunedTree) {
				return res
			}
			if bits[d] {
				hash = refDigest(ap.PrunedTree[d], hash)
			} else {
				hash = refDigest(hash, ap.PrunedTree[d])
			}
		}
		x.TreeHash = hash
		resign(w.ks, x)
		p.STR[0] = x
		resignTB(x)
	case 4: // hashes of which only a part is right
		x := next()
		half := func(h []byte) []byte {
			h = append([]byte(nil), h...)
			switch n := len(h); {
			case n < 32:
			case rng.Intn(2) == 0:
				copy(h[n/2:], w.random())
			case rng.Intn(2) == 0:
				copy(h[:n/2], w.random())
			case rng.Intn(2) == 0:
				h = h[:n/2]
			default:
				h[n-1] ^= 1
			}
			return h
		}
		switch rng.Intn(4) {
		case 0:
			x.TreeHash = half(x.TreeHash)
		case 1:
			x.PreviousSTRHash = half(x.PreviousSTRHash)
		case 2:
			if l := ap.Leaf; l.Commitment != nil {
				l.Commitment.Value = half(l.Commitment.Value)
				if h := looseRoot(ap, true); h != nil {
					x.TreeHash = h
				}
			}
		case 3: // as absent at an index that is not the right one
			idx := half(ap.LookupIndex)
			bits := refBits(idx)
			l := &rLeaf{IsEmpty: true, Level: uint32(1 + rng.Intn(3))}
			if len(idx) < 32 {
				break
			}
			l.Index = refBytes(bits[:l.Level])
			q := &rAP{TreeNonce: ap.TreeNonce, LookupIndex: idx, VrfProof: ap.VrfProof, Leaf: l}
			for len(q.PrunedTree) < int(l.Level) {
				q.PrunedTree = append(q.PrunedTree, w.random())
			}
			x.TreeHash = looseRoot(q, true)
			p.AP[0] = q
			p.TB, res.Error = nil, codeNotFound
			if typ == protocol.RegistrationType {
				p.TB, res.Error = &rTB{Index: idx, Value: key}, codeOK
			}
		}
		resign(w.ks, x)
		p.STR[0] = x
		resignTB(x)
	case 3: // the private index: a value that hashes right, but of a wrong point
		o := b.other(rng, name)
		proof := append([]byte(nil), w.vrfProof(name)...)
		point := append([]byte(nil), w.vrfProof(o)[64:96]...)
		switch rng.Intn(4) {
		case 0:
			copy(proof, w.vrfProof(o))
		case 1:
			copy(proof[64:], point)
		case 2:
			copy(proof[64:], refvrf.PrivateKey(b.alien.vrf).ProofPoint(name))
		case 3:
			copy(proof[:64], w.random())
			copy(proof[32:], w.random())
		}
		if rng.Intn(4) == 0 {
			point = proof[64:96]
			_, proof = refvrf.PrivateKey(b.alien.vrf).Prove([]byte(name))
		}
		idx := refvrf.IndexOf(proof[64:96], []byte(name))
		t := w.trees[s.Epoch%uint64(len(w.trees))]
		path, level, leaf, prefix := t.path(idx)
		x := &rAP{TreeNonce: w.nonce, PrunedTree: path, LookupIndex: idx, VrfProof: proof}
		if leaf == nil {
			x.Leaf = &rLeaf{Level: uint32(level), Index: refBytes(prefix), IsEmpty: true}
		} else {
			x.Leaf = &rLeaf{Level: uint32(level), Index: leaf.index, Commitment: &rCommit{nil, leaf.commit}}
		}
		p.AP[0] = x
		p.TB, res.Error = nil, codeNotFound
		if typ == protocol.RegistrationType {
			res.Error = codeOK
			tb := &rTB{Index: idx, Value: key}
			p.TB = tb
			resignTB(s)
		}
	}
	return res
}

// looseRoot computes the root a proof leads to, however odd the proof, along
// the path of the leaf or of the looked up index.
func looseRoot(ap *rAP, byLeaf bool) []byte {
	l := ap.Leaf
	bits := refBits(ap.LookupIndex)
	if byLeaf {
		bits = refBits(l.Index)
	}
	var h []byte
	if l.IsEmpty {
		h = refDigest([]byte("E"), ap.TreeNonce, l.Index, le32(l.Level))
	} else {
		var cv []byte
		if l.Commitment != nil {
			cv = l.Commitment.Value
		}
		h = refDigest([]byte("L"), ap.TreeNonce, l.Index, le32(l.Level), cv)
	}
	for d := int(l.Level) - 1; d >= 0; d-- {
		if d >= len(bits) || d >= len(ap.PrunedTree) {
			return nil
		}
		if bits[d] {
			h = refDigest(ap.PrunedTree[d], h)
		} else {
			h = refDigest(h, ap.PrunedTree[d])
		}
	}
	return h
}

func replacement(n int64) []byte {
	if n%2 == 0 {
		return []byte("wrong") // also what some callers pass
	}
	return []byte("replaced-" + fmt.Sprint(n%1000))
}

// tamper changes a directory as no honest one does.
func (b *byz) tamper(o Op) {
	w := b.ws[b.wi]
	n := o.s(1)
	b.taint[b.wi] = true
	b.r.w.Fault("tamper-" + o.s(0))
	switch o.s(0) {
	case "drop-pending": // break the promise
		delete(w.pending, n)
	case "replace-pending":
		if _, ok := w.pending[n]; ok {
			w.pending[n] = w.entry(n, replacement(o.n(0)))
		}
	case "remove":
		delete(w.leaves, n)
	case "replace":
		if _, ok := w.leaves[n]; ok {
			w.leaves[n] = w.entry(n, replacement(o.n(0)))
		}
	case "drop-tb":
		delete(w.tbs, n)
	case "replace-tb":
		if _, ok := w.tbs[n]; ok {
			w.tbs[n] = w.signTB(n, []byte("replaced"), w.last())
		}
	case "vrf": // another VRF key in the policies
		w.pol.VrfPublicKey = b.alien.vpub
	case "nonce":
		w.nonce = w.random()
	case "delay": // the promise is kept one epoch late
		if e, ok := w.pending[n]; ok {
			delete(w.pending, n)
			w.tick()
			w.pending[n] = e
		}
	}
}

func genByz(g *Gen) {
	P := g.P
	P["ks"] = int64(g.Intn(6))
	P["seed"] = g.Int63()
	P["clients"] = int64(1 + g.Intn(2))
	P["trick"] = int64(g.Intn(3))
	nn := 1 + g.Intn(5)
	var names []string
	for i := 0; i < nn; i++ {
		names = append(names, genName(g, i))
	}
	if deep := deepGroup(g, P["ks"]+1); g.chance(0.25) && len(deep) > 0 {
		if g.chance(0.5) {
			names = deep
		} else {
			names = append(names, deep...)
		}
		nn = len(names)
	}
	if nn > 1 && g.chance(0.2) {
		names[1] = variation(g, names[0])
	}
	g.add(Op{K: "names", S: names})
	n := 15 + g.Intn(40)
	if g.Tier == "thorough" {
		n += g.Intn(60)
	}
	evil := []float64{0, 0.15, 0.5, 0.8}[g.Intn(4)]
	if g.Prop == "C08" || g.Prop == "C06" {
		evil = []float64{0.3, 0.6, 0.9}[g.Intn(3)]
	}
	if g.Prop == "C05" {
		evil = []float64{0, 0, 0.2}[g.Intn(3)]
	}
	tam := []float64{0, 0.1, 0.3}[g.Intn(3)]
	if g.Prop == "C07" {
		evil = []float64{0.1, 0.3, 0.6}[g.Intn(3)]
		tam = []float64{0.05, 0.15, 0.3}[g.Intn(3)]
	}
	focus := ""
	if g.chance(0.4) {
		focus = byzActions[1+g.Intn(len(byzActions)-1)]
	}
	nm := func() string {
		if g.chance(0.5) {
			return names[0]
		}
		return names[g.Intn(len(names))]
	}
	for i := 0; i < n; i++ {
		switch k := g.Intn(20); {
		case k < 4:
			g.add(Op{K: "tick"})
		case k < 6:
			g.add(Op{K: "reg", S: []string{nm()}, N: []int64{int64(g.Intn(4))}})
		case k == 6 && evil > 0 && g.chance(0.4):
			g.add(Op{K: "fork", N: []int64{g.Int63()}})
		case k == 7 && evil > 0 && g.chance(0.4):
			g.add(Op{K: "switch"})
		case k == 8 && g.chance(0.3):
			g.add(Op{K: "newclient", N: []int64{int64(g.Intn(2))}})
		case k == 9 && evil > 0 && g.chance(tam*3):
			g.add(Op{K: "tamper", S: []string{g.pick("drop-pending", "replace-pending", "remove", "replace", "drop-tb", "replace-tb", "vrf", "nonce", "delay", "drop-pending", "replace-pending", "remove", "replace"), nm()}, N: []int64{g.Int63()}})
		case k == 10 && g.chance(0.3):
			g.add(Op{K: "policy", N: []int64{int64(1 + g.Intn(100))}})
		case k == 11 && (g.Prop == "C08" || g.chance(0.3)):
			g.add(Op{K: "equiv", N: []int64{g.Int63(), int64(g.Intn(6)), int64(g.Intn(4))}})
		default:
			act := "honest"
			if g.chance(evil) {
				act = byzActions[1+g.Intn(len(byzActions)-1)]
				if focus != "" && g.chance(0.5) {
					act = focus
				}
			}
			// key mode: 0 none, 1 own, 2 wrong
			mode := []int64{0, 0, 1, 1, 2}[g.Intn(5)]
			typ := int64(g.Intn(2))
			g.add(Op{K: "ask", S: []string{act, nm()}, N: []int64{typ, mode, g.Int63(), int64(g.Intn(2))}})
		}
	}
}

func (b *byz) keyOf(name string, mode int64) []byte {
	k := []byte("Key-of_" + fmt.Sprint(mix(b.r.Seed, name)%1000) + "==")
	if x := mix("long", name, b.r.Seed); x%8 == 0 {
		k = append(k, strings.Repeat("Lk+/", 50+int(x/8%300))...)
	}
	switch mode {
	case 2:
		return []byte("wrong")
	case 3: // a key containing the name
		return []byte("pre" + name + "post")
	}
	if mix(name, b.r.p("seed"))%4 == 0 {
		return []byte("k1" + name + "k2")
	}
	return k
}

func execByz(r *Run) {
	b := &byz{r: r, ks: keysFor(r.p("ks") + 1), alien: keysFor(77)}
	rng := rand.New(rand.NewSource(r.p("seed")))
	w := newRDir(b.ks, rng, 60)
	for _, o := range r.Ops {
		if o.K == "names" {
			b.names = o.S
		}
	}
	if len(b.names) == 0 {
		b.names = []string{"someone"}
	}
	if r.p("trick") > 0 {
		// a nonce whose last bytes look like the start of an index
		idx := refIndex(b.ks.vrf, b.names[0])
		w.nonce[31] = idx[0]
		if r.p("trick") > 1 {
			w.nonce[30], w.nonce[31] = idx[0], idx[1]
		}
	}
	w.tick()
	b.ws, b.taint = []*rDir{w}, []bool{false}
	for i := int64(0); i < r.p("clients"); i++ {
		b.cs = append(b.cs, b.newClient(0))
	}
	for _, o := range r.Ops {
		w := b.ws[b.wi]
		switch o.K {
		case "tick":
			w.tick()
		case "reg":
			w.register(o.s(0), b.keyOf(o.s(0), o.n(0)))
		case "fork":
			if len(b.ws) < 3 {
				b.ws = append(b.ws, w.clone(o.n(0)))
				b.taint = append(b.taint, b.taint[b.wi])
				r.w.Fault("fork")
			}
		case "switch":
			b.wi = (b.wi + 1) % len(b.ws)
			if len(b.ws) > 1 {
				r.w.Fault("switch-history")
			}
		case "policy":
			w.pol.EpochDeadline = uint64(o.n(0))
		case "newclient":
			b.cs[int(o.n(0))%len(b.cs)] = b.newClient(b.wi)
		case "tamper":
			b.tamper(o)
		case "equiv":
			b.equiv(o)
		case "ask":
			ci := int(o.n(3)) % len(b.cs)
			c := b.cs[ci]
			typ := int(o.n(0)) % 2
			name := o.s(1)
			var key []byte
			if o.n(1) > 0 || typ == protocol.RegistrationType {
				key = b.keyOf(name, o.n(1))
			}
			arng := rand.New(rand.NewSource(o.n(2)))
			res := b.answer(w, typ, name, key)
			honest := o.s(0) == "honest"
			raw := res.wire()
			clean := raw
			if !honest {
				raw = b.craft(o.s(0), arng, typ, name, key, res, c)
				r.w.Fault("answer-" + o.s(0))
			}
			if o.n(1) == 0 && arng.Intn(3) == 0 {
				key = nil // a registration whose outcome is checked without a key
			}
			b.ask(ci, typ, raw, name, key, honest, o.s(0))
			if len(b.pool) < 40 {
				b.pool = append(b.pool, clean)
			} else {
				b.pool[arng.Intn(40)] = clean
			}
		}
	}
	r.res.Nontrivial = b.n >= 5
	if r.Prop == "C05" {
		r.res.Nontrivial = r.w.Probes["honest"] >= 3
	}
	if r.Prop == "C07" {
		r.res.Nontrivial = r.w.Probes["accepted"] >= 3 && r.w.Probes["rejected"] >= 1
	}
}

// equiv feeds an auditor's answer to a client.
func (b *byz) equiv(o Op) {
	r := b.r
	rng := rand.New(rand.NewSource(o.n(0)))
	c := b.cs[rng.Intn(len(b.cs))]
	w := b.ws[rng.Intn(len(b.ws))]
	n := int64(len(w.strs))
	hi := n - 1 - o.n(2)
	if hi < 0 {
		hi = n - 1
	}
	lo := hi - o.n(1)
	if lo < 0 {
		lo = 0
	}
	raw := histWire(codeOK, w.strs[lo:hi+1])
	how := "honest"
	if rng.Intn(3) > 0 {
		how = "mutated"
		if rng.Intn(3) == 0 {
			raw = mutateBytes(raw, rng, b.pool)
		} else {
			raw = mutateJSON(raw, rng, b.pool)
		}
	}
	old := strJSON(c.cc.VerifiedSTR())
	var err error
	crashed := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				crashed = true
				r.Fail("C08", "panic", "the client crashed on the auditor's %s answer %s: %v", how, trunc(string(raw)), p)
			}
		}()
		res := application.UnmarshalResponse(protocol.AuditType, raw)
		err = c.cc.CheckEquivocation(res)
		if err != nil {
			_ = err.Error()
		}
	}()
	b.n++
	if crashed {
		return
	}
	if strJSON(c.cc.VerifiedSTR()) != old {
		r.Fail("C08,C07", "equiv-moved", "comparing with an auditor's %s answer moved the verified root", how)
	}
	bad := b.judgeEquiv(c.cur, raw)
	if err == nil && bad != nil {
		r.Fail("C06,C08,C16", "equiv-accepted", "the client accepted the auditor's %s answer %s although %v", how, trunc(string(raw)), bad)
	}
	if err != nil && bad == nil && how == "honest" {
		r.Fail("C16,C05", "equiv-alarm", "the client rejected the auditor's consistent answer (epochs %d to %d, client at %d): %v", lo, hi, c.cur.Epoch, err)
	}
	r.w.Probe("equiv")
}

func histWire(code int, strs []*rSTR) []byte {
	b, _ := json.Marshal(struct {
		Error             int
		DirectoryResponse struct{ STR []*rSTR }
	}{code, struct{ STR []*rSTR }{strs}})
	return b
}

// judgeEquiv tells why an audit answer must not satisfy a client at root cur.
func (b *byz) judgeEquiv(cur *rSTR, raw []byte) error {
	return refEquiv(b.ks.pub, cur, raw)
}

func refEquiv(pub []byte, cur *rSTR, raw []byte) error {
	code, strs, err := parseHist(raw)
	if err != nil {
		return err
	}
	if code >= codeErrDir && code <= codeMalformed {
		return fmt.Errorf("it is the error %s", codeName(code))
	}
	if len(strs) == 0 {
		return fmt.Errorf("it contains no root")
	}
	for _, s := range strs {
		if s == nil || s.Policies == nil {
			return fmt.Errorf("it contains an incomplete root")
		}
	}
	for i := 1; i < len(strs); i++ {
		if err := refSTR(pub, strs[i]); err != nil {
			return err
		}
		if err := refChain(strs[i-1], strs[i]); err != nil {
			return err
		}
	}
	l := strs[len(strs)-1]
	if canonSTR(l) == canonSTR(cur) {
		return nil
	}
	if l.Epoch != cur.Epoch+1 {
		return fmt.Errorf("it ends with epoch %d, the client is at %d", l.Epoch, cur.Epoch)
	}
	if err := refSTR(pub, l); err != nil {
		return err
	}
	return refChain(cur, l)
}

// parseHist parses an answer holding a list of signed roots.
func parseHist(raw []byte) (int, []*rSTR, error) {
	var x struct {
		Error             int
		DirectoryResponse json.RawMessage
	}
	if err := json.Unmarshal(raw, &x); err != nil {
		return 0, nil, err
	}
	if len(x.DirectoryResponse) == 0 || string(x.DirectoryResponse) == "null" {
		return x.Error, nil, nil
	}
	var d struct{ STR []*rSTR }
	if err := json.Unmarshal(x.DirectoryResponse, &d); err != nil {
		return 0, nil, err
	}
	return x.Error, d.STR, nil
}

func init() {
	register(&Scenario{Name: "byz", Gen: genByz, Exec: execByz, Hang: "C08"}, "C06*3", "C07*3", "C08*2", "C05*1")
}
