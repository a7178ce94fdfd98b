package main

import (
	"crypto/ed25519"
	"encoding/json"
	"math/rand"

	"verif.sim/refvrf"
)

// rDir is a directory of our own making: it issues what a real one issues,
// and whatever else it is told to.
type rDir struct {
	ks      *keyset
	rng     *rand.Rand
	pol     rPol
	nonce   []byte
	leaves  map[string]rEntry
	pending map[string]rEntry
	tbs     map[string]*rTB
	strs    []*rSTR
	snaps   []map[string]rEntry
	trees   []*refTree
	proofs  map[string][]byte // name -> VRF proof
}
type rEntry struct {
	key, salt, commit, idx []byte
}

func newRDir(ks *keyset, rng *rand.Rand, deadline uint64) *rDir {
	d := &rDir{ks: ks, rng: rng, leaves: map[string]rEntry{}, pending: map[string]rEntry{}, tbs: map[string]*rTB{}, proofs: map[string][]byte{}}
	d.pol = rPol{Version: "0.3.0", HashID: "SHAKE128", VrfPublicKey: ks.vpub, EpochDeadline: deadline}
	d.nonce = d.random()
	return d
}

func (d *rDir) random() []byte { b := make([]byte, 32); d.rng.Read(b); return b }

func (d *rDir) clone(seed int64) *rDir {
	c := *d
	c.rng = rand.New(rand.NewSource(seed))
	c.leaves, c.pending, c.tbs, c.proofs = map[string]rEntry{}, map[string]rEntry{}, map[string]*rTB{}, d.proofs
	for k, v := range d.leaves {
		c.leaves[k] = v
	}
	for k, v := range d.pending {
		c.pending[k] = v
	}
	for k, v := range d.tbs {
		c.tbs[k] = v
	}
	c.strs = append([]*rSTR(nil), d.strs...)
	c.snaps = append([]map[string]rEntry(nil), d.snaps...)
	c.trees = append([]*refTree(nil), d.trees...)
	return &c
}

func (d *rDir) signSTR(s *rSTR) { s.Signature = ed25519.Sign(d.ks.sign, s.serialize()) }

func (d *rDir) entry(name string, key []byte) rEntry {
	salt := d.random()
	return rEntry{key: key, salt: salt, commit: refDigest(salt, []byte(name), key), idx: refIndex(d.ks.vrf, name)}
}

func sortedNames(m map[string]rEntry) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// tick ends the epoch.
func (d *rDir) tick() {
	for _, n := range sortedNames(d.pending) {
		d.leaves[n] = d.pending[n]
	}
	d.pending = map[string]rEntry{}
	d.tbs = map[string]*rTB{}
	t := &refTree{nonce: d.nonce}
	snap := map[string]rEntry{}
	for _, n := range sortedNames(d.leaves) {
		e := d.leaves[n]
		snap[n] = e
		t.leaves = append(t.leaves, refLeaf{e.idx, e.commit})
	}
	s := &rSTR{TreeHash: t.root(), Epoch: uint64(len(d.strs)), Policies: new(rPol)}
	*s.Policies = d.pol
	if len(d.strs) == 0 {
		s.PreviousSTRHash = d.random()
	} else {
		p := d.strs[len(d.strs)-1]
		s.PreviousEpoch = p.Epoch
		s.PreviousSTRHash = refDigest(p.Signature)
	}
	d.signSTR(s)
	d.strs, d.snaps, d.trees = append(d.strs, s), append(d.snaps, snap), append(d.trees, t)
}

func (d *rDir) last() *rSTR { return d.strs[len(d.strs)-1] }

func (d *rDir) vrfProof(name string) []byte {
	p := d.proofs[name]
	if p == nil {
		_, p = refvrf.PrivateKey(d.ks.vrf).Prove([]byte(name))
		d.proofs[name] = p
	}
	return p
}

// apFor is the authentication path for name in an epoch.
func (d *rDir) apFor(name string, ep uint64) *rAP {
	idx := refIndex(d.ks.vrf, name)
	path, level, leaf, prefix := d.trees[ep].path(idx)
	ap := &rAP{TreeNonce: d.nonce, PrunedTree: path, LookupIndex: idx, VrfProof: d.vrfProof(name)}
	switch {
	case leaf == nil:
		ap.Leaf = &rLeaf{Level: uint32(level), Index: refBytes(prefix), IsEmpty: true}
	case string(leaf.index) == string(idx):
		e := d.snaps[ep][name]
		ap.Leaf = &rLeaf{Level: uint32(level), Index: idx, Value: e.key, Commitment: &rCommit{e.salt, e.commit}}
	default:
		ap.Leaf = &rLeaf{Level: uint32(level), Index: leaf.index, Commitment: &rCommit{nil, leaf.commit}}
	}
	return ap
}

func (d *rDir) signTB(name string, key []byte, s *rSTR) *rTB {
	idx := refIndex(d.ks.vrf, name)
	m := append(append(append([]byte(nil), s.Signature...), idx...), key...)
	return &rTB{Index: idx, Value: key, Signature: ed25519.Sign(d.ks.sign, m)}
}

// register and lookup answer as an honest directory does.
func (d *rDir) register(name string, key []byte) *rResp {
	ap := d.apFor(name, d.last().Epoch)
	res := &rResp{Error: codeExisted, Proof: &rProof{AP: []*rAP{ap}, STR: []*rSTR{d.last()}}}
	if _, ok := d.snaps[d.last().Epoch][name]; ok {
		return res
	}
	if tb := d.tbs[name]; tb != nil {
		res.Proof.TB = tb
		return res
	}
	d.tbs[name] = d.signTB(name, key, d.last())
	d.pending[name] = d.entry(name, key)
	res.Error, res.Proof.TB = codeOK, d.tbs[name]
	return res
}

func (d *rDir) lookup(name string) *rResp {
	ap := d.apFor(name, d.last().Epoch)
	res := &rResp{Error: codeOK, Proof: &rProof{AP: []*rAP{ap}, STR: []*rSTR{d.last()}}}
	if _, ok := d.snaps[d.last().Epoch][name]; ok {
		return res
	}
	if tb := d.tbs[name]; tb != nil {
		res.Proof.TB = tb
		return res
	}
	res.Error = codeNotFound
	return res
}

func (r *rResp) wire() []byte {
	var x struct {
		Error             int
		DirectoryResponse interface{} `json:",omitempty"`
	}
	x.Error = r.Error
	if r.Proof != nil {
		x.DirectoryResponse = r.Proof
	}
	b, _ := json.Marshal(x)
	return b
}

// copyResp is a deep copy.
func copyResp(r *rResp) *rResp {
	c := &rResp{Error: r.Error}
	if r.Proof != nil {
		b, _ := json.Marshal(r.Proof)
		c.Proof = new(rProof)
		json.Unmarshal(b, c.Proof)
	}
	return c
}

func copySTR(s *rSTR) *rSTR {
	b, _ := json.Marshal(s)
	c := new(rSTR)
	json.Unmarshal(b, c)
	return c
}
