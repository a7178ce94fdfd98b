package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"

	"golang.org/x/crypto/sha3"
	"verif.sim/refvrf"
)

// Reference verification: an independent reading of the message format and
// its cryptography. Nothing here calls coniks-go.

type rPol struct {
	Version       string
	HashID        string
	VrfPublicKey  []byte
	EpochDeadline uint64
}
type rSTR struct {
	TreeHash        []byte
	Epoch           uint64
	PreviousEpoch   uint64
	PreviousSTRHash []byte
	Signature       []byte
	Policies        *rPol
}
type rCommit struct{ Salt, Value []byte }
type rLeaf struct {
	Level      uint32
	Index      []byte
	Value      []byte
	IsEmpty    bool
	Commitment *rCommit
}
type rAP struct {
	TreeNonce   []byte
	PrunedTree  [][]byte
	LookupIndex []byte
	VrfProof    []byte
	Leaf        *rLeaf
}
type rTB struct{ Index, Value, Signature []byte }
type rProof struct {
	AP  []*rAP
	STR []*rSTR
	TB  *rTB
}
type rResp struct {
	Error int
	Proof *rProof
}

// UnmarshalJSON reads [32]byte arrays written as number lists.
func (a *rAP) UnmarshalJSON(b []byte) error {
	var x struct {
		TreeNonce   []byte
		PrunedTree  [][32]byte
		LookupIndex []byte
		VrfProof    []byte
		Leaf        *rLeaf
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*a = rAP{TreeNonce: x.TreeNonce, LookupIndex: x.LookupIndex, VrfProof: x.VrfProof, Leaf: x.Leaf}
	for _, n := range x.PrunedTree {
		a.PrunedTree = append(a.PrunedTree, append([]byte(nil), n[:]...))
	}
	return nil
}

// MarshalJSON writes the wire form.
func (a *rAP) MarshalJSON() ([]byte, error) {
	pt := [][]uint16{}
	for _, n := range a.PrunedTree {
		h := make([]uint16, len(n))
		for i, v := range n {
			h[i] = uint16(v)
		}
		pt = append(pt, h)
	}
	if len(a.PrunedTree) == 0 {
		pt = nil
	}
	return json.Marshal(struct {
		TreeNonce   []byte
		PrunedTree  [][]uint16
		LookupIndex []byte
		VrfProof    []byte
		Leaf        *rLeaf
	}{a.TreeNonce, pt, a.LookupIndex, a.VrfProof, a.Leaf})
}

const (
	codeOK        = 100
	codeExisted   = 101
	codeNotFound  = 102
	codeUnknown   = 103
	codeErrDir    = 104
	codeErrAudit  = 105
	codeMalformed = 106
)

func codeName(c int) string {
	switch c {
	case codeOK:
		return "Success"
	case codeExisted:
		return "NameExisted"
	case codeNotFound:
		return "NameNotFound"
	case codeUnknown:
		return "UnknownDirectory"
	case codeErrDir:
		return "ErrDirectory"
	case codeErrAudit:
		return "ErrAuditLog"
	case codeMalformed:
		return "ErrMalformedMessage"
	}
	return fmt.Sprint(c)
}

// parseAnswer parses exactly one complete answer.
func parseAnswer(b []byte) (*rResp, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	var x struct {
		Error             int
		DirectoryResponse json.RawMessage
	}
	if err := dec.Decode(&x); err != nil {
		return nil, fmt.Errorf("not a complete JSON answer (%d bytes): %v", len(b), err)
	}
	if rest, _ := io.ReadAll(io.MultiReader(dec.Buffered(), bytes.NewReader(nil))); len(bytes.TrimSpace(rest)) > 0 {
		return nil, fmt.Errorf("%d bytes after the answer", len(rest))
	}
	r := &rResp{Error: x.Error}
	if len(x.DirectoryResponse) > 0 && string(x.DirectoryResponse) != "null" {
		r.Proof = new(rProof)
		if err := json.Unmarshal(x.DirectoryResponse, r.Proof); err != nil {
			return nil, fmt.Errorf("directory response: %v", err)
		}
	}
	return r, nil
}

func refDigest(ms ...[]byte) []byte {
	h := sha3.NewShake128()
	for _, m := range ms {
		h.Write(m)
	}
	ret := make([]byte, 32)
	h.Read(ret)
	return ret
}

func le64(x uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, x); return b }
func le32(x uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, x); return b }

func (p *rPol) serialize() []byte {
	var b []byte
	b = append(b, p.Version...)
	b = append(b, p.HashID...)
	b = append(b, p.VrfPublicKey...)
	return append(b, le64(p.EpochDeadline)...)
}

func (s *rSTR) serialize() []byte {
	var b []byte
	b = append(b, le64(s.Epoch)...)
	if s.Epoch > 0 {
		b = append(b, le64(s.PreviousEpoch)...)
	}
	b = append(b, s.TreeHash...)
	b = append(b, s.PreviousSTRHash...)
	return append(b, s.Policies.serialize()...)
}

var sigCache = map[string]bool{}

func refVerifySig(pub, m, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	k := string(pub) + string(sig) + string(m)
	if v, ok := sigCache[k]; ok {
		return v
	}
	v := ed25519.Verify(pub, m, sig)
	if len(sigCache) > 20000 {
		sigCache = map[string]bool{}
	}
	sigCache[k] = v
	return v
}

var vrfCache = map[string]bool{}

func refVerifyVRF(pub, m, idx, proof []byte) bool {
	k := string(pub) + string(idx) + string(proof) + string(m)
	if v, ok := vrfCache[k]; ok {
		return v
	}
	v := refvrf.PublicKey(pub).Verify(m, idx, proof)
	if len(vrfCache) > 20000 {
		vrfCache = map[string]bool{}
	}
	vrfCache[k] = v
	return v
}

var idxCache = map[string][]byte{}

func refIndex(vrfPriv []byte, name string) []byte {
	k := string(vrfPriv) + name
	if v, ok := idxCache[k]; ok {
		return v
	}
	if len(idxCache) > 20000 {
		idxCache = map[string][]byte{}
	}
	v := refvrf.PrivateKey(vrfPriv).Compute([]byte(name))
	idxCache[k] = v
	return v
}

func refBits(b []byte) []bool {
	out := make([]bool, len(b)*8)
	for i := range out {
		out[i] = b[i/8]>>(7-uint(i%8))&1 == 1
	}
	return out
}
func refBytes(bits []bool) []byte {
	bs := make([]byte, (len(bits)+7)/8)
	for i, x := range bits {
		if x {
			bs[i/8] |= 1 << (7 - uint(i%8))
		}
	}
	return bs
}

// refSTR checks one signed tree root.
func refSTR(pub []byte, s *rSTR) error {
	if s == nil || s.Policies == nil {
		return errors.New("incomplete signed tree root")
	}
	if s.Epoch > 0 && s.PreviousEpoch != s.Epoch-1 {
		return fmt.Errorf("epoch %d names %d as its predecessor", s.Epoch, s.PreviousEpoch)
	}
	if !refVerifySig(pub, s.serialize(), s.Signature) {
		return fmt.Errorf("invalid signature on the root of epoch %d", s.Epoch)
	}
	return nil
}

// refChain checks that b follows a.
func refChain(a, b *rSTR) error {
	if b.Epoch != a.Epoch+1 {
		return fmt.Errorf("epoch %d after %d", b.Epoch, a.Epoch)
	}
	if !bytes.Equal(b.PreviousSTRHash, refDigest(a.Signature)) {
		return fmt.Errorf("root of epoch %d does not hash-link to the root of epoch %d", b.Epoch, a.Epoch)
	}
	return nil
}

// refAP verifies an authentication path for name against a root. It reports
// whether the name is included and the key it proves.
func refAP(s *rSTR, ap *rAP, name string) (bool, []byte, error) {
	if ap == nil || ap.Leaf == nil || s == nil || s.Policies == nil {
		return false, nil, errors.New("incomplete proof")
	}
	if len(ap.LookupIndex) != 32 || !refVerifyVRF(s.Policies.VrfPublicKey, []byte(name), ap.LookupIndex, ap.VrfProof) {
		return false, nil, errors.New("index not proven to belong to the name")
	}
	return refPath(s, ap, name)
}

// refPath verifies the tree part of an authentication path.
func refPath(s *rSTR, ap *rAP, name string) (bool, []byte, error) {
	l := ap.Leaf
	if int(l.Level) != len(ap.PrunedTree) || l.Level > 256 {
		return false, nil, fmt.Errorf("leaf level %d with %d path nodes", l.Level, len(ap.PrunedTree))
	}
	// hashes are taken over concatenations: only fixed lengths make them binding
	if len(ap.TreeNonce) != 32 || !l.IsEmpty && (l.Commitment == nil || len(l.Commitment.Value) != 32) {
		return false, nil, errors.New("proof with parts of the wrong length")
	}
	lb := refBits(ap.LookupIndex)
	included := bytes.Equal(l.Index, ap.LookupIndex)
	var h []byte
	if included {
		if l.IsEmpty || l.Commitment == nil {
			return false, nil, errors.New("inclusion proof without commitment")
		}
		if len(l.Commitment.Salt) != 32 {
			return false, nil, errors.New("commitment salt of the wrong length")
		}
		if !bytes.Equal(l.Commitment.Value, refDigest(l.Commitment.Salt, []byte(name), l.Value)) {
			return false, nil, errors.New("commitment does not open to the name and key")
		}
	} else {
		ib := refBits(l.Index)
		if l.IsEmpty {
			if len(l.Index) != int(l.Level+7)/8 {
				return false, nil, errors.New("malformed empty branch")
			}
			for i := 0; i < int(l.Level); i++ {
				if ib[i] != lb[i] {
					return false, nil, errors.New("empty branch is not on the path of the index")
				}
			}
		} else {
			if len(l.Index) != 32 || l.Commitment == nil {
				return false, nil, errors.New("malformed neighbour leaf")
			}
			for i := 0; i < int(l.Level); i++ {
				if ib[i] != lb[i] {
					return false, nil, errors.New("neighbour leaf is not on the path of the index")
				}
			}
		}
		if l.Value != nil {
			return false, nil, errors.New("absence proof carries a value")
		}
	}
	if l.IsEmpty {
		h = refDigest([]byte("E"), ap.TreeNonce, l.Index, le32(l.Level))
	} else {
		h = refDigest([]byte("L"), ap.TreeNonce, l.Index, le32(l.Level), l.Commitment.Value)
	}
	for d := int(l.Level) - 1; d >= 0; d-- {
		if len(ap.PrunedTree[d]) != 32 {
			return false, nil, errors.New("malformed path node")
		}
		if lb[d] {
			h = refDigest(ap.PrunedTree[d], h)
		} else {
			h = refDigest(h, ap.PrunedTree[d])
		}
	}
	if !bytes.Equal(h, s.TreeHash) {
		return false, nil, errors.New("proof does not match the tree root")
	}
	return included, l.Value, nil
}

func refTB(pub []byte, s *rSTR, tb *rTB) error {
	if !refVerifySig(pub, append(append(append([]byte(nil), s.Signature...), tb.Index...), tb.Value...), tb.Signature) {
		return errors.New("promise is not signed for this root, index and key")
	}
	return nil
}

// refTree computes the root and paths of a tree of leaves.
type refTree struct {
	nonce  []byte
	leaves []refLeaf
}
type refLeaf struct {
	index, commit []byte
}

func (t *refTree) sort() {
	sort.Slice(t.leaves, func(i, j int) bool { return bytes.Compare(t.leaves[i].index, t.leaves[j].index) < 0 })
}

func (t *refTree) hash(ls []refLeaf, prefix []bool) []byte {
	d := len(prefix)
	if d > 0 && len(ls) == 0 {
		return refDigest([]byte("E"), t.nonce, refBytes(prefix), le32(uint32(d)))
	}
	if d > 0 && len(ls) == 1 {
		return refDigest([]byte("L"), t.nonce, ls[0].index, le32(uint32(d)), ls[0].commit)
	}
	k := sort.Search(len(ls), func(i int) bool { return refBits(ls[i].index)[d] })
	p := append(append([]bool(nil), prefix...), false)
	q := append(append([]bool(nil), prefix...), true)
	return refDigest(t.hash(ls[:k], p), t.hash(ls[k:], q))
}

func (t *refTree) root() []byte { t.sort(); return t.hash(t.leaves, nil) }

// path builds the authentication path (without VRF proof) for an index.
func (t *refTree) path(index []byte) (path [][]byte, level int, leaf *refLeaf, prefix []bool) {
	t.sort()
	ls := t.leaves
	bits := refBits(index)
	for d := 0; ; d++ {
		if d > 0 && len(ls) == 0 {
			return path, d, nil, bits[:d]
		}
		if d > 0 && len(ls) == 1 {
			return path, d, &ls[0], bits[:d]
		}
		k := sort.Search(len(ls), func(i int) bool { return refBits(ls[i].index)[d] })
		other := append(append([]bool(nil), bits[:d]...), !bits[d])
		if bits[d] {
			path = append(path, t.hash(ls[:k], other))
			ls = ls[k:]
		} else {
			path = append(path, t.hash(ls[k:], other))
			ls = ls[:k]
		}
	}
}

// ---- keys ----

type keyset struct {
	sign ed25519.PrivateKey
	pub  []byte
	vrf  []byte
	vpub []byte
}

var keyCache = map[int64]*keyset{}

// keysFor derives a directory's keys.
func keysFor(seed int64) *keyset {
	if k := keyCache[seed]; k != nil {
		return k
	}
	rng := rand.New(rand.NewSource(seed))
	s := make([]byte, 32)
	rng.Read(s)
	k := &keyset{sign: ed25519.NewKeyFromSeed(s)}
	k.pub = append([]byte(nil), k.sign.Public().(ed25519.PublicKey)...)
	vk, err := refvrf.GenerateKey(rng)
	if err != nil {
		panic(err)
	}
	k.vrf = vk
	vp, _ := vk.Public()
	k.vpub = vp
	if len(keyCache) > 100 {
		keyCache = map[int64]*keyset{}
	}
	keyCache[seed] = k
	return k
}

func short(b []byte) string {
	if len(b) > 6 {
		return fmt.Sprintf("%x..", b[:6])
	}
	return fmt.Sprintf("%x", b)
}

func vrfPublic(vk []byte) []byte {
	p, _ := refvrf.PrivateKey(vk).Public()
	return p
}
