package refvrf

import "golang.org/x/crypto/sha3"

// IndexOf is the index that goes with the point h^x of a proof for m.
func IndexOf(hx, m []byte) []byte {
	h := sha3.NewShake256()
	h.Write(hx)
	h.Write(m)
	v := make([]byte, Size)
	h.Read(v)
	return v
}

// ProofPoint is the encoded point h^x of the proof for m.
func (sk PrivateKey) ProofPoint(m string) []byte {
	_, p := sk.Prove([]byte(m))
	return p[64:96]
}
