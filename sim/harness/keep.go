package main

import (
	"bytes"
	"fmt"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/protocol"
)

// keeper holds on to answers that were handed out and looks at them again
// later: an answer is encoded after the lock is released and by callers of
// their own, so nothing done later may change it.
type keeper struct {
	r    *Run
	ids  string
	n    int
	held []heldAnswer
}

type heldAnswer struct {
	res  *protocol.Response
	raw  []byte
	what string
}

func (k *keeper) keep(res *protocol.Response, raw []byte, what string) {
	if res == nil || raw == nil || len(k.r.res.Viol) > 0 {
		return
	}
	k.n++
	if k.n%2 == 0 && len(k.held) > 2 {
		return
	}
	k.held = append(k.held, heldAnswer{res, append([]byte(nil), raw...), what})
	if len(k.held) > 8 {
		k.look(0)
		k.held = append(k.held[:0], k.held[1:]...)
	}
}

func (k *keeper) look(i int) {
	h := k.held[i]
	raw, err := application.MarshalResponse(h.res)
	k.r.w.Probe("answer-read-again")
	if err != nil {
		k.r.Fail(k.ids, "answer-changed", "the answer to %s can no longer be encoded: %v", h.what, err)
		return
	}
	if !bytes.Equal(raw, h.raw) {
		a, b := h.raw, raw
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		k.r.Fail(k.ids, "answer-changed", "the answer to %s changed after it was given: at byte %d of %d/%d %s became %s", h.what, i, len(a), len(b), around(a, i), around(b, i))
	}
}

func around(b []byte, i int) string {
	lo, hi := i-30, i+30
	if lo < 0 {
		lo = 0
	}
	if hi > len(b) {
		hi = len(b)
	}
	return fmt.Sprintf("%q", b[lo:hi])
}

func (k *keeper) finish() {
	for i := range k.held {
		k.look(i)
	}
	k.held = nil
}
