package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strings"
	"syscall"

	"github.com/coniks-sys/coniks-go/storage/kv"
	"github.com/coniks-sys/coniks-go/storage/kv/leveldbkv"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"verif.sim/simrt"
)

// Scenario "kv": several tasks use the key-value store over a simulated disk
// that fails, fills up, and loses or tears unsynced data at a power loss; the
// process dies at arbitrary disk operations and the store is reopened. The
// oracle searches for an order of the recorded operations that a plain map
// explains.

type kvop struct {
	id       int
	kind     string
	worker   int
	sess     int
	call     int64
	ret      int64 // 0: never returned
	writes   []kvw
	key      int
	val      int // value read, -1 absent
	lo, hi   []byte
	all      bool // range nil
	entries  []kvw
	partial  bool // an iteration that ended with an error
	err      string
	maybe    bool
	deadline int64
}

type kvw struct {
	key int
	val int // -1: delete
}

func (o *kvop) String() string {
	s := fmt.Sprintf("#%d s%d w%d %s", o.id, o.sess, o.worker, o.kind)
	switch o.kind {
	case "get":
		s += fmt.Sprintf(" k%d=%d", o.key, o.val)
	case "iter":
		s += fmt.Sprintf(" [%x,%x) all=%v %v", o.lo, o.hi, o.all, o.entries)
	default:
		s += fmt.Sprintf(" %v", o.writes)
	}
	if o.err != "" {
		s += " error"
	}
	if o.ret == 0 {
		s += " (unfinished)"
	}
	return s + fmt.Sprintf(" @%d-%d", o.call, o.ret)
}

type kvEnv struct {
	r     *Run
	fs    *simrt.FS
	keys  [][]byte
	kidx  map[string]int
	vals  map[string]int
	bytes []int // written sizes by value id
	hist  []*kvop
	opens []int64 // seqs at which an open succeeded
	crash []int64
	fault int64 // seq of the first disk error delivered in this session, 0 none
	disk  bool  // a disk error was delivered in any session
	db    kv.DB
	node  *simrt.Node
	sess  int
}

func genKV(g *Gen) {
	ns := 1 + g.Intn(4)
	if g.Tier == "thorough" {
		ns = 1 + g.Intn(6)
	}
	g.P["sess"] = int64(ns)
	g.P["small"] = int64(g.Intn(4)) // 0: as shipped, else small buffers (compactions)
	g.P["workers"] = int64(1 + g.Intn(4))
	alphabet := [][]byte{{0}, {1}, {'a'}, {0xfe}, {0xff}}
	nk := 2 + g.Intn(7)
	var keys []string
	for len(keys) < nk {
		k := []byte{}
		for n := g.Intn(4); n >= 0 && len(k) < 4; n-- {
			k = append(k, alphabet[g.Intn(len(alphabet))]...)
		}
		if g.chance(0.03) {
			k = nil
		}
		if g.chance(0.03) {
			k = bytes.Repeat([]byte{0xff}, 1+g.Intn(300))
		}
		keys = append(keys, hex.EncodeToString(k))
	}
	key := func() string { return keys[g.Intn(len(keys))] }
	clean := g.Prop == "C20" && g.chance(0.6)
	big := g.Intn(8)
	size := func() int64 {
		switch {
		case big == 0 && g.chance(0.3):
			return int64(200_000 + g.Intn(1_500_000))
		case big <= 3 && g.chance(0.3):
			return int64(20_000 + g.Intn(60_000))
		case g.chance(0.3):
			return int64(g.Intn(3000))
		}
		return int64(g.Intn(21) - 1) // -1: empty
	}
	for s := 0; s < ns; s++ {
		n := 4 + g.Intn(30)
		if g.chance(0.2) {
			n = 40 + g.Intn(60)
		}
		wmix := g.Intn(3)
		for i := 0; i < n; i++ {
			o := Op{W: g.Intn(int(g.P["workers"])), T: int64(s)}
			x := g.Intn(100)
			if wmix == 1 && x >= 55 {
				x = g.Intn(55)
			}
			switch {
			case x < 25:
				o.K, o.S, o.N = "put", []string{key()}, []int64{size()}
			case x < 35:
				o.K, o.S = "del", []string{key()}
			case x < 55:
				o.K = "batch"
				for j := 1 + g.Intn(6); j > 0; j-- {
					switch {
					case g.chance(0.08):
						o.S = append(o.S, "r")
						o.N = append(o.N, 0)
					case g.chance(0.25):
						o.S = append(o.S, "d"+key())
						o.N = append(o.N, 0)
					default:
						o.S = append(o.S, "p"+key())
						o.N = append(o.N, size())
					}
				}
				if g.chance(0.15) { // write it a second time
					o.S = append(o.S, "w")
					o.N = append(o.N, 0)
					for g.chance(0.6) { // after something else, or with more in it
						o.S = append(o.S, g.pick("o", "o", "d", "p")+key())
						o.N = append(o.N, size())
					}
				}
			case x < 80:
				o.K, o.S = "get", []string{key()}
			case x < 99:
				o.K = "iter"
				switch g.Intn(4) {
				case 0:
					o.S = []string{"all"}
				case 1:
					p := key()
					if l := len(p); l > 2 && g.chance(0.6) {
						p = p[:2*(1+g.Intn(l/2))]
					}
					o.S = []string{"pre", p}
				default:
					o.S = []string{"rng", key(), key()}
					if g.chance(0.2) {
						o.S[2] = "-"
					}
					if g.chance(0.1) {
						o.S[1] = "-"
					}
				}
				o.N = []int64{int64(g.Intn(1 << 20)), int64(g.Intn(3))}
			default:
				o.K = "foreign"
			}
			g.add(o)
		}
		if !clean {
			if g.chance(0.35) {
				for j := 1 + g.Intn(2); j > 0; j-- {
					o := Op{K: "fault", T: int64(s), N: []int64{int64(g.Intn(8)), int64(g.Intn(40)), 1, int64(g.Intn(3)), int64(g.Intn(40) - 1)}}
					if g.chance(0.3) {
						o.N[2] = int64(2 + g.Intn(30))
					}
					if g.chance(0.15) {
						o.N[2] = 1 << 40
					}
					if g.chance(0.3) {
						o.N[1] = int64(g.Intn(300))
					}
					if g.chance(0.25) { // while opening
						o.N[0], o.N[1] = []int64{0, 1, 1, 4, 7}[g.Intn(5)], int64(g.Intn(12))
						o.N[2] = int64(1 + g.Intn(3))
					}
					g.add(o)
				}
			}
			if g.chance(0.08) {
				g.add(Op{K: "cap", T: int64(s), N: []int64{int64(g.Intn(1 << uint(5+g.Intn(16))))}})
			}
		}
		e := Op{K: "end", T: int64(s), N: []int64{0, 0, 0, 0}}
		if s < ns-1 || g.chance(0.5) {
			m := g.Intn(6)
			if clean && g.chance(0.7) {
				m = 0
			}
			switch m {
			case 0: // close in order
			case 1: // kill / power loss after everything returned
				e.N = []int64{1, int64(g.Intn(3)), 0, 0}
			case 2: // at a random moment
				e.N = []int64{2, int64(g.Intn(3)), int64(g.Intn(20_000_000)), 0}
				if g.chance(0.5) {
					e.N[2] = int64(g.Intn(1_000_000))
				}
			default: // at a disk operation
				e.N = []int64{3, int64(g.Intn(3)), int64(g.Intn(120)), int64(g.Intn(60) - 1)}
				if g.chance(0.25) {
					e.N[2] = int64(g.Intn(20)) // while opening
				}
				if g.chance(0.2) {
					e.N[2] = int64(g.Intn(1000))
				}
			}
		}
		g.add(e)
	}
}

func execKV(r *Run) {
	w := r.w
	e := &kvEnv{r: r, fs: simrt.NewFS(w), kidx: map[string]int{}, vals: map[string]int{"": 0}, bytes: []int{0}}
	if m := r.p("small") % 4; m != 0 { // compactions within short runs
		opt.DefaultWriteBuffer = []int{0, 512, 4096, 65536}[m]
		opt.DefaultCompactionTableSize = []int{0, 1024, 2048, 32768}[m]
		opt.DefaultBlockSize = 512
		opt.DefaultCompactionTotalSize = 8 * opt.DefaultCompactionTableSize
	}
	// the key domain, in order
	var ks []string
	add := func(h string) {
		b, err := hex.DecodeString(h)
		if err == nil {
			if _, ok := e.kidx[string(b)]; !ok {
				e.kidx[string(b)] = 0
				ks = append(ks, string(b))
			}
		}
	}
	for _, o := range r.Ops {
		switch o.K {
		case "put", "del", "get":
			add(o.s(0))
		case "batch":
			for _, s := range o.S {
				if len(s) > 0 && (s[0] == 'p' || s[0] == 'd' || s[0] == 'o') {
					add(s[1:])
				}
			}
		}
	}
	sort.Strings(ks)
	for i, k := range ks {
		e.kidx[k] = i
		e.keys = append(e.keys, []byte(k))
	}
	for s := int64(0); s < r.p("sess"); s++ {
		if !e.session(int(s)) {
			return
		}
	}
	// what is there in the end, with a sound disk
	e.fs.Fault = nil
	e.fs.Cap = 0
	e.sess = int(r.p("sess"))
	e.fault = 0
	if !e.open(true) {
		return
	}
	done := false
	simrt.GoNode(e.node, "final", func() {
		e.snapshot()
		e.db.Close()
		done = true
	})
	if !simrt.BlockUntil("kv final", w.NowNs()+600*sec, func() bool { return done || e.node.Dead }) || !done {
		r.Fail("C19,C20", "stuck", "reading everything back does not end: %s", firstLines(e.node.Panic+"\n"+e.node.Stack, 12))
		return
	}
	w.KillNode(e.node)
	e.check()
}

// open opens the store; with must it has to succeed.
func (e *kvEnv) open(must bool) bool {
	r, w := e.r, e.r.w
	for try := 0; ; try++ {
		if try == 3 {
			e.fs.Fault = nil
			e.fs.Cap = 0
		}
		e.node = w.NewNode(fmt.Sprintf("store%d.%d", e.sess, try))
		e.node.FS = e.fs
		n0 := e.fault
		clean := e.fs.Fault == nil && e.fs.Cap == 0
		opened := false
		simrt.GoNode(e.node, "open", func() {
			e.db = leveldbkv.OpenDB("/store/db")
			opened = true
		})
		e.fs.MkdirAllRaw("/store")
		ok := simrt.BlockUntil("kv open", w.NowNs()+600*sec, func() bool { return opened || e.node.Dead })
		if opened && !e.node.Dead {
			e.opens = append(e.opens, w.Seq())
			return true
		}
		if !ok {
			r.Fail("C19,C20", "stuck", "opening the store does not end")
			return false
		}
		if e.node.Panic != "" {
			w.Probe("open-refused")
			if len(e.opens) == 0 {
				// interrupted while it was created: nothing is lost, and
				// the operator starts over
				w.Probe("creation-interrupted")
				for _, p := range e.fs.List() {
					if strings.HasPrefix(p, "/store/") {
						e.fs.Delete(p)
					}
				}
				continue
			}
			if clean || (e.fault == n0 && !must && e.fs.Cap == 0 && e.fault == 0) {
				r.Fail("C19", "cannot-open", "the store cannot be opened after %s: %s", e.past(), firstLines(e.node.Panic, 3))
				return false
			}
		} else { // it crashed while opening
			e.crash = append(e.crash, w.Seq())
			if e.endMode()%2 == 1 {
				e.fs.PowerLoss()
			}
			e.fs.Fault = nil
		}
	}
}

func (e *kvEnv) past() string {
	if len(e.crash) == 0 && !e.disk {
		return "an orderly close"
	}
	s := []string{}
	if len(e.crash) > 0 {
		s = append(s, fmt.Sprintf("%d crashes", len(e.crash)))
	}
	if e.disk {
		s = append(s, "disk errors")
	}
	return strings.Join(s, " and ")
}

func (e *kvEnv) endMode() int64 {
	for _, o := range e.r.Ops {
		if o.K == "end" && o.T == int64(e.sess) {
			return o.n(1)
		}
	}
	return 0
}

func (e *kvEnv) session(s int) bool {
	r, w := e.r, e.r.w
	e.sess = s
	e.fault = 0
	var end Op
	end.N = []int64{0, 0, 0, 0}
	type flt struct {
		Op
		seen int64
	}
	var faults []*flt
	work := make([][]Op, r.p("workers"))
	total := 0
	e.fs.Cap = 0
	for _, o := range r.Ops {
		if o.T != int64(s) {
			continue
		}
		switch o.K {
		case "fault":
			faults = append(faults, &flt{Op: o})
		case "end":
			end = o
		case "cap":
			e.fs.Cap = int(o.n(0)) + e.used()
		default:
			if len(work) > 0 {
				work[o.W%len(work)] = append(work[o.W%len(work)], o)
				total++
			}
		}
	}
	var ops int64
	kinds := []string{"write", "sync", "open", "read", "rename", "remove", "close", ""}
	if len(faults) > 0 || end.n(0) == 3 {
		e.fs.Fault = func(op, path string, n int) *simrt.FSFault {
			ops++
			if end.n(0) == 3 && ops == end.n(2) {
				return &simrt.FSFault{Crash: true, Partial: int(end.n(3))}
			}
			if strings.HasSuffix(path, "/LOG") && op != "open" {
				return nil // the engine's own diary
			}
			for _, f := range faults {
				k := kinds[f.n(0)%8]
				if k != "" && k != op {
					continue
				}
				f.seen++
				if f.seen > f.n(1) && f.seen-f.n(1) <= f.n(2) {
					if e.fault == 0 {
						e.fault = w.Seq()
					}
					e.disk = true
					x := &simrt.FSFault{Err: []error{syscall.EIO, syscall.ENOSPC, syscall.EROFS}[f.n(3)%3], Partial: int(f.n(4))}
					if op != "write" {
						x.Partial = 0
					} else if x.Partial < 0 {
						x.Partial = 1 << 30 // everything reached the file and yet an error
					}
					return x
				}
			}
			return nil
		}
	} else {
		e.fs.Fault = nil
	}
	if e.fs.Cap > 0 {
		e.disk = true
	}
	if !e.open(false) {
		return false
	}
	finished := 0
	started := false
	simrt.GoNode(e.node, "first", func() {
		e.snapshot()
		started = true
	})
	wait := func(pred func() bool) bool {
		return simrt.BlockUntil("kv session", w.NowNs()+1200*sec, func() bool { return pred() || e.node.Dead })
	}
	if !wait(func() bool { return started }) {
		r.Fail("C19,C20", "stuck", "reading the store after opening does not end")
		return false
	}
	if started && !e.node.Dead {
		for i := range work {
			ws := work[i]
			i := i
			simrt.GoNode(e.node, fmt.Sprintf("worker%d", i), func() {
				for _, o := range ws {
					e.do(i, o)
				}
				finished++
			})
		}
		if end.n(0) == 2 {
			sleepNs(end.n(2))
			e.kill("crash-at-time")
		}
	}
	if !wait(func() bool { return finished == len(work) }) {
		r.Fail("C19,C20", "stuck", "after 1200 s only %d of %d tasks using the store are done", finished, len(work))
		return false
	}
	if e.node.Panic != "" {
		r.Fail("C19,C20", "panic", "the store panics in use: %s", firstLines(e.node.Panic+"\n"+e.node.Stack, 14))
		return false
	}
	if total > 0 {
		r.res.Nontrivial = true
	}
	if e.fault > 0 {
		w.Probe("session-with-disk-errors")
	}
	if !e.node.Dead {
		if end.n(0) == 0 {
			closed := false
			simrt.GoNode(e.node, "close", func() {
				err := e.db.Close()
				if err != nil && e.fault == 0 && e.fs.Cap == 0 {
					r.Fail("C19", "close", "closing the store fails although the disk is sound: %v", err)
				}
				closed = true
			})
			if !wait(func() bool { return closed }) {
				r.Fail("C19,C20", "stuck", "closing the store does not end")
				return false
			}
			w.Probe("closed")
		}
		e.kill("")
		if end.n(0) == 0 {
			return true
		}
	}
	e.crash = append(e.crash, w.Seq())
	w.Probe("crash")
	e.fs.Fault = nil
	if end.n(1) > 0 {
		e.fs.PowerLoss()
	}
	return true
}

func (e *kvEnv) used() int {
	n := 0
	for _, p := range e.fs.List() {
		n += len(e.fs.Peek(p))
	}
	return n
}

func (e *kvEnv) kill(why string) {
	if !e.node.Dead {
		if why != "" {
			e.r.w.Fault(why)
		}
		e.r.w.KillNode(e.node)
	}
}

// value makes a fresh value of about n bytes.
func (e *kvEnv) value(n int64) ([]byte, int) {
	if n < 0 {
		return []byte{}, 0
	}
	id := len(e.bytes)
	b := []byte(fmt.Sprintf("v%d.", id))
	if n > 2<<20 {
		n = 2 << 20
	}
	x := uint32(id)*2654435761 + 12345
	for int64(len(b)) < n {
		x = x*1664525 + 1013904223
		b = append(b, byte(x>>24))
	}
	e.vals[string(b)] = id
	e.bytes = append(e.bytes, len(b))
	return b, id
}

// found maps bytes read for a key to a value identity.
func (e *kvEnv) found(key []byte, v []byte) int {
	id, ok := e.vals[string(v)]
	if !ok {
		s := v
		if len(s) > 40 {
			s = s[:40]
		}
		e.r.Fail("C19,C20", "foreign-value", "the value %q... (%d bytes) read for key %x was never written", s, len(v), key)
		return -2
	}
	return id
}

func (e *kvEnv) begin(kind string, worker int) *kvop {
	o := &kvop{id: len(e.hist), kind: kind, worker: worker, sess: e.sess, call: simrt.W.Seq(), val: -1}
	e.hist = append(e.hist, o)
	return o
}

// finish notes the result; an error is only in order if the disk failed.
func (e *kvEnv) finish(o *kvop, err error) {
	o.ret = simrt.W.Seq()
	if err != nil {
		o.err = err.Error()
		if e.fault == 0 && e.fs.Cap == 0 {
			e.r.Fail("C20", "spurious-error", "%s fails although the disk is sound: %v", o, err)
		}
		e.r.w.Probe("op-error")
	} else {
		e.r.w.Probe("op-" + o.kind)
	}
	e.r.w.Event("kv %s", o)
}

func (e *kvEnv) get(worker int, key []byte) {
	o := e.begin("get", worker)
	o.key = e.kidx[string(key)]
	v, err := e.db.Get(key)
	if err == e.db.ErrNotFound() && err != nil {
		err = nil
	} else if err == nil {
		o.val = e.found(key, v)
		for i := range v { // the result is the caller's
			v[i] ^= 0x55
		}
	}
	e.finish(o, err)
}

func (e *kvEnv) snapshot() {
	e.iterate(-1, nil, nil, nil, 1, 0)
	for _, k := range e.keys {
		e.get(-1, append([]byte{}, k...))
	}
}

func (e *kvEnv) do(worker int, p Op) {
	r := e.r
	key := func(h string) []byte { b, _ := hex.DecodeString(h); return b }
	switch p.K {
	case "get":
		e.get(worker, key(p.s(0)))
	case "put":
		k := key(p.s(0))
		v, id := e.value(p.n(0))
		o := e.begin("put", worker)
		o.writes = []kvw{{e.kidx[string(k)], id}}
		err := e.db.Put(k, v)
		e.finish(o, err)
		for i := range v { // the arguments are the caller's again
			v[i] = '#'
		}
		for i := range k {
			k[i] = '#'
		}
	case "del":
		k := key(p.s(0))
		o := e.begin("del", worker)
		o.writes = []kvw{{e.kidx[string(k)], -1}}
		err := e.db.Delete(k)
		e.finish(o, err)
		for i := range k {
			k[i] = '#'
		}
	case "batch":
		b := e.db.NewBatch()
		var ws []kvw
		write := func() {
			o := e.begin("batch", worker)
			o.writes = append([]kvw{}, ws...)
			e.finish(o, e.db.Write(b))
		}
		for i, s := range p.S {
			if s == "" {
				continue
			}
			switch s[0] {
			case 'r':
				b.Reset()
				ws = nil
			case 'w':
				write()
			case 'o':
				k := key(s[1:])
				v, id := e.value(p.n(i))
				o := e.begin("put", worker)
				o.writes = []kvw{{e.kidx[string(k)], id}}
				e.finish(o, e.db.Put(k, v))
			case 'p':
				k := key(s[1:])
				v, id := e.value(p.n(i))
				b.Put(k, v)
				ws = append(ws, kvw{e.kidx[string(k)], id})
				for i := range v {
					v[i] = '#'
				}
				for i := range k {
					k[i] = '#'
				}
			case 'd':
				k := key(s[1:])
				b.Delete(k)
				ws = append(ws, kvw{e.kidx[string(k)], -1})
				for i := range k {
					k[i] = '#'
				}
			}
		}
		write()
	case "foreign":
		if err := e.db.Write(alienBatch{}); err == nil {
			r.Fail("C20", "foreign-batch", "writing a batch of another store succeeds")
		}
	case "iter":
		var rg *kv.Range
		switch p.s(0) {
		case "pre":
			pre := key(p.s(1))
			rg = kv.BytesPrefix(pre)
			e.prefix(pre, rg)
		case "rng":
			rg = &kv.Range{}
			if p.s(1) != "-" {
				rg.Start = key(p.s(1))
			}
			if p.s(2) != "-" {
				rg.Limit = key(p.s(2))
			}
		}
		var pre []byte
		if p.s(0) == "pre" {
			pre = key(p.s(1))
			if pre == nil {
				pre = []byte{}
			}
		}
		e.iterate(worker, rg, pre, nil, p.n(0), p.n(1))
	}
}

type alienBatch struct{}

func (alienBatch) Reset()                {}
func (alienBatch) Put(key, value []byte) {}
func (alienBatch) Delete(key []byte)     {}

func inRange(k []byte, rg *kv.Range) bool {
	return rg == nil || bytes.Compare(k, rg.Start) >= 0 && (rg.Limit == nil || bytes.Compare(k, rg.Limit) < 0)
}

// prefix checks the range of a prefix on the keys in use and their neighbours.
func (e *kvEnv) prefix(p []byte, rg *kv.Range) {
	var ks [][]byte
	for _, k := range e.keys {
		ks = append(ks, k, append(append([]byte{}, k...), 0), append(append([]byte{}, k...), 0xff))
	}
	ks = append(ks, p, append(append([]byte{}, p...), 0xff, 0xff, 0xff), append(append([]byte{}, p...), 0))
	if len(p) > 0 {
		ks = append(ks, p[:len(p)-1])
		for _, d := range []int{1, -1} {
			q := append([]byte{}, p...)
			q[len(q)-1] = byte(int(q[len(q)-1]) + d)
			ks = append(ks, q)
		}
	}
	for _, k := range ks {
		if bytes.HasPrefix(k, p) != inRange(k, rg) {
			e.r.Fail("C20", "prefix-range", "key %x: has prefix %x: %v, in its range [%x,%x): %v", k, p, bytes.HasPrefix(k, p), rg.Start, rg.Limit, inRange(k, rg))
		}
	}
}

// iterate walks over a range; how decides the walk (1: once through).
func (e *kvEnv) iterate(worker int, rg *kv.Range, pre []byte, _ []byte, how int64, dwell int64) {
	r := e.r
	o := e.begin("iter", worker)
	o.all = rg == nil
	if pre != nil { // judge by the prefix itself, not by the range made of it
		o.lo = append([]byte{}, pre...)
		o.hi = refAfter(pre)
	} else if rg != nil {
		o.lo = append([]byte{}, rg.Start...)
		if rg.Limit != nil {
			o.hi = append([]byte{}, rg.Limit...)
		}
	}
	it := e.db.NewIterator(rg)
	ret := simrt.W.Seq()
	for ; dwell > 0; dwell-- { // others go on meanwhile
		sleepNs(ms)
	}
	bad := func(f string, a ...interface{}) {
		r.Fail("C20", "iterator", "iterating over [%x,%x) all=%v: %s", o.lo, o.hi, o.all, fmt.Sprintf(f, a...))
	}
	type kve struct {
		k []byte
		v int
	}
	var seen []kve
	read := func() (x kve) {
		k := append([]byte{}, it.Key()...)
		v := append([]byte{}, it.Value()...)
		return kve{k, e.found(k, v)}
	}
	lim := 3*len(e.keys) + 10
	for ok := it.First(); ok && lim > 0; ok = it.Next() {
		seen = append(seen, read())
		lim--
	}
	err := it.Error()
	if err == nil {
		for i, x := range seen {
			if i > 0 && bytes.Compare(seen[i-1].k, x.k) >= 0 {
				bad("key %x follows %x", x.k, seen[i-1].k)
			}
			ki, known := e.kidx[string(x.k)]
			if !known {
				bad("key %x was never written", x.k)
				continue
			}
			o.entries = append(o.entries, kvw{ki, x.v})
			if pre != nil && !bytes.HasPrefix(x.k, pre) {
				bad("key %x has not the prefix", x.k)
			}
		}
		// further moves over the same instant
		pos := len(seen)
		for how > 1 && err == nil {
			m := how % 4
			how /= 4
			var ok bool
			switch {
			case m == 0:
				ok = it.First()
				pos = 0
			case m == 1 || pos >= len(seen):
				ok = it.Last()
				pos = len(seen) - 1
			default:
				ok = it.Next()
				pos++
			}
			if err = it.Error(); err != nil {
				break
			}
			if len(seen) == 0 {
				pos = 0
			}
			if ok != (pos < len(seen)) {
				bad("the move to entry %d of %d reports %v", pos, len(seen), ok)
				break
			}
			if ok {
				if x := read(); !bytes.Equal(x.k, seen[pos].k) || x.v != seen[pos].v {
					bad("entry %d is %x=%d now and was %x=%d", pos, x.k, x.v, seen[pos].k, seen[pos].v)
					break
				}
			}
			if !ok {
				pos = len(seen)
			}
		}
	}
	it.Release()
	if err == nil {
		if err = it.Error(); err != nil {
			bad("an error after release: %v", err)
		}
	}
	if err != nil {
		o.partial = true
	}
	e.finish(o, err)
	o.ret = ret // the instant lies within NewIterator
}

// refAfter is the first key after all keys with the prefix, nil if none.
func refAfter(p []byte) []byte {
	q := append([]byte{}, p...)
	for len(q) > 0 && q[len(q)-1] == 0xff {
		q = q[:len(q)-1]
	}
	if len(q) == 0 {
		return nil
	}
	q[len(q)-1]++
	return q
}

// ---- the oracle ----

type linState struct {
	ops  []*kvop
	keys [][]byte
	memo map[string]bool
	n    int
	best []bool
	bn   int
	bst  []int32
}

func (l *linState) explains(o *kvop, st []int32) bool {
	switch o.kind {
	case "get":
		return int(st[o.key]) == o.val
	case "iter":
		i := 0
		for k := range l.keys {
			if st[k] < 0 {
				continue
			}
			if !o.all && (bytes.Compare(l.keys[k], o.lo) < 0 || o.hi != nil && bytes.Compare(l.keys[k], o.hi) >= 0) {
				continue
			}
			if i >= len(o.entries) || o.entries[i].key != k || o.entries[i].val != int(st[k]) {
				return false
			}
			i++
		}
		return i == len(o.entries)
	}
	return true
}

func (l *linState) search(done []bool, st []int32, maxCall int64, left int) bool {
	done = append([]bool{}, done...)
	for {
		minRet := int64(math.MaxInt64)
		for i, o := range l.ops {
			if !done[i] && !o.maybe && o.ret < minRet {
				minRet = o.ret
			}
		}
		greedy := false
		for i, o := range l.ops {
			if done[i] || o.call > minRet || len(o.writes) > 0 || o.maybe || o.kind != "get" && o.kind != "iter" {
				continue
			}
			// not past the last moment of an undecided write
			late := false
			for j, m := range l.ops {
				if m.maybe && !done[j] && m.deadline >= maxCall && m.deadline < o.call {
					late = true
				}
			}
			if !late && l.explains(o, st) {
				done[i] = true
				left--
				if o.call > maxCall {
					maxCall = o.call
				}
				greedy = true
			}
		}
		if left == 0 {
			return true
		}
		if greedy {
			continue
		}
		break
	}
	nd := len(l.ops) - left
	if nd > l.bn {
		l.bn = nd
		l.best = append([]bool{}, done...)
		l.bst = append([]int32{}, st...)
	}
	l.n++
	if l.n > 60000 {
		return false
	}
	kb := make([]byte, 0, len(done)+2*len(st))
	for i, d := range done {
		if l.ops[i].maybe && l.ops[i].deadline < maxCall {
			d = true
		}
		if d {
			kb = append(kb, 1)
		} else {
			kb = append(kb, 0)
		}
	}
	for _, v := range st {
		kb = append(kb, byte(v), byte(v>>8))
	}
	key := string(kb)
	if l.memo[key] {
		return false
	}
	l.memo[key] = true
	minRet := int64(math.MaxInt64)
	for i, o := range l.ops {
		if !done[i] && !o.maybe && o.ret < minRet {
			minRet = o.ret
		}
	}
	for i, o := range l.ops {
		if done[i] || o.call > minRet || o.maybe && o.deadline < maxCall || !l.explains(o, st) {
			continue
		}
		ns := append([]int32{}, st...)
		for _, x := range o.writes {
			ns[x.key] = int32(x.val)
		}
		done[i] = true
		mc := maxCall
		if o.call > mc {
			mc = o.call
		}
		dl := 0
		if !o.maybe {
			dl = 1
		}
		if l.search(done, ns, mc, left-dl) {
			return true
		}
		done[i] = false
	}
	return false
}

// linear looks for an order of ops that the map explains, from st on.
func (e *kvEnv) linear(ops []*kvop, st []int32) (ok, sure bool, why string) {
	seen := map[int]bool{}
	for _, o := range ops {
		if o.kind == "get" {
			seen[o.val] = true
		}
		for _, x := range o.entries {
			seen[x.val] = true
		}
	}
	l := &linState{keys: e.keys, memo: map[string]bool{}}
	left := 0
	for _, o := range ops {
		if o.maybe {
			// an unfinished write nobody can have seen needs no place
			useful := false
			for _, x := range o.writes {
				if x.val < 0 || seen[x.val] {
					useful = true
				}
			}
			if !useful {
				continue
			}
		} else {
			left++
		}
		l.ops = append(l.ops, o)
	}
	if l.search(make([]bool, len(l.ops)), st, 0, left) {
		return true, true, ""
	}
	if l.n > 60000 {
		return false, false, ""
	}
	// explain where it gets stuck
	var b strings.Builder
	minRet := int64(math.MaxInt64)
	for i, o := range l.ops {
		if l.best != nil && !l.best[i] && !o.maybe && o.ret < minRet {
			minRet = o.ret
		}
	}
	n := 0
	for i, o := range l.ops {
		if l.best != nil && !l.best[i] && o.call <= minRet && n < 6 {
			fmt.Fprintf(&b, " %s;", o)
			n++
		}
	}
	return false, true, fmt.Sprintf("%d of %d operations fit some order; with state %v none of these can follow:%s", l.bn, len(l.ops), l.bst, b.String())
}

func (e *kvEnv) check() {
	r := e.r
	end := simrt.W.Seq()
	var all []*kvop
	for _, o := range e.hist {
		read := o.kind == "get" || o.kind == "iter"
		if read && (o.ret == 0 || o.err != "" || o.partial) {
			continue
		}
		if !read && (o.ret == 0 || o.err != "") {
			o.maybe = true
			o.deadline = end
			for i := len(e.opens) - 1; i >= 0; i-- {
				if e.opens[i] > o.call {
					o.deadline = e.opens[i]
				}
			}
			o.ret = math.MaxInt64
		}
		all = append(all, o)
	}
	// each session by itself, from what its first iteration showed
	for s := 0; s <= int(r.p("sess")); s++ {
		var ops []*kvop
		st := make([]int32, len(e.keys))
		for i := range st {
			st[i] = -1
		}
		first, bad := true, false
		for _, o := range all {
			if o.sess != s {
				continue
			}
			if first {
				first = false
				if o.kind != "iter" || !o.all || o.worker != -1 {
					bad = true
				}
				for _, x := range o.entries {
					if x.key < len(st) {
						st[x.key] = int32(x.val)
					}
				}
			}
			if o.maybe && o.err != "" {
				bad = true // a disk error: judged below
			}
			ops = append(ops, o)
		}
		if bad || len(ops) == 0 {
			continue
		}
		ok, sure, why := e.linear(ops, st)
		if !sure {
			r.w.Probe("lin-inconclusive")
		} else if !ok {
			r.Fail("C20", "not-linearizable", "session %d: %s", s, why)
			return
		} else {
			r.w.Probe("lin-ok")
		}
	}
	st := make([]int32, len(e.keys))
	for i := range st {
		st[i] = -1
	}
	ok, sure, why := e.linear(all, st)
	if !sure {
		r.w.Probe("lin-inconclusive")
	} else if !ok {
		r.Fail("C19", "lost-or-torn", "after %s: %s", e.past(), why)
	} else {
		r.w.Probe("lin-all-ok")
	}
}

func init() {
	register(&Scenario{Name: "kv", Gen: genKV, Exec: execKV, Hang: "C19,C20",
		Lim: simrt.Limits{MaxYields: 40_000_000, MaxSwitch: 3_000_000, MaxSimTime: 36000 * sec}},
		"C19", "C20")
}
