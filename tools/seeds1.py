# id -> (property, needs, breaks, edits, pkg, demo)
S={}
def seed(id,prop,needs,breaks,edits,pkg,demo): S[id]=(prop,needs,breaks,edits,pkg,demo)

seed('timer-reset-first','C12',
 'a policy reload that changes the epoch deadline, followed by two epoch changes',
 'the epoch timer is armed before the epoch change is applied, so an epoch lasts as long as the deadline of the previous epoch instead of the one its own signed root announces',
 [('application/serverbase.go','''			sb.Lock()
			f()
			timer.Reset(timer.duration)
			sb.Unlock()''','''			sb.Lock()
			// don't let the duration of the update add to the epoch
			timer.Reset(timer.duration)
			f()
			sb.Unlock()''')],
 'application','''package application

import (
	"path"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	sb := NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development",
		Path: path.Join(t.TempDir(), "log")}}, "Listen", nil)
	timer := NewEpochTimer(1)
	var at []time.Time
	done := make(chan bool)
	sb.RunInBackground(func() {
		sb.EpochUpdate(timer, func() {
			// what the server does: the new epoch announces 3 s from now on
			timer.SetDeadline(3)
			at = append(at, time.Now())
			if len(at) == 2 {
				close(done)
			}
		})
	})
	<-done
	if d := at[1].Sub(at[0]); d < 2500*time.Millisecond {
		t.Fatal("an epoch announced for 3s lasted", d)
	}
	sb.Shutdown()
}
''')

OVERLAP='''package application

import (
	"fmt"
	"net"
	"path"
	"sync/atomic"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/protocol"
)

func ask(t *testing.T, file, msg string) {
	c, err := net.Dial("unix", file)
	if err != nil {
		t.Error(err)
		return
	}
	defer c.Close()
	fmt.Fprint(c, msg)
	c.(*net.UnixConn).CloseWrite()
	buf := make([]byte, 100)
	c.Read(buf)
}
'''
seed('register-readlock','C01',
 'two registrations, or a registration and an epoch change or lookup, handled at the same time',
 'registrations run under the shared lock, so two of them (or a registration and a lookup) interleave: a name can be registered twice and the maps of the directory are modified concurrently',
 [('application/serverbase.go','''			switch req.Type {
			case protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
				sb.RLock()
			default:
				sb.Lock()
			}
''','''			switch req.Type {
			case protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
				// none of these changes the published snapshots
				sb.RLock()
			default:
				sb.Lock()
			}
'''),('application/serverbase.go','''			switch req.Type {
			case protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
				sb.RUnlock()
			default:''','''			switch req.Type {
			case protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
				sb.RUnlock()
			default:''')],
 'application',OVERLAP+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	file := path.Join(dir, "s")
	addr := &ServerAddress{Address: "unix://" + file}
	sb := NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development",
		Path: path.Join(dir, "log")}}, "Listen", map[*ServerAddress]map[int]bool{
		addr: {protocol.RegistrationType: true, protocol.KeyLookupType: true}})
	var busy, overlap int32
	sb.ListenAndHandle(addr, func(req *protocol.Request) *protocol.Response {
		if req.Type == protocol.RegistrationType {
			if atomic.AddInt32(&busy, 1) > 1 {
				atomic.StoreInt32(&overlap, 1)
			}
			time.Sleep(300 * time.Millisecond)
			atomic.AddInt32(&busy, -1)
		} else if atomic.LoadInt32(&busy) > 0 {
			atomic.StoreInt32(&overlap, 1)
		}
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	done := make(chan bool, 3)
	for _, m := range []string{`{"type":0,"request":{"Username":"a","Key":"AA=="}}`,
		`{"type":0,"request":{"Username":"b","Key":"AA=="}}`,
		`{"type":1,"request":{"Username":"a"}}`} {
		m := m
		go func() { ask(t, file, m); done <- true }()
		time.Sleep(50 * time.Millisecond)
	}
	<-done
	<-done
	<-done
	sb.Shutdown()
	if overlap != 0 {
		t.Fatal("a registration was not exclusive")
	}
}
''')

seed('epoch-change-unlocked','C01',
 'an epoch change while a request is being handled',
 'the epoch change is carried out without the lock that the request handlers hold, so the parts of one answer can belong to different snapshots and a registration in progress can be lost between them',
 [('application/serverbase.go','''			sb.Lock()
			f()
			timer.Reset(timer.duration)
			sb.Unlock()
''','''			f()
			sb.Lock()
			timer.Reset(timer.duration)
			sb.Unlock()
''')],
 'application',OVERLAP+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	file := path.Join(dir, "s")
	addr := &ServerAddress{Address: "unix://" + file}
	sb := NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development",
		Path: path.Join(dir, "log")}}, "Listen", map[*ServerAddress]map[int]bool{
		addr: {protocol.RegistrationType: true}})
	var busy, overlap int32
	sb.ListenAndHandle(addr, func(req *protocol.Request) *protocol.Response {
		atomic.StoreInt32(&busy, 1)
		time.Sleep(2 * time.Second)
		atomic.StoreInt32(&busy, 0)
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	var once int32
	updated := make(chan bool)
	sb.RunInBackground(func() {
		sb.EpochUpdate(NewEpochTimer(1), func() {
			if atomic.LoadInt32(&busy) == 1 {
				atomic.StoreInt32(&overlap, 1)
			}
			if atomic.AddInt32(&once, 1) == 1 {
				close(updated)
			}
		})
	})
	ask(t, file, `{"type":0,"request":{"Username":"a","Key":"AA=="}}`)
	<-updated
	sb.Shutdown()
	if overlap != 0 {
		t.Fatal("the epoch changed in the middle of a request")
	}
}
''')

seed('read-deadline-only','C11',
 'a peer that sends a complete request but never reads its large answer, and then a shutdown',
 'only reading is bounded in time: a peer that does not take its answer keeps its handler (and a shutdown) waiting forever',
 [('application/serverbase.go','''	conn.SetDeadline(time.Now().Add(5 * time.Second))
''','''	// a peer that doesn't send its request in time is disconnected
	conn.SetReadDeadline(time.Now().Add(5 * time.Second))
''')],
 'application',OVERLAP+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	file := path.Join(dir, "s")
	addr := &ServerAddress{Address: "unix://" + file}
	sb := NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development",
		Path: path.Join(dir, "log")}}, "Listen", map[*ServerAddress]map[int]bool{
		addr: {protocol.MonitoringType: true}})
	str := protocol.NewSTRHistoryRange(nil)
	big := str.DirectoryResponse.(*protocol.STRHistoryRange)
	big.STR = make([]*protocol.DirSTR, 2000000)
	var n int32
	sb.ListenAndHandle(addr, func(req *protocol.Request) *protocol.Response {
		atomic.AddInt32(&n, 1)
		return str
	})
	c, err := net.Dial("unix", file)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	fmt.Fprint(c, `{"type":3,"request":{"Username":"a"}}`)
	c.(*net.UnixConn).CloseWrite()
	for atomic.LoadInt32(&n) == 0 {
		time.Sleep(10 * time.Millisecond)
	}
	done := make(chan bool)
	go func() { sb.Shutdown(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("a peer that does not read blocks the shutdown")
	}
}
''')

BYZ='''
import (
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)
'''
seed('same-signature-same-root','C06',
 'a directory that repeats the epoch and signature of a root the client has verified, but with another tree hash (of a tree the directory never signed)',
 'for a root of the same epoch only the signature is compared, not what it was verified for: a forged tree hash is accepted together with a proof against it',
 [('protocol/auditor/auditor.go','''	if reflect.DeepEqual(a.verifiedSTR, str) {''','''	// the signature covers all other parts of the STR
	if bytes.Equal(a.verifiedSTR.Signature, str.Signature) {'''),
  ('protocol/auditor/auditor.go','''	"reflect"
''','''	"bytes"
''')],
 'protocol/client','''package client
'''+BYZ+'''
func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	pk, _ := sk.Public()
	vk, _ := vrf.GenerateKey(nil)
	d := directory.New(60, vk, sk, 100, true)
	forged := directory.New(60, vk, sk, 100, true)
	forged.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("evil")})
	forged.Update()
	forged2 := forged.LatestSTR()
	cc := New(d.LatestSTR(), true, pk)
	r := forged.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"})
	df := r.DirectoryResponse.(*protocol.DirectoryProof)
	genuine := *d.LatestSTR().SignedTreeRoot
	root := genuine
	root.TreeHash = forged2.TreeHash
	df.STR[0] = &protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{
		TreeHash: root.TreeHash, Epoch: root.Epoch, PreviousEpoch: root.PreviousEpoch,
		PreviousSTRHash: root.PreviousSTRHash, Signature: root.Signature, Ad: root.Ad,
	}, Policies: d.LatestSTR().Policies}
	if err := cc.HandleResponse(protocol.KeyLookupType, r, "alice", nil); err == nil {
		t.Fatal("accepted a root that was never signed")
	}
}
''')

BOT='''package bots

import (
	"fmt"
	"net"
	"path"
	"strings"
	"sync/atomic"
	"testing"
)

var _ = strings.Contains
var _ = fmt.Sprint
'''
seed('bot-name-prefix','C17',
 'a registration for a name that begins with the sender\'s name and "@twitter" but goes on after it',
 'the bot only compares the beginning of the requested name with the sender: a sender registers names that are not his own',
 [('application/bots/twitterbot.go','''			!strings.EqualFold(strings.ToLower(username)+"@twitter", request.Username) {''',
   '''			!strings.HasPrefix(strings.ToLower(request.Username), strings.ToLower(username)+"@twitter") {''')],
 'application/bots',BOT+'''
func TestDemo(t *testing.T) {
	file := path.Join(t.TempDir(), "s")
	l, err := net.Listen("unix", file)
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var n int32
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt32(&n, 1)
			c.Write([]byte("answer"))
			c.Close()
		}
	}()
	bot := &TwitterBot{coniksAddress: file, handle: "bot"}
	for _, name := range []string{"alice@twitter.com", "alice@twitterbob", "alice", "bob@twitter"} {
		bot.HandleRegistration("alice", []byte(`{"type":0,"request":{"Username":"`+name+`","Key":"AA=="}}`))
	}
	if atomic.LoadInt32(&n) != 0 {
		t.Fatal("a foreign name reached the key server")
	}
	bot.HandleRegistration("alice", []byte(`{"type":0,"request":{"Username":"alice@twitter","Key":"AA=="}}`))
	if atomic.LoadInt32(&n) != 1 {
		t.Fatal("the own name did not reach the key server")
	}
}
''')

seed('bot-partial-answer','C18',
 'a key server connection that fails after a part of the answer has arrived',
 'the bot passes on a torn answer as if it were the answer of the key server instead of reporting a directory error',
 [('application/bots/bot.go','''	if _, err := io.CopyN(&buf, conn, 8192); err != nil && err != io.EOF {
		return nil, err
	}''','''	if _, err := io.CopyN(&buf, conn, 8192); err != nil && buf.Len() == 0 && err != io.EOF {
		return nil, err
	}''')],
 'application/bots',BOT+'''
func TestDemo(t *testing.T) {
	file := path.Join(t.TempDir(), "s")
	l, err := net.Listen("unix", file)
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var n int32
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt32(&n, 1)
			c.Read(make([]byte, 1)) // the rest stays unread: closing resets the connection
			c.Write([]byte(`{"Error":100,"Direct`))
			c.Close()
		}
	}()
	bot := &TwitterBot{coniksAddress: file, handle: "bot"}
	for i := 0; i < 20; i++ {
		res := bot.HandleRegistration("alice", []byte(`{"type":0,"request":{"Username":"alice@twitter","Key":"AA=="}}`))
		if strings.Contains(res, "Direct") {
			t.Fatal("torn answer passed on: ", res)
		}
	}
}
''')

seed('prefix-limit','C20',
 'a prefix that ends in 0xff bytes, and keys just behind the range of that prefix',
 'the limit of a prefix range keeps the 0xff bytes behind the incremented byte, so the range also covers keys without the prefix',
 [('storage/kv/range.go','''			limit := make([]byte, i+1)
			copy(limit, prefix)
			limit[i] = c + 1
			return limit''','''			limit := append([]byte(nil), prefix...)
			limit[i] = c + 1
			return limit''')],
 'storage/kv/leveldbkv','''package leveldbkv

import (
	"bytes"
	"testing"

	"github.com/coniks-sys/coniks-go/storage/kv"
)

func TestDemo(t *testing.T) {
	db := OpenDB(t.TempDir())
	defer db.Close()
	for _, k := range []string{"a\\xfe", "a\\xff", "a\\xff0", "b", "b0", "b\\xfe", "b\\xff"} {
		if err := db.Put([]byte(k), []byte("v")); err != nil {
			t.Fatal(err)
		}
	}
	for _, p := range []string{"a", "a\\xff", "b", "b\\xff", "\\xff"} {
		it := db.NewIterator(kv.BytesPrefix([]byte(p)))
		for ok := it.First(); ok; ok = it.Next() {
			if !bytes.HasPrefix(it.Key(), []byte(p)) {
				t.Errorf("prefix %q shows %q", p, it.Key())
			}
		}
		it.Release()
	}
}
''')

seed('promise-before-insert','C23',
 'randomness that is unavailable at the moment of a registration, then another request for the same name in the same epoch',
 'the promise is recorded before the binding is inserted: when that fails for lack of randomness, the registration is answered with an error but the promise stays outstanding and is never kept',
 [('protocol/directory/directory.go','''		tb = d.NewTB(req.Username, req.Key)
	}
''','''		tb = d.NewTB(req.Username, req.Key)
		d.tbs[req.Username] = tb
	}
'''),('protocol/directory/directory.go','''	if tb != nil {
		d.tbs[req.Username] = tb
	}
	return protocol.NewRegistrationProof(ap, d.LatestSTR(), tb, protocol.ReqSuccess)''','''	return protocol.NewRegistrationProof(ap, d.LatestSTR(), tb, protocol.ReqSuccess)''')],
 'protocol/directory','''package directory

import (
	"crypto/rand"
	"errors"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
)

type broken struct{}

func (broken) Read(p []byte) (int, error) { return 0, errors.New("no entropy") }

func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	d := New(60, vk, sk, 100, true)
	good := rand.Reader
	rand.Reader = broken{}
	r := d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("k")})
	rand.Reader = good
	if r.Error != protocol.ErrDirectory {
		t.Fatal(r.Error)
	}
	if r = d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"}); r.Error != protocol.ReqNameNotFound {
		t.Fatal("a failed registration left a promise: ", r.Error)
	}
	if r = d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("k")}); r.Error != protocol.ReqSuccess {
		t.Fatal(r.Error)
	}
}
''')

seed('monitor-skips-evicted','C24',
 'more epochs than the configured number of retained snapshots, then a monitoring request that starts before the retained ones',
 'a monitoring request for a range that is partly evicted gets an answer for the rest of the range instead of an error',
 [('protocol/directory/directory.go','''		ap, err := d.pad.LookupInEpoch(req.Username, ep)
		if err != nil {
			return protocol.NewErrorResponse(protocol.ErrDirectory)
		}
		aps = append(aps, ap)''','''		ap, err := d.pad.LookupInEpoch(req.Username, ep)
		if err == merkletree.ErrSTRNotFound && ep < endEp {
			continue
		}
		if err != nil {
			return protocol.NewErrorResponse(protocol.ErrDirectory)
		}
		aps = append(aps, ap)''')],
 'protocol/directory','''package directory

import (
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
)

func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	d := New(60, vk, sk, 4, true)
	d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("k")})
	for e := 1; e < 20; e++ {
		d.Update()
		for s := 0; s <= e; s++ {
			r := d.Monitor(&protocol.MonitoringRequest{Username: "alice", StartEpoch: uint64(s), EndEpoch: uint64(e)})
			if r.Error == protocol.ErrDirectory && s < e-1 {
				continue
			}
			df, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
			if r.Error != protocol.ReqSuccess || !ok || len(df.STR) != e-s+1 || len(df.AP) != e-s+1 {
				t.Fatal("partial answer for epochs", s, "to", e, r.Error)
			}
		}
	}
}
''')

seed('absence-keeps-salt','C22',
 'a lookup of an unregistered name whose private index ends at the leaf of another user',
 'a proof of absence that ends at another user\'s leaf contains the random value that hides that user\'s binding, so guesses of name and key can be confirmed',
 [('merkletree/merkletree.go','''		authPath.Leaf.Value = nil
		authPath.Leaf.Commitment.Salt = nil
		return authPath''','''		authPath.Leaf.Value = nil
		return authPath''')],
 'protocol/directory','''package directory

import (
	"fmt"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
)

func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	d := New(60, vk, sk, 4, true)
	for i := 0; i < 5; i++ {
		d.Register(&protocol.RegistrationRequest{Username: fmt.Sprint("alice", i), Key: []byte("k")})
	}
	d.Update()
	for i := 0; i < 50; i++ {
		r := d.KeyLookup(&protocol.KeyLookupRequest{Username: fmt.Sprint("bob", i)})
		if c := r.DirectoryResponse.(*protocol.DirectoryProof).AP[0].Leaf.Commitment; c != nil && c.Salt != nil {
			t.Fatal("a proof of absence contains an opening")
		}
	}
}
''')

seed('reregister-pending','C02',
 'two registrations of one name with different keys in the same epoch, on different connections',
 'a conflicting registration of a name that is still pending replaces the key and the promise instead of being refused: the first promise is broken',
 [('protocol/directory/directory.go','''		if tb = d.tbs[req.Username]; tb != nil {
			return protocol.NewRegistrationProof(ap, d.LatestSTR(), tb, protocol.ReqNameExisted)
		}''','''		if tb = d.tbs[req.Username]; tb != nil && len(tb.Value) >= len(req.Key) {
			return protocol.NewRegistrationProof(ap, d.LatestSTR(), tb, protocol.ReqNameExisted)
		}''')],
 'protocol/directory','''package directory

import (
	"bytes"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
)

func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	for _, k := range []string{"x", "kk", "another, longer key", "k1", "k2"} {
		d := New(60, vk, sk, 4, true)
		d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("k1")})
		if r := d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte(k)}); r.Error != protocol.ReqNameExisted {
			t.Fatal(k, r.Error)
		}
		d.Update()
		r := d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"})
		if key, _ := r.GetKey(); !bytes.Equal(key, []byte("k1")) {
			t.Fatalf("bound to %q", key)
		}
	}
}
''')

seed('audit-step-by-step','C14',
 'an audit answer with a range of roots of which only a later one is forged or does not continue the chain',
 'the audit log inserts the roots of an answer one by one while it verifies them: a refused answer leaves its first roots in the log',
 [('protocol/auditlog/auditlog.go','''	if err := h.AuditDirectory(strs.STR); err != nil {
		return err
	}

	// TODO: we should be storing inconsistent STRs nonetheless
	// so clients can detect inconsistencies -- or auditors
	// should blow the whistle and not store the bad STRs
	h.insertRange(strs.STR)

	return nil''','''	for i := range strs.STR {
		if err := h.AuditDirectory(strs.STR[i : i+1]); err != nil {
			return err
		}

		// TODO: we should be storing inconsistent STRs nonetheless
		// so clients can detect inconsistencies -- or auditors
		// should blow the whistle and not store the bad STRs
		h.insertRange(strs.STR[i : i+1])
	}

	return nil''')],
 'protocol/auditlog','''package auditlog

import (
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
)

func TestDemo(t *testing.T) {
	d, aud, hist := NewTestAuditLog(t, 0)
	id := auditor.ComputeDirectoryIdentity(hist[0])
	h, _ := aud.get(id)
	for i := 0; i < 4; i++ {
		d.Update()
	}
	r := d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: 1, EndEpoch: 4})
	strs := r.DirectoryResponse.(*protocol.STRHistoryRange).STR
	bad := *strs[2].SignedTreeRoot
	bad.Signature = append([]byte{}, bad.Signature...)
	bad.Signature[0] ^= 1
	strs[2] = &protocol.DirSTR{SignedTreeRoot: &bad, Policies: strs[2].Policies}
	if err := h.Audit(r); err == nil {
		t.Fatal("accepted a forged root")
	}
	if h.VerifiedSTR().Epoch != 0 || len(h.snapshots) != 1 {
		t.Fatal("a refused answer changed the log")
	}
	a := aud.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 0, EndEpoch: 1})
	if a.Error == protocol.ReqSuccess {
		t.Fatal("a refused answer changed the log")
	}
}
''')

seed('equivocation-by-chain','C16',
 'a directory that shows the client and the auditor different roots for the latest epoch only, and an auditor\'s answer with more than one root',
 'when the auditor\'s answer ends at the client\'s epoch with a verified chain, only the predecessors of the two latest roots are compared, so a fork in the latest epoch goes unnoticed',
 [('protocol/client/consistencychecks.go','''		if err := cc.VerifySTRRange(strs.STR[0], strs.STR[1:]); err != nil {
			return err
		}
	}
''','''		if err := cc.VerifySTRRange(strs.STR[0], strs.STR[1:]); err != nil {
			return err
		}
		// the range is verified up to its last STR, so it is consistent
		// with ours if it continues the same history
		last, own := strs.STR[len(strs.STR)-1], cc.VerifiedSTR()
		if last.Epoch == own.Epoch && own.Epoch > 0 &&
			bytes.Equal(last.PreviousSTRHash, own.PreviousSTRHash) {
			return nil
		}
	}
''')],
 'protocol/client','''package client
'''+BYZ.replace('	"github.com/coniks-sys/coniks-go/merkletree"\n','')+'''
func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	pk, _ := sk.Public()
	vk, _ := vrf.GenerateKey(nil)
	d := directory.New(60, vk, sk, 100, true)
	init := d.LatestSTR()
	d.Update()
	d.Update()
	one := d.LatestSTR()
	d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("k")})
	d.Update()
	honest := d.LatestSTR()
	// the other branch: same predecessor, another tree
	fork := *one.SignedTreeRoot
	fork.Epoch, fork.PreviousEpoch, fork.PreviousSTRHash = 3, 2, honest.PreviousSTRHash
	forked := &protocol.DirSTR{SignedTreeRoot: &fork, Policies: one.Policies}
	fork.Signature = sk.Sign(forked.Serialize())

	cc := New(init, true, pk)
	cc.Update(forked)
	r := d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: 1, EndEpoch: 3})
	if err := cc.CheckEquivocation(r); err == nil {
		t.Fatal("the fork went unnoticed")
	}
	cc.Update(honest)
	if err := cc.CheckEquivocation(r); err != nil {
		t.Fatal("false alarm: ", err)
	}
}
''')

seed('cli-retry','C26',
 'a registration whose answer is lost or torn on the network after the server has handled it',
 'the client sends the registration a second time when it got no answer: one command sends two requests, and a name that was just registered by the user is reported as already registered',
 [('cli/coniksclient/internal/cmd/run.go','''	case "unix":
		res, err = testutil.NewUnixClient(req, regAddress)
		if err != nil {
			return ("Error while receiving response: " + err.Error())
		}
	default:
		return ("Invalid config!")
	}

	response := application.UnmarshalResponse(protocol.RegistrationType, res)''','''	case "unix":
		res, err = testutil.NewUnixClient(req, regAddress)
		if err != nil || len(res) == 0 {
			// the server may have been too busy: try again
			res, err = testutil.NewUnixClient(req, regAddress)
		}
		if err != nil {
			return ("Error while receiving response: " + err.Error())
		}
	default:
		return ("Invalid config!")
	}

	response := application.UnmarshalResponse(protocol.RegistrationType, res)''')],
 'cli/coniksclient/internal/cmd','''package cmd

import (
	"io/ioutil"
	"net"
	"path"
	"sync/atomic"
	"testing"

	clientapp "github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	pk, _ := sk.Public()
	vk, _ := vrf.GenerateKey(nil)
	d := directory.New(60, vk, sk, 100, true)
	file := path.Join(t.TempDir(), "s")
	l, err := net.Listen("unix", file)
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var n int32
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			ioutil.ReadAll(c)
			atomic.AddInt32(&n, 1)
			c.Close() // the answer is lost
		}
	}()
	cc := client.New(d.LatestSTR(), true, pk)
	conf := &clientapp.Config{RegAddress: "unix://" + file, Address: "unix://" + file}
	register(cc, conf, "alice", "k")
	if atomic.LoadInt32(&n) != 1 {
		t.Fatal("one command sent", n, "requests")
	}
}
''')

seed('vrf-key-length','C21',
 'an initialisation interrupted while the VRF key is written, so that the key file is short',
 'a truncated VRF private key is accepted when the configuration is loaded',
 [('application/server/config.go','''	if len(vrfKey) != vrf.PrivateKeySize {''','''	if len(vrfKey) == 0 || len(vrfKey) > vrf.PrivateKeySize {''')],
 'application/server','''package server

import (
	"io/ioutil"
	"os"
	"path"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	file := path.Join(dir, "config.toml")
	conf := NewConfig(file, "toml", []*Address{{ServerAddress: &application.ServerAddress{Address: "unix:///nowhere"}}},
		&application.LoggerConfig{Environment: "development", Path: "log"}, 10,
		&Policies{EpochDeadline: 60, VRFKeyPath: "vrf.priv", SignKeyPath: "sign.priv"}, "init.str")
	if err := conf.Save(); err != nil {
		t.Fatal(err)
	}
	ioutil.WriteFile(path.Join(dir, "sign.priv"), sk, 0600)
	for n := 0; n <= len(vk); n++ {
		ioutil.WriteFile(path.Join(dir, "vrf.priv"), vk[:n], 0600)
		err := new(Config).Load(file, "toml")
		if (err == nil) != (n == len(vk)) {
			t.Fatal("a VRF key of", n, "bytes:", err)
		}
	}
	os.Remove(path.Join(dir, "vrf.priv"))
	if err := new(Config).Load(file, "toml"); err == nil {
		t.Fatal("loaded without a VRF key")
	}
}
''')

seed('first-link-unchecked','C27',
 'a client or auditor that still holds the initial root of an earlier run when the server has lost its state and is in its first epoch change',
 'the hash of the predecessor is not compared for the first root after the initial one, so the root of a run that lost the state is accepted as the continuation of the earlier run',
 [('merkletree/str.go','''	hash := crypto.Digest(savedSTR.Signature)
	return str.PreviousEpoch == savedSTR.Epoch &&
		str.Epoch == savedSTR.Epoch+1 &&
		bytes.Equal(hash, str.PreviousSTRHash)''','''	hash := crypto.Digest(savedSTR.Signature)
	return str.PreviousEpoch == savedSTR.Epoch &&
		str.Epoch == savedSTR.Epoch+1 &&
		// the hash chain starts at epoch 0
		(savedSTR.PreviousEpoch == savedSTR.Epoch || bytes.Equal(hash, str.PreviousSTRHash))''')],
 'protocol/client','''package client
'''+BYZ.replace('	"github.com/coniks-sys/coniks-go/merkletree"\n','')+'''
func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	pk, _ := sk.Public()
	vk, _ := vrf.GenerateKey(nil)
	d := directory.New(60, vk, sk, 100, true)
	cc := New(d.LatestSTR(), true, pk)
	d = directory.New(60, vk, sk, 100, true) // restarted without its state
	d.Update()
	r := d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"})
	if err := cc.HandleResponse(protocol.KeyLookupType, r, "alice", nil); err == nil {
		t.Fatal("accepted a root of another run")
	}
}
''')

seed('reload-half-config','C13',
 'a reload at a moment when the configuration file is complete but a key file is missing or torn',
 'a reload that fails to load the keys installs the epoch deadline of the refused configuration nevertheless',
 [('application/server/server.go','''		// simply abort the reloading policies
		// process
		server.Logger().Error(err.Error())
		return
	}''','''		// simply abort the reloading policies
		// process
		server.Logger().Error(err.Error())
		if conf.Policies == nil || conf.Policies.EpochDeadline == 0 {
			return
		}
	}''')],
 'application/server','''package server

import (
	"io/ioutil"
	"os"
	"path"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	file := path.Join(dir, "config.toml")
	save := func(deadline int) {
		os.Remove(file)
		conf := NewConfig(file, "toml", []*Address{{ServerAddress: &application.ServerAddress{Address: "unix:///nowhere"}}},
			&application.LoggerConfig{Environment: "development", Path: "log"}, 10,
			&Policies{EpochDeadline: 60, VRFKeyPath: "vrf.priv", SignKeyPath: "sign.priv"}, "init.str")
		conf.Policies.EpochDeadline = 60
		if deadline != 60 {
			conf.Policies.EpochDeadline = 7
		}
		if err := conf.Save(); err != nil {
			t.Fatal(err)
		}
	}
	save(60)
	ioutil.WriteFile(path.Join(dir, "sign.priv"), sk, 0600)
	ioutil.WriteFile(path.Join(dir, "vrf.priv"), vk, 0600)
	conf := new(Config)
	if err := conf.Load(file, "toml"); err != nil {
		t.Fatal(err)
	}
	s := NewConiksServer(conf)
	save(7)
	ioutil.WriteFile(path.Join(dir, "vrf.priv"), vk[:10], 0600)
	s.updatePolicies()
	for i := 0; i < 4; i++ {
		s.dir.Update()
		if d := s.dir.EpochDeadline(); d != 60 {
			t.Fatal("a refused configuration changed the epoch deadline to", d)
		}
	}
	ioutil.WriteFile(path.Join(dir, "vrf.priv"), vk, 0600)
	s.updatePolicies()
	s.dir.Update()
	s.dir.Update()
	if d := s.dir.EpochDeadline(); d != 7 {
		t.Fatal("a correct reload did not take effect", d)
	}
}
''')

OVERLAP2=OVERLAP
seed('local-always-registers','C10',
 'a configuration with a Unix socket address that does not allow registration',
 'every local address accepts registrations, whatever its configuration says',
 [('application/server/server.go','''import (
	"github.com/coniks-sys/coniks-go/application"
''','''import (
	"strings"

	"github.com/coniks-sys/coniks-go/application"
'''),
 ('application/server/server.go','''		perms[addr.ServerAddress][protocol.RegistrationType] = addr.AllowRegistration
''','''		// a Unix socket is the registration proxy's
		perms[addr.ServerAddress][protocol.RegistrationType] = addr.AllowRegistration || strings.HasPrefix(addr.Address, "unix:")
''')],
 'application/server','''package server

import (
	"path"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/testutil"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	ro := &Address{ServerAddress: &application.ServerAddress{Address: "unix://" + path.Join(dir, "ro")}}
	rw := &Address{ServerAddress: &application.ServerAddress{Address: "unix://" + path.Join(dir, "rw")}, AllowRegistration: true}
	for _, addrs := range [][]*Address{{ro, rw}, {rw, ro}} {
		conf := &Config{
			CommonConfig: &application.CommonConfig{Logger: &application.LoggerConfig{
				Environment: "development", Path: path.Join(dir, "log")}},
			LoadedHistoryLength: 100,
			Addresses:           addrs,
			Policies:            NewPolicies(60, "", "", vk, sk),
			InitSTRPath:         path.Join(dir, "init.str"),
		}
		s := NewConiksServer(conf)
		s.Run(addrs)
		for i, a := range []*Address{ro, rw} {
			msg := `{"type":0,"request":{"Username":"a","Key":"AA=="}}`
			res, err := testutil.NewUnixClient([]byte(msg), a.Address)
			if err != nil {
				t.Fatal(err)
			}
			r := application.UnmarshalResponse(protocol.RegistrationType, res)
			if want := []protocol.ErrorCode{protocol.ErrMalformedMessage, protocol.ReqSuccess}[i]; r.Error != want {
				t.Error("address", a.Address, "answered", r.Error)
			}
		}
		s.Shutdown()
	}
}
''')

seed('unlock-after-write','C11',
 'a peer that stalls while it receives a large answer to a lookup, and a registration or epoch change at that time',
 'the lock of the directory is held until the answer is written: a peer that does not read its answer delays registrations and epoch changes',
 [('application/serverbase.go','''				sb.RLock()
			default:
				sb.Lock()
			}
''','''				sb.RLock()
				defer sb.RUnlock()
			default:
				sb.Lock()
				defer sb.Unlock()
			}
'''),('application/serverbase.go','''			switch req.Type {
			case protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
				sb.RUnlock()
			default:
				sb.Unlock()
			}

''','')],
 'application',OVERLAP+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	file := path.Join(dir, "s")
	addr := &ServerAddress{Address: "unix://" + file}
	sb := NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development",
		Path: path.Join(dir, "log")}}, "Listen", map[*ServerAddress]map[int]bool{
		addr: {protocol.MonitoringType: true, protocol.RegistrationType: true}})
	str := protocol.NewSTRHistoryRange(nil)
	big := str.DirectoryResponse.(*protocol.STRHistoryRange)
	big.STR = make([]*protocol.DirSTR, 500000)
	var n int32
	sb.ListenAndHandle(addr, func(req *protocol.Request) *protocol.Response {
		if req.Type == protocol.MonitoringType {
			atomic.AddInt32(&n, 1)
			return str
		}
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	c, err := net.Dial("unix", file)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	fmt.Fprint(c, `{"type":3,"request":{"Username":"a"}}`)
	c.(*net.UnixConn).CloseWrite()
	for atomic.LoadInt32(&n) == 0 {
		time.Sleep(10 * time.Millisecond)
	}
	start := time.Now()
	ask(t, file, `{"type":0,"request":{"Username":"a","Key":"AA=="}}`)
	if d := time.Since(start); d > 3*time.Second {
		t.Fatal("a stalled peer delayed another one by", d)
	}
	c.Close()
	sb.Shutdown()
}
''')

seed('accept-error-ends','C09',
 'a connection that cannot be accepted (no file descriptor left, or aborted by the peer) on one of the addresses',
 'after a failed accept the server stops listening on that address for good',
 [('application/serverbase.go','''			sb.logger.Error(err.Error())
			continue
		}
		if _, ok''','''			sb.logger.Error(err.Error())
			return
		}
		if _, ok''')],
 'application',OVERLAP.replace('	"time"\n','	"time"\n	"syscall"\n	"os"\n')+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	file := path.Join(dir, "s")
	addr := &ServerAddress{Address: "unix://" + file}
	sb := NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development",
		Path: path.Join(dir, "log")}}, "Listen", map[*ServerAddress]map[int]bool{
		addr: {protocol.KeyLookupType: true}})
	var n int32
	sb.ListenAndHandle(addr, func(req *protocol.Request) *protocol.Response {
		atomic.AddInt32(&n, 1)
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	msg := `{"type":1,"request":{"Username":"a"}}`
	ask(t, file, msg)
	// use up all file descriptors
	fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
	if err != nil {
		t.Fatal(err)
	}
	var old, lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
	lim = old
	lim.Cur = 64
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	var open []*os.File
	for {
		f, err := os.Open("/dev/null")
		if err != nil {
			break
		}
		open = append(open, f)
	}
	if err := syscall.Connect(fd, &syscall.SockaddrUnix{Name: file}); err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
	for _, f := range open {
		f.Close()
	}
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	syscall.Close(fd)
	time.Sleep(300 * time.Millisecond)
	before := atomic.LoadInt32(&n)
	ask(t, file, msg)
	if atomic.LoadInt32(&n) != before+1 {
		t.Fatal("the address is dead")
	}
	sb.Shutdown()
}
''')

DIR='''package directory

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
)

var _ = fmt.Sprint
var _ = bytes.Equal
'''

seed('capped-range','C04',
 'a historical lookup for an epoch more than 16 epochs ago',
 'the range of signed roots in the answer to a historical lookup stops before the latest epoch when the range is long',
 [('protocol/directory/directory.go','''	startEp := req.Epoch
	endEp := d.LatestSTR().Epoch
''','''	startEp := req.Epoch
	endEp := d.LatestSTR().Epoch
	if endEp-startEp > 16 {
		// the answer has to fit into a message
		endEp = startEp + 16
	}
''')],
 'protocol/directory',DIR+'''
func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	d := New(60, vk, sk, 1000, true)
	for e := 0; e < 40; e++ {
		r := d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: "alice", Epoch: 0})
		df := r.DirectoryResponse.(*protocol.DirectoryProof)
		if len(df.STR) != e+1 || df.STR[e].Epoch != uint64(e) {
			t.Fatal("epoch 0 to", e, ":", len(df.STR), "roots")
		}
		d.Update()
	}
}
''')

seed('reshuffle-on-reload','C25',
 'a policy reload after bindings were included, then two epoch changes',
 'new policies make the directory rebuild its tree, which gives every binding a new commitment: the leaf of a binding is not the same in every later snapshot',
 [('merkletree/pad.go','''	if ad != nil { // update the `ad` if necessary
		pad.ad = ad
	}
''','''	if ad != nil && ad != pad.ad { // update the `ad` if necessary
		pad.ad = ad
		// the VRF key may have been rotated
		pad.reshuffle()
	}
''')],
 'protocol/directory',DIR+'''
func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	d := New(60, vk, sk, 1000, true)
	d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("k")})
	d.Update()
	commitment := func() []byte {
		r := d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"})
		return r.DirectoryResponse.(*protocol.DirectoryProof).AP[0].Leaf.Commitment.Value
	}
	c := commitment()
	d.SetPolicies(30)
	for i := 0; i < 4; i++ {
		d.Update()
		if !bytes.Equal(c, commitment()) {
			t.Fatal("the leaf of a binding changed")
		}
	}
}
''')

seed('pending-in-epoch','C03',
 'a historical lookup for the latest epoch of a name whose registration is still pending',
 'a historical lookup reports a binding that is still pending as present in the latest snapshot; asked again later about the same epoch, the answer is that the name was absent',
 [('protocol/directory/directory.go','''	if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
		return protocol.NewKeyLookupInEpochProof(ap, strs, protocol.ReqSuccess)
	}''','''	// a promised binding is as good as an included one
	promised := startEp == endEp && d.tbs[req.Username] != nil
	if promised || bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
		return protocol.NewKeyLookupInEpochProof(ap, strs, protocol.ReqSuccess)
	}''')],
 'protocol/directory',DIR+'''
func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	d := New(60, vk, sk, 1000, true)
	d.Update()
	d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("k")})
	for i := 0; i < 3; i++ {
		r := d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: "alice", Epoch: 1})
		if r.Error != protocol.ReqNameNotFound {
			t.Fatal("reported as present before its inclusion:", r.Error)
		}
		d.Update()
	}
}
''')
