# id -> (property, needs, breaks, edits, pkg, demo)
S={}
def seed(id,prop,needs,breaks,edits,pkg,demo): S[id]=(prop,needs,breaks,edits,pkg,demo)
B='application/serverbase.go'
E='application/encoding.go'
P='merkletree/pad.go'
L='protocol/auditlog/auditlog.go'
seed('answers-share-array','C15',
 'an answer of the auditor that is read (encoded) only after the auditor has answered another request',
 'the audit log reuses one array for the roots of all its answers, so a later answer overwrites an earlier one',
 [(L,'	var strs []*protocol.DirSTR\n','	strs := observed[:0]\n	defer func() { observed = strs }()\n'),
  (L,'type directoryHistory struct {','// observed is reused from one request to the next.\nvar observed []*protocol.DirSTR\n\ntype directoryHistory struct {')],
 'protocol/auditlog','''package auditlog

import (
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
)

func TestDemo(t *testing.T) {
	_, aud, hist := NewTestAuditLog(t, 9)
	id := auditor.ComputeDirectoryIdentity(hist[0])
	ask := func(lo, hi uint64) *protocol.STRHistoryRange {
		df, ok := aud.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: lo, EndEpoch: hi}).DirectoryResponse.(*protocol.STRHistoryRange)
		if !ok {
			t.Fatal("no answer")
		}
		return df
	}
	ask(0, 9)
	a := ask(2, 5)
	ask(6, 8)
	for i, s := range a.STR {
		if s.Epoch != uint64(2+i) {
			t.Fatal("the earlier answer now holds epoch", s.Epoch, "instead of", 2+i)
		}
	}
}
''')
seed('stop-cuts-answers','C11',
 'a shutdown while an answer is on its way to a client that has yet to read some of it',
 'a shutdown ends the connections of the requests in progress instead of letting them finish',
 [(B,'''	conn.SetDeadline(time.Now().Add(5 * time.Second))
''','''	conn.SetDeadline(time.Now().Add(5 * time.Second))
	finished := make(chan struct{})
	defer close(finished)
	go func() {
		select {
		case <-sb.stop:
			// do not let a slow client hold up the shutdown
			conn.SetDeadline(time.Now())
		case <-finished:
		}
	}()
''')],
 'application','''package application

import (
	"bytes"
	"io"
	"net"
	"path"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/protocol"
)

func TestDemo(t *testing.T) {
	sb := NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development",
		Path: path.Join(t.TempDir(), "log")}}, "Listen", nil)
	a, b := net.Pipe() // unbuffered
	go sb.acceptClient(&ServerAddress{}, a, nil)
	b.SetDeadline(time.Now().Add(20 * time.Second))
	go func() {
		time.Sleep(300 * time.Millisecond)
		sb.Shutdown()
	}()
	// a request that is not allowed at any address, padded to full size
	msg, _ := MarshalRequest(protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: "x"})
	msg = append(msg, bytes.Repeat([]byte(" "), 8192-len(msg))...)
	if _, err := b.Write(msg); err != nil {
		t.Fatal(err)
	}
	time.Sleep(time.Second)
	var buf bytes.Buffer
	io.Copy(&buf, b)
	if res := UnmarshalResponse(protocol.KeyLookupType, buf.Bytes()); buf.Len() == 0 || res.Error != protocol.ErrMalformedMessage {
		t.Fatalf("no answer to a request that was being handled: %q", buf.Bytes())
	}
}
''')
seed('trailing-data','C09',
 'a request followed by further data in the same connection',
 'only the first JSON value that a client sends is looked at, so a request with garbage or another request behind it is carried out',
 [(E,'	if err := json.Unmarshal(msg, &req); err != nil {\n		return nil, err\n	}\n	var request','	if err := json.NewDecoder(bytes.NewReader(msg)).Decode(&req); err != nil {\n		return nil, err\n	}\n	var request'),
  (E,'import (\n','import (\n	"bytes"\n')],
 'application','''package application

import (
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
)

func TestDemo(t *testing.T) {
	msg, _ := MarshalRequest(protocol.RegistrationType, &protocol.RegistrationRequest{Username: "x", Key: []byte("k")})
	if _, err := UnmarshalRequest(msg); err != nil {
		t.Fatal(err)
	}
	if _, err := UnmarshalRequest(append(msg, "}garbage"...)); err == nil {
		t.Fatal("a request with garbage behind it was accepted")
	}
}
''')
seed('last-index-shared','C05',
 'two lookups of different names at the same moment',
 'the private index computed last is remembered in the directory without any protection, so parallel lookups mix up names',
 [(P,'	index, proof = vrfKey.Prove([]byte(key))\n','	if pad.lastIndex == nil || pad.lastKey != key {\n		pad.lastKey = key\n		pad.lastIndex, pad.lastProof = vrfKey.Prove([]byte(key))\n	}\n	index, proof = pad.lastIndex, pad.lastProof\n'),
  (P,'	ad           AssocData\n}','	ad           AssocData\n\n	// names tend to be looked up several times in a row\n	lastKey              string\n	lastIndex, lastProof []byte\n}')],
 'merkletree','''package merkletree

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	pad, err := NewPAD(TestAd{""}, signKey, vrfKey, 10)
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	wrong := 0
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3000; k++ {
				name := fmt.Sprint("user", (k*7+k*k*i)%3)
				want := vrfKey.Compute([]byte(name))
				ap, err := pad.Lookup(name)
				if err != nil || !bytes.Equal(ap.LookupIndex, want) {
					mu.Lock()
					wrong++
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	if wrong > 0 {
		t.Fatal(wrong, "of 8 readers were shown the index of another name")
	}
}
''')
seed('promise-for-any-root','C06',
 'a server that hands out a promise it signed under another root',
 'the signature of a promise no longer covers the root it was made for, so clients accept a promise made for another root',
 [('protocol/tb.go','	tbBytes = append(tbBytes, strSig...)\n',''),
  ('protocol/directory/directory.go','d.pad.Sign(d.LatestSTR().Signature, index, key)','d.pad.Sign(index, key)')],
 'protocol','''package protocol

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	tb := &TemporaryBinding{Index: []byte("index"), Value: []byte("key")}
	if bytes.Equal(tb.Serialize([]byte("one root")), tb.Serialize([]byte("another root"))) {
		t.Fatal("what is signed does not depend on the root")
	}
}
''')
seed('older-observation-ignored','C16',
 'an auditor that has not seen the newest roots yet, and a directory that showed it another history',
 'a client does not compare the roots an auditor observed with its own when they end before the epoch it last verified, instead of reporting that it cannot confirm its own history',
 [('protocol/client/consistencychecks.go','	return cc.CheckSTRAgainstVerified(strs.STR[len(strs.STR)-1])','	last := strs.STR[len(strs.STR)-1]\n	if last.Epoch < cc.VerifiedSTR().Epoch {\n		return nil\n	}\n	return cc.CheckSTRAgainstVerified(last)')],
 'protocol/client','''package client

import (
	"testing"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func TestDemo(t *testing.T) {
	d := directory.NewTestDirectory(t)
	d.Update()
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	cc := New(d.LatestSTR(), true, pk)
	// what an auditor saw of another history of the same directory
	e := directory.NewTestDirectory(t)
	e.Register(&protocol.RegistrationRequest{Username: "x", Key: []byte("k")})
	e.Update()
	e.Update()
	res := e.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: 0, EndEpoch: 0})
	if err := cc.CheckEquivocation(res); err == nil {
		t.Fatal("a history that ends before the client's own passes as confirmed")
	}
}
''')
