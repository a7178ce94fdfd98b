# id -> (property, needs, breaks, edits, pkg, demo)
S={}
def seed(id,prop,needs,breaks,edits,pkg,demo): S[id]=(prop,needs,breaks,edits,pkg,demo)
DIR='''package directory

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
)

var _ = fmt.Sprint
var _ = bytes.Equal
'''
seed('audit-log-window','C15',
 'a directory that the auditor has followed for more than 24 epochs, then a request for one of the first of them',
 'the audit log forgets all but the latest snapshots of a directory, and answers requests for the forgotten ones as if they were successful',
 [('protocol/auditlog/auditlog.go','''	h.snapshots[newVerified.Epoch] = newVerified
''','''	h.snapshots[newVerified.Epoch] = newVerified
	// bound the memory used per directory
	delete(h.snapshots, newVerified.Epoch-24)
''')],
 'protocol/auditlog','''package auditlog

import (
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
)

func TestDemo(t *testing.T) {
	_, aud, hist := NewTestAuditLog(t, 60)
	id := auditor.ComputeDirectoryIdentity(hist[0])
	r := aud.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 0, EndEpoch: 60})
	df, ok := r.DirectoryResponse.(*protocol.STRHistoryRange)
	if !ok || len(df.STR) != 61 {
		t.Fatal("incomplete answer")
	}
	for i, s := range df.STR {
		if s == nil || s.Epoch != uint64(i) {
			t.Fatal("epoch", i, "is missing")
		}
	}
}
''')
seed('vrf-proof-length','C08',
 'an answer whose proof of the private index is shorter than 96 bytes',
 'the length of a VRF proof received from the network is not checked any more, so a short one crashes the client',
 [('crypto/vrf/vrf.go','	if len(proof) != ProofSize || len(vrfBytes) != Size || len(pkBytes) != PublicKeySize {','	if len(vrfBytes) != Size || len(pkBytes) != PublicKeySize {')],
 'crypto/vrf','''package vrf

import "testing"

func TestDemo(t *testing.T) {
	sk, err := GenerateKey(nil)
	if err != nil {
		t.Fatal(err)
	}
	pk, _ := sk.Public()
	v, proof := sk.Prove([]byte("alice"))
	if !pk.Verify([]byte("alice"), v, proof) {
		t.Fatal("a valid proof is refused")
	}
	for n := 0; n < len(proof); n++ {
		if pk.Verify([]byte("alice"), v, append([]byte{}, proof[:n]...)) {
			t.Fatal("a short proof is accepted")
		}
	}
}
''')
seed('resync-after-alarm','C07',
 'a directory that answers with a later root which does not continue the verified history, and then goes on with that history',
 'a client that has reported a root which does not fit the verified history keeps it as its verified root, and from then on follows that other history without an alarm',
 [('protocol/client/consistencychecks.go','''		if err := cc.AuditDirectory([]*protocol.DirSTR{str}); err != nil {
			return err
		}
''','''		if err := cc.AuditDirectory([]*protocol.DirSTR{str}); err != nil {
			if str.Epoch > cc.VerifiedSTR().Epoch &&
				cc.Verify(str.Serialize(), str.Signature) {
				// catch up with the directory
				cc.Update(str)
			}
			return err
		}
''')],
 'protocol/client','''package client

import (
	"testing"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func TestDemo(t *testing.T) {
	sk, vk := crypto.NewStaticTestSigningKey(), crypto.NewStaticTestVRFKey()
	pk, _ := sk.Public()
	one := directory.New(60, vk, sk, 100, true)
	other := directory.New(60, vk, sk, 100, true)
	cc := New(one.LatestSTR(), true, pk)
	req := &protocol.KeyLookupRequest{Username: "alice"}
	for i := 0; i < 3; i++ {
		if err := cc.HandleResponse(protocol.KeyLookupType, one.KeyLookup(req), "alice", nil); err != nil {
			t.Fatal(err)
		}
		one.Update()
		other.Update()
	}
	other.Update()
	verified := cc.VerifiedSTR()
	for i := 0; i < 3; i++ {
		if err := cc.HandleResponse(protocol.KeyLookupType, other.KeyLookup(req), "alice", nil); err == nil {
			t.Fatal("follows a fork")
		}
		if cc.VerifiedSTR() != verified {
			t.Fatal("the verified root changed")
		}
		other.Update()
	}
}
''')
seed('monitor-presized','C09',
 'a monitoring request with an end epoch far beyond the latest epoch',
 'the answer to a monitoring request is allocated for the range that was asked for, before that is cut to the epochs that exist: one request takes the server down',
 [('protocol/directory/directory.go','''	var strs []*protocol.DirSTR
	var aps []*merkletree.AuthenticationPath
	startEp := req.StartEpoch
	endEp := req.EndEpoch
''','''	startEp := req.StartEpoch
	endEp := req.EndEpoch
	strs := make([]*protocol.DirSTR, 0, endEp-startEp+1)
	aps := make([]*merkletree.AuthenticationPath, 0, endEp-startEp+1)
''')],
 'protocol/directory',DIR+'''
func TestDemo(t *testing.T) {
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	d := New(60, vk, sk, 1000, true)
	d.Update()
	r := d.Monitor(&protocol.MonitoringRequest{Username: "alice", StartEpoch: 0, EndEpoch: 1 << 62})
	if df := r.DirectoryResponse.(*protocol.DirectoryProof); len(df.STR) != 2 || len(df.AP) != 2 {
		t.Fatal("wrong range")
	}
}
''')
seed('reload-vrf-key','C13',
 'a VRF key file that was replaced on disk, then a policy reload and two epoch changes',
 'a reload also takes over the public VRF key of the configuration, which then no longer fits the private key the running server proves its private indices with',
 [('application/server/server.go','''	server.dir.SetPolicies(conf.Policies.EpochDeadline)
''','''	server.dir.SetPolicies(conf.Policies.EpochDeadline)
	if pk, ok := conf.Policies.vrfKey.Public(); ok {
		server.dir.SetVRFPublicKey(pk)
	}
'''),('protocol/directory/directory.go','''// EpochDeadline returns this ConiksDirectory's latest epoch deadline
''','''// SetVRFPublicKey sets the VRF public key announced in the policies of
// this ConiksDirectory from the next epoch on.
func (d *ConiksDirectory) SetVRFPublicKey(pk vrf.PublicKey) {
	d.policies.VrfPublicKey = pk
}

// EpochDeadline returns this ConiksDirectory's latest epoch deadline
''')],
 'application/server','''package server

import (
	"bytes"
	"os"
	"path"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
)


func TestDemo(t *testing.T) {
	dir := t.TempDir()
	sk, _ := sign.GenerateKey(nil)
	vk, _ := vrf.GenerateKey(nil)
	write := func(name string, b []byte) {
		if err := os.WriteFile(path.Join(dir, name), b, 0600); err != nil {
			t.Fatal(err)
		}
	}
	write("sign.priv", sk)
	write("vrf.priv", vk)
	file := path.Join(dir, "config.toml")
	conf := NewConfig(file, "toml", nil, &application.LoggerConfig{Environment: "development", Path: path.Join(dir, "log")},
		100, NewPolicies(60, "vrf.priv", "sign.priv", vk, sk), "init.str")
	if err := conf.Save(); err != nil {
		t.Fatal(err)
	}
	loaded := &Config{}
	if err := loaded.Load(file, "toml"); err != nil {
		t.Fatal(err)
	}
	s := NewConiksServer(loaded)
	want := append([]byte{}, s.dir.LatestSTR().Policies.VrfPublicKey...)
	other, _ := vrf.GenerateKey(nil)
	write("vrf.priv", other)
	s.updatePolicies()
	s.dir.Update()
	s.dir.Update()
	if !bytes.Equal(want, s.dir.LatestSTR().Policies.VrfPublicKey) {
		t.Fatal("the announced VRF key changed, the key in use did not")
	}
}
''')
seed('history-outside-lock','C01',
 'a historical lookup that is handled while an epoch change inserts or evicts snapshots',
 'historical lookups run without any lock, so an epoch change in the middle of one mixes two directory states in its answer or corrupts the snapshot map',
 [('application/serverbase.go','''			switch req.Type {
			case protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
				sb.RLock()
''','''			switch req.Type {
			case protocol.KeyLookupInEpochType:
				// past snapshots are immutable
			case protocol.KeyLookupType, protocol.MonitoringType:
				sb.RLock()
'''),('application/serverbase.go','''			switch req.Type {
			case protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
				sb.RUnlock()
''','''			switch req.Type {
			case protocol.KeyLookupInEpochType:
			case protocol.KeyLookupType, protocol.MonitoringType:
				sb.RUnlock()
''')],
 'application','''package application

import (
	"net"
	"path"
	"sync/atomic"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/protocol"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	file := path.Join(dir, "s")
	addr := &ServerAddress{Address: "unix://" + file}
	sb := NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development",
		Path: path.Join(dir, "log")}}, "Listen", map[*ServerAddress]map[int]bool{
		addr: {protocol.KeyLookupInEpochType: true}})
	var ticking, overlap int32
	timer := NewEpochTimer(1)
	sb.ListenAndHandle(addr, func(req *protocol.Request) *protocol.Response {
		if atomic.LoadInt32(&ticking) != 0 {
			atomic.StoreInt32(&overlap, 1)
		}
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	done := make(chan bool)
	sb.RunInBackground(func() {
		sb.EpochUpdate(timer, func() {
			timer.SetDeadline(3600)
			atomic.StoreInt32(&ticking, 1)
			time.Sleep(500 * time.Millisecond)
			atomic.StoreInt32(&ticking, 0)
			close(done)
		})
	})
	for atomic.LoadInt32(&ticking) == 0 {
		time.Sleep(time.Millisecond)
	}
	c, err := net.Dial("unix", file)
	if err != nil {
		t.Fatal(err)
	}
	c.Write([]byte(`{"type":2,"request":{"Username":"a","Epoch":0}}`))
	c.(*net.UnixConn).CloseWrite()
	c.Read(make([]byte, 1000))
	c.Close()
	<-done
	sb.Shutdown()
	if overlap != 0 {
		t.Fatal("a historical lookup ran during an epoch change")
	}
}
''')
