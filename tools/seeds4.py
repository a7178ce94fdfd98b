# id -> (property, needs, breaks, edits, pkg, demo)
S={}
def seed(id,prop,needs,breaks,edits,pkg,demo): S[id]=(prop,needs,breaks,edits,pkg,demo)
L='protocol/auditlog/auditlog.go'
C='protocol/client/consistencychecks.go'
R='cli/coniksclient/internal/cmd/run.go'
T='application/bots/twitterbot.go'
seed('known-by-address','C15',
 'a directory the auditor already knows, registered again under another address',
 'a known directory is registered anew if its address differs, and what was observed of it is dropped',
 [(L,'	if ok {\n		return protocol.ErrAuditLog\n	}','	if ok && h.addr == addr {\n		return protocol.ErrAuditLog\n	}')],
 'protocol/auditlog','''package auditlog

import (
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
)

func TestDemo(t *testing.T) {
	_, aud, hist := NewTestAuditLog(t, 4)
	pk, _ := staticSigningKey.Public()
	aud.InitHistory("elsewhere.example", pk, hist[:1])
	id := auditor.ComputeDirectoryIdentity(hist[0])
	res := aud.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 4, EndEpoch: 4})
	if res.Error != protocol.ReqSuccess {
		t.Fatal("the auditor forgot epoch 4:", res.Error)
	}
}
''')
seed('already-registered-same-key','C26',
 'a second registration of a name with the key it already has',
 'the client reports that the name was registered although the directory answered that it existed',
[(R,'		case protocol.ReqNameExisted:\n			return ("Name is already registered.")','		case protocol.ReqNameExisted:\n			if bound, err := response.GetKey(); err == nil && string(bound) == key {\n				return ("Succesfully registered name: " + name)\n			}\n			return ("Name is already registered.")')],
 'cli/coniksclient/internal/cmd','''package cmd

import (
	"encoding/json"
	"io"
	"io/ioutil"
	"net"
	"os"
	"strings"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	clientapp "github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func TestDemo(t *testing.T) {
	vk, err := vrf.GenerateKey(nil)
	if err != nil {
		t.Fatal(err)
	}
	sk, err := sign.GenerateKey(nil)
	if err != nil {
		t.Fatal(err)
	}
	pk, _ := sk.Public()
	d := directory.New(60, vk, sk, 10, true)
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	l, err := net.Listen("unix", dir+"/s")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			raw, _ := ioutil.ReadAll(io.LimitReader(c, 8192))
			req, err := application.UnmarshalRequest(raw)
			if err != nil {
				c.Close()
				continue
			}
			res, _ := application.MarshalResponse(d.Register(req.Request.(*protocol.RegistrationRequest)))
			c.Write(res)
			c.Close()
		}
	}()
	conf := &clientapp.Config{Address: "unix://" + dir + "/s"}
	raw, _ := json.Marshal(d.LatestSTR())
	init := new(protocol.DirSTR)
	if err := json.Unmarshal(raw, init); err != nil {
		t.Fatal(err)
	}
	cc := client.New(init, true, pk)
	if m := register(cc, conf, "alice", "key"); !strings.HasPrefix(m, "Succesfully") {
		t.Fatal(m)
	}
	if m := register(cc, conf, "alice", "key"); m != "Name is already registered." {
		t.Fatal(m)
	}
}
''')
seed('auditor-ahead-trusted','C16',
 'an auditor that is one epoch ahead of the client, on another branch of the history',
 'a root of the next epoch that is signed is taken for consistent, even if it does not follow from the client\'s own',
 [(C,'	return cc.CheckSTRAgainstVerified(strs.STR[len(strs.STR)-1])\n','''	last := strs.STR[len(strs.STR)-1]
	if last.WellFormed() && last.Epoch == cc.VerifiedSTR().Epoch+1 {
		// the client has not got there yet
		if !cc.Verify(last.Serialize(), last.Signature) {
			return protocol.CheckBadSignature
		}
		return nil
	}
	return cc.CheckSTRAgainstVerified(last)
''')],
 'protocol/client','''package client

import (
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"github.com/coniks-sys/coniks-go/crypto"
)

func TestDemo(t *testing.T) {
	a, b := directory.NewTestDirectory(t), directory.NewTestDirectory(t)
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	cc := New(a.LatestSTR(), true, pk)
	b.Register(&protocol.RegistrationRequest{Username: "eve", Key: []byte("k")})
	b.Update()
	b.Register(&protocol.RegistrationRequest{Username: "mallory", Key: []byte("k")})
	a.Update()
	cc.Update(a.LatestSTR())
	b.Update()
	if err := cc.CheckEquivocation(protocol.NewSTRHistoryRange([]*protocol.DirSTR{b.LatestSTR()})); err == nil {
		t.Fatal("the fork is not noticed")
	}
}
''')
