package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	serverzz "github.com/coniks-sys/coniks-go/cli/coniksserver/zzcmd"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"verif.sim/simrt"
)

// addrCfg is one configured listening address.
type addrCfg struct {
	url string
	reg bool
}

var stdAddrs = []addrCfg{
	{"unix:///tmp/coniks.sock", true},
	{"tcp://127.0.0.1:3000", false},
	{"tcp://127.0.0.1:3001", true},
	{"unix:///tmp/ro.sock", false},
}

// mixAddrs picks addresses and permissions independently of each other.
func mixAddrs(seed int64) []addrCfg {
	rng := rand.New(rand.NewSource(seed))
	pool := []string{"unix:///tmp/coniks.sock", "unix:///tmp/ro.sock", "unix:///srv/third.sock", "tcp://127.0.0.1:3000", "tcp://127.0.0.1:3001", "tcp://localhost:3002"}
	rng.Shuffle(len(pool), func(a, b int) { pool[a], pool[b] = pool[b], pool[a] })
	var as []addrCfg
	for i := 0; i < 2+rng.Intn(3); i++ {
		as = append(as, addrCfg{pool[i], rng.Intn(2) == 0})
	}
	i := 0
	if rng.Intn(4) == 0 {
		i = rng.Intn(len(as))
	}
	as[i].reg = true
	if rng.Intn(4) == 0 { // a single address, perhaps read-only
		as = as[:1]
		as[0].reg = rng.Intn(2) == 0
	} else if rng.Intn(8) == 0 {
		for i := range as {
			as[i].reg = false
		}
	}
	return as
}

// srvEnv is a key server under test with its disk and its clients.
type srvEnv struct {
	r         *Run
	ks        *keyset
	fs        *simrt.FS
	node      *simrt.Node
	dir       string
	addrs     []addrCfg
	hist      int64
	eras      []*era
	cur       *era
	nodes     map[int]*simrt.Node // client nodes
	plans     map[*simrt.Node]*simrt.ConnPlan
	honest    map[int]*honest
	exID      int
	names     map[string]bool
	initSTR   *rSTR // first saved
	initRaw   []byte
	lastKnown int64
}

// era is one incarnation of the server.
type era struct {
	n        int
	node     *simrt.Node
	j        *Judge
	task     *simrt.Task
	exited   bool
	tExit    int64
	tInt     int64 // shutdown requested (0 none)
	sInt     int64
	killed   bool
	serving  bool
	outage   []span
	pols     []polEvent
	initDl   uint64
	sawAlive bool
}
type span struct{ a, b int64 }

func newSrvEnv(r *Run) *srvEnv {
	e := &srvEnv{r: r, ks: keysFor(r.p("ks") + 1), dir: "/srv", hist: r.p("hist"), nodes: map[int]*simrt.Node{}, plans: map[*simrt.Node]*simrt.ConnPlan{}, honest: map[int]*honest{}, names: map[string]bool{}}
	e.node = r.w.NewNode("srv")
	e.fs = e.node.FS
	e.node.Cwd = e.cwd()
	e.fs.MkdirAllRaw(e.dir + "/tls")
	e.addrs = stdAddrs[:2+r.p("naddr")%3]
	if m := r.p("mix"); m != 0 {
		e.addrs = mixAddrs(m)
	}
	if d := r.p("netdelay"); d > 0 {
		r.w.Net.MaxDelay = d
	}
	r.w.Net.Plan = func(ci simrt.ConnInfo) *simrt.ConnPlan {
		p := e.plans[ci.From]
		delete(e.plans, ci.From)
		return p
	}
	for _, o := range r.Ops {
		if len(o.S) > 0 {
			e.names[o.S[0]] = true
		}
	}
	return e
}

// serverConfig renders a configuration file.
func (e *srvEnv) serverConfig(deadline string, signKey, vrfKey string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "loaded_history_length = %d\ninit_str_path = \"init.str\"\n", e.hist)
	fmt.Fprintf(&b, "\n[policies]\n  epoch_deadline = %s\n  vrf_key_path = %q\n  sign_key_path = %q\n", deadline, vrfKey, signKey)
	for _, a := range e.addrs {
		fmt.Fprintf(&b, "\n[[addresses]]\n  address = %q\n", a.url)
		if strings.HasPrefix(a.url, "tcp") {
			fmt.Fprintf(&b, "  cert = %q\n  key = %q\n", e.cert("pem"), e.cert("key"))
		}
		if a.reg {
			b.WriteString("  allow_registration = true\n")
		}
	}
	b.WriteString("\n[logger]\n  env = \"production\"\n  path = \"coniksserver.log\"\n")
	return b.String()
}

func (e *srvEnv) cfgPath() string { return e.dir + "/config.toml" }

// cwd is where the server is started.
func (e *srvEnv) cwd() string {
	if c := e.r.p("cwd"); c == 1 || c == 2 {
		return "/"
	}
	return e.dir
}

// cfgArg is the configuration file as the server is told it.
func (e *srvEnv) cfgArg() string {
	switch e.r.p("cwd") {
	case 2:
		return e.cfgPath()[1:]
	case 3:
		return "config.toml"
	}
	return e.cfgPath()
}

// cert is a certificate file, relative to the configuration file.
func (e *srvEnv) cert(ext string) string {
	if e.r.p("tlsdir") == 1 {
		return "tls/server." + ext
	}
	return "server." + ext
}

// writeConfig puts a fresh configuration and key files on the server's disk.
func (e *srvEnv) writeConfig(deadline int64) {
	e.fs.Put(e.cfgPath(), []byte(e.serverConfig(fmt.Sprint(deadline), "sign.priv", "vrf.priv")))
	e.fs.Put(e.dir+"/sign.priv", e.ks.sign)
	e.fs.Put(e.dir+"/vrf.priv", e.ks.vrf)
	e.putCert()
}
func (e *srvEnv) putCert() {
	e.fs.Put(e.dir+"/"+e.cert("pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte("cert")}))
	e.fs.Put(e.dir+"/"+e.cert("key"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: []byte("key")}))
}

// runInit creates the configuration with the server's own init command.
func (e *srvEnv) runInit() bool {
	t := simrt.GoNode(e.node, "init", func() {
		serverzz.Root.SetArgs([]string{"init", "--dir", e.dir, "--cert=true"})
		serverzz.Root.Execute()
	})
	simrt.Join(t)
	if e.node.Dead {
		e.r.Fail("C21,C12", "init-died", "init died: %s", e.node.Panic+e.node.DieFatal)
		return false
	}
	cfg := string(e.fs.Peek(e.cfgPath()))
	sk, vk := e.fs.Peek(e.dir+"/sign.priv"), e.fs.Peek(e.dir+"/vrf.priv")
	if cfg == "" || len(sk) != 64 || len(vk) != 64 {
		e.r.Fail("C21,C12", "init-incomplete", "init without faults produced config %d bytes, sign.priv %d bytes, vrf.priv %d bytes", len(cfg), len(sk), len(vk))
		return false
	}
	// a million preallocated history slots only cost memory here
	cfg = strings.Replace(cfg, "loaded_history_length = 1000000", fmt.Sprintf("loaded_history_length = %d", e.hist), 1)
	e.fs.Put(e.cfgPath(), []byte(cfg))
	e.putCert()
	e.ks = keysFromFiles(sk, vk)
	e.addrs = []addrCfg{{"unix:///tmp/coniks.sock", true}, {"tcp://127.0.0.1:3000", false}}
	return true
}

// start launches a server process and waits until it listens.
func (e *srvEnv) start() *era {
	r := e.r
	if e.cur != nil {
		n := r.w.NewNode(fmt.Sprintf("srv%d", len(e.eras)))
		n.FS = e.fs
		n.Cwd = e.cwd()
		e.node = n
	}
	er := &era{n: len(e.eras), node: e.node}
	er.j = newJudge(r, e.ks, e.hist)
	er.j.start = r.w.NowNs()
	er.j.useTime = true
	for n := range e.names {
		er.j.secretNames[n] = true
	}
	e.eras = append(e.eras, er)
	e.cur = er
	e.lastKnown = 0
	node := e.node
	er.task = simrt.GoNode(node, "main", func() {
		if r.p("api") == 1 {
			e.embedded(er)
			return
		}
		serverzz.Root.SetArgs([]string{"run", "--config", e.cfgArg(), "--pid=false"})
		serverzz.Root.Execute()
		er.exited = true
		er.tExit = r.w.NowNs()
	})
	return er
}

// embedded runs the server the way a program that embeds it does, with a
// configuration built in memory.
func (e *srvEnv) embedded(er *era) {
	var as []*server.Address
	for _, a := range e.addrs {
		sa := &application.ServerAddress{Address: a.url}
		if strings.HasPrefix(a.url, "tcp") {
			sa.TLSCertPath, sa.TLSKeyPath = e.dir+"/"+e.cert("pem"), e.dir+"/"+e.cert("key")
		}
		as = append(as, &server.Address{ServerAddress: sa, AllowRegistration: a.reg})
	}
	logger := &application.LoggerConfig{EnableStacktrace: false, Environment: "production", Path: e.dir + "/coniksserver.log"}
	conf := server.NewConfig(e.cfgPath(), "toml", as, logger, uint64(e.hist),
		server.NewPolicies(protocol.Timestamp(e.r.p("dl")), "vrf.priv", "sign.priv", vrf.PrivateKey(append([]byte(nil), e.ks.vrf...)), sign.PrivateKey(append([]byte(nil), e.ks.sign...))), "init.str")
	s := server.NewConiksServer(conf)
	ch := make(chan os.Signal, 1)
	simrt.SignalNotify(ch, os.Interrupt)
	s.Run(conf.Addresses)
	simrt.Recv(ch)
	s.Shutdown()
	er.exited = true
	er.tExit = e.r.w.NowNs()
}

// await waits for the server to listen on all its addresses.
func (e *srvEnv) await(er *era, limit int64) bool {
	r := e.r
	simrt.BlockUntil("server start", r.w.NowNs()+limit, func() bool {
		return er.node.Dead || er.exited || r.w.Net.Listening(er.node) >= len(e.addrs)
	})
	er.serving = !er.node.Dead && !er.exited && r.w.Net.Listening(er.node) >= len(e.addrs)
	return er.serving
}

// checkInit compares the saved initial root with what was saved first.
func (e *srvEnv) checkInit(er *era) {
	raw := e.fs.Peek(e.dir + "/init.str")
	if raw == nil {
		if er.n == 0 {
			e.r.Fail("C27", "init-missing", "the server serves but saved no initial root")
		}
		return
	}
	if e.initRaw == nil {
		e.initRaw = raw
		s := new(rSTR)
		if err := json.Unmarshal(raw, s); err != nil || s.Policies == nil {
			e.r.Fail("C27", "init-unreadable", "the saved initial root cannot be read: %v", err)
			return
		}
		if err := refSTR(e.ks.pub, s); err != nil || s.Epoch != 0 {
			e.r.Fail("C27,C04", "init-invalid", "the saved initial root is not valid: %v", err)
			return
		}
		e.initSTR = s
		er.j.init = s
		// what the loaders of clients and auditors make of it
		t := e.r.Go("load", func() {
			str, err := application.LoadInitSTR("init.str", e.cfgPath())
			if err != nil {
				e.r.Fail("C27", "init-unloadable", "the saved initial root cannot be loaded: %v", err)
				return
			}
			b, _ := json.Marshal(str)
			l := new(rSTR)
			if json.Unmarshal(b, l) != nil || canonSTR(l) != canonSTR(s) {
				e.r.Fail("C27", "init-unloadable", "the loaded initial root differs from the saved one")
			}
		})
		fsWas := e.r.h.FS
		e.r.h.FS = e.fs
		simrt.Join(t)
		e.r.h.FS = fsWas
		return
	}
	if !bytes.Equal(raw, e.initRaw) {
		e.r.Fail("C27", "init-replaced", "a later start replaced the saved initial root")
	}
}

// client node number i shares the server's file system for Unix sockets.
func (e *srvEnv) clientNode(i int) *simrt.Node {
	if n := e.nodes[i]; n != nil {
		return n
	}
	n := e.r.w.NewNode(fmt.Sprintf("cli%d", i))
	n.FS = e.fs
	e.nodes[i] = n
	return n
}

// connection faults an operation can ask for
const (
	cfNone = iota
	cfCutReq
	cfCutAns
	cfStallReq
	cfStallAns
	cfTruncReq
	cfTruncAns
	cfTrickle
	cfSlowReq
	cfSlowAns
	cfCorruptReq
	cfCorruptAns
	cfRefused
	cfAcceptErr
	cfCount
)

func connPlan(kind, pos int64, isTLS bool) *simrt.ConnPlan {
	p := int(pos)
	if p < 1 {
		p = 1
	}
	switch kind {
	case cfCutReq:
		return &simrt.ConnPlan{CutAt: [2]int{p, 0}}
	case cfCutAns:
		return &simrt.ConnPlan{CutAt: [2]int{0, p}}
	case cfStallReq:
		return &simrt.ConnPlan{StallAt: [2]int{p, 0}}
	case cfStallAns:
		return &simrt.ConnPlan{StallAt: [2]int{0, p}}
	case cfTruncReq:
		return &simrt.ConnPlan{CloseAt: [2]int{p, 0}}
	case cfTruncAns:
		return &simrt.ConnPlan{CloseAt: [2]int{0, p}}
	case cfTrickle:
		return &simrt.ConnPlan{Trickle: true}
	case cfSlowReq:
		return &simrt.ConnPlan{ExtraNs: [2]int64{pos % 700 * ms, 0}}
	case cfSlowAns:
		return &simrt.ConnPlan{ExtraNs: [2]int64{0, pos % 700 * ms}}
	case cfCorruptReq:
		if isTLS {
			return &simrt.ConnPlan{CorruptAt: [2]int{p, 0}}
		}
	case cfCorruptAns:
		if isTLS {
			return &simrt.ConnPlan{CorruptAt: [2]int{0, p}}
		}
	case cfRefused:
		return &simrt.ConnPlan{DialErr: "refused"}
	case cfAcceptErr:
		return &simrt.ConnPlan{AcceptErr: true}
	}
	return nil
}

// benign faults do not excuse a missing answer
func benign(kind int64) bool {
	return kind == cfNone || kind == cfTrickle || kind == cfSlowReq || kind == cfSlowAns || kind == cfAcceptErr
}

// xopt says how a request is delivered.
type xopt struct {
	addr   int
	fault  int64
	pos    int64
	pieces int64 // write in this many pieces
	gap    int64 // ns between pieces
	noFin  bool  // do not half-close
	slow   int64 // ns before reading the answer
	buf    int64 // size of the socket buffers (0: the default)
	got    *progress
}

// progress says when the server accepted a connection and had all of its
// request (0: never).
type progress struct{ acc, fin int64 }

func hostPort(url string) (string, string) {
	if strings.HasPrefix(url, "unix://") {
		return "unix", strings.TrimPrefix(url, "unix://")
	}
	return "tcp", strings.TrimPrefix(url, "tcp://")
}

// send performs one connection from the current (client) task. It returns the
// bytes received up to a clean end, or an error.
func (e *srvEnv) send(cli int, url string, payload []byte, o xopt) (ans []byte, sent int64, peer *simrt.Node, err error) {
	w := e.r.w
	n := e.clientNode(cli)
	proto, hp := hostPort(url)
	p := connPlan(o.fault, o.pos, proto == "tcp")
	if o.buf > 0 {
		if p == nil {
			p = &simrt.ConnPlan{}
		}
		p.Buf = int(o.buf)
		w.Fault("small-buffers")
	}
	if p != nil {
		e.plans[n] = p
	} else {
		delete(e.plans, n)
	}
	conn, err := simrt.RawDial(proto, hp)
	if err != nil {
		return nil, 0, nil, err
	}
	defer conn.Close()
	if o.got != nil {
		defer func() { o.got.acc, o.got.fin = simrt.Progress(conn) }()
	}
	peer = simrt.PeerNode(conn)
	conn.SetDeadline(simrt.WallAt(w.NowNs() + 60*sec))
	var c net.Conn = conn
	if proto == "tcp" {
		c = simrt.TLSClient(conn, &tls.Config{InsecureSkipVerify: true})
	}
	k := int(o.pieces)
	if k < 1 {
		k = 1
	}
	for i := 0; i < k; i++ {
		a, b := len(payload)*i/k, len(payload)*(i+1)/k
		if a == b && k > 1 {
			continue
		}
		if _, err = c.Write(payload[a:b]); err != nil {
			break
		}
		if i+1 < k && o.gap > 0 {
			sleepNs(o.gap)
		}
	}
	if err == nil && !o.noFin {
		if x, ok := conn.(interface{ CloseWrite() error }); ok {
			x.CloseWrite()
		}
	}
	sent = w.NowNs()
	werr := err
	if o.slow > 0 {
		sleepNs(o.slow)
	}
	var buf bytes.Buffer
	_, err = io.Copy(&buf, c)
	if err == nil && buf.Len() == 0 && werr != nil {
		err = werr
	}
	return buf.Bytes(), sent, peer, err
}

func reqJSON(typ int, body interface{}) []byte {
	b, _ := json.Marshal(body)
	x, _ := json.Marshal(map[string]interface{}{"Type": typ, "Request": json.RawMessage(b)})
	return x
}

type regBody struct {
	Username               string
	Key                    []byte
	AllowUnsignedKeychange bool
	AllowPublicLookup      bool
}
type lookBody struct{ Username string }
type lookEpBody struct {
	Username string
	Epoch    uint64
}
type monBody struct {
	Username             string
	StartEpoch, EndEpoch uint64
}
type histBody struct{ StartEpoch, EndEpoch uint64 }

func requestOf(x *Ex) []byte {
	switch x.Kind {
	case "reg":
		return reqJSON(protocol.RegistrationType, regBody{Username: x.Name, Key: x.Key})
	case "look":
		return reqJSON(protocol.KeyLookupType, lookBody{x.Name})
	case "lookep":
		return reqJSON(protocol.KeyLookupInEpochType, lookEpBody{x.Name, x.Ep})
	case "mon":
		return reqJSON(protocol.MonitoringType, monBody{x.Name, x.Ep, x.End})
	case "hist":
		return reqJSON(protocol.STRType, histBody{x.Ep, x.End})
	}
	panic("kind " + x.Kind)
}

// padRequest grows a request to exactly n bytes with insignificant space.
func padRequest(b []byte, n int) []byte {
	if len(b) >= n {
		return b
	}
	return append(b[:len(b)-1:len(b)-1], append(bytes.Repeat([]byte(" "), n-len(b)), '}')...)
}

// exchange performs a request of a simulated client and judges the answer.
func (e *srvEnv) exchange(cli int, kind, name string, key []byte, ep, end uint64, o xopt, pad int) *Ex {
	r := e.r
	w := r.w
	er := e.cur
	a := e.addrs[o.addr%len(e.addrs)]
	e.exID++
	x := &Ex{ID: e.exID, Cli: cli, Kind: kind, Name: name, Key: key, Ep: ep, End: end, Addr: a.url, AllowReg: a.reg}
	payload := requestOf(x)
	if pad > 0 {
		payload = padRequest(payload, pad)
	}
	if len(payload) > 8192 || o.noFin && len(payload) != 8192 {
		o.fault = cfTruncReq // cannot be accepted; any refusal will do
		o.pos = 1 << 30
	}
	x.Faulted = !benign(o.fault)
	x.TInv = w.NowNs()
	x.SInv = w.Seq()
	o.got = &progress{}
	ans, sent, peer, err := e.send(cli, a.url, payload, o)
	for _, c := range e.eras {
		if c.node == peer {
			er = c // whoever accepted the connection
		}
	}
	if o.fault == cfTruncReq && err == nil {
		// a client that died while writing: an incomplete request may be
		// refused, then nothing may come of it
		if resp, perr := parseAnswer(ans); perr == nil && resp.Error >= codeUnknown {
			x.Kind = "raw"
			x.AllowReg = false
		}
	}
	x.Era = er.n
	x.TRet = w.NowNs()
	x.SRet = w.Seq()
	if err != nil {
		x.Err = err.Error()
		x.Raw = nil
	} else {
		x.Raw = ans
		if len(ans) == 0 {
			x.Raw, x.Err = nil, "closed without answer"
		}
	}
	if len(payload) > 8192 {
		// oversized: an error answer or a closed connection, no effect
		x.Kind = "raw"
		x.AllowReg = false
		if x.Raw == nil {
			er.j.r.w.Probe("oversized-closed")
			return x
		}
		er.j.Add(x)
		return x
	}
	noStall := w.Faults["stall"] == 0
	total := o.gap*o.pieces + o.slow
	size := int64(40000)
	if kind == "mon" || kind == "lookep" {
		size += 4000 * (e.lastKnown + 3)
	}
	if size > 65536 && !noStall {
		x.Faulted = true // the deadline may cut the answer short
	}
	if o.buf > 0 { // many round trips
		total += size / o.buf * 2 * w.Net.MaxDelay
		if o.fault != cfNone || total >= 3*sec || !noStall {
			x.Faulted = true // the deadline may cut the answer short
		}
	}
	x.Must = noStall && benign(o.fault) && total < 3*sec && sent > 0 && w.Net.MaxDelay <= 100*ms && e.quiet(er, o.got) && er.serving
	if o.fault == cfSlowReq && o.pos%700*8 > 4000 {
		x.Must = false // several segments, each late
	}
	if er.killed {
		x.Faulted = true
	}
	if o.buf > 0 && x.Faulted {
		x.Must = false
	}
	late := int64(0)
	if o.fault == cfSlowReq || o.fault == cfSlowAns {
		late = 8 * 700 * ms
	}
	// the server's own work takes no simulated time
	if x.Must && x.TRet-sent > total+500*ms+24*w.Net.MaxDelay+late {
		r.Fail("C11,C09", "slow-answer", "the answer took %.3fs: %v", float64(x.TRet-sent)/1e9, x)
	}
	for _, s := range er.outage {
		if x.TRet >= s.a && x.TInv <= s.b && x.Outage < 1 {
			x.Outage = 1
		}
		if x.TInv > s.a && x.TRet < s.b {
			x.Outage = 2
		}
	}
	er.j.Add(x)
	if x.Latest > e.lastKnown && er == e.cur {
		e.lastKnown = x.Latest
	}
	return x
}

// quiet reports whether nothing the operator did excuses a missing answer: a
// server asked to stop owes the answers to the requests it had by then.
func (e *srvEnv) quiet(er *era, got *progress) bool {
	if er.killed || er != e.cur {
		return false
	}
	if er.tInt != 0 {
		if got == nil || got.acc == 0 || got.fin == 0 || got.acc >= er.sInt || got.fin >= er.sInt {
			return false
		}
		e.r.w.Probe("answer-owed-at-stop")
	}
	return true
}

// honest is a client that checks every answer with the real client library.
type honest struct {
	cc    *client.ConsistencyChecks
	era   int
	saved int64
	n     int
}

func toDirSTR(s *rSTR) *protocol.DirSTR {
	b, _ := json.Marshal(s)
	d := new(protocol.DirSTR)
	if json.Unmarshal(b, d) != nil {
		return nil
	}
	return d
}

// feedHonest lets client cli's library judge the answer to x.
func (e *srvEnv) feedHonest(cli int, x *Ex) {
	if x.Resp == nil || x.Lost || (x.Kind != "reg" && x.Kind != "look") || e.initSTR == nil || x.Era > 0 {
		return
	}
	r := e.r
	h := e.honest[cli]
	if h == nil {
		h = &honest{cc: client.New(toDirSTR(e.initSTR), true, e.ks.pub)}
		e.honest[cli] = h
	}
	if x.Latest > h.saved+1 {
		// out of step: start over from the newest root
		s := e.eras[x.Era].j.strs[uint64(x.Latest)]
		if s == nil || !s.ok {
			return
		}
		h.cc = client.New(toDirSTR(s.s), true, e.ks.pub)
		h.saved = x.Latest
		r.w.Probe("honest-out-of-step")
	}
	typ := protocol.KeyLookupType
	if x.Kind == "reg" {
		typ = protocol.RegistrationType
	}
	var err error
	var got []byte
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Fail("C05,C08", "client-panic", "the client panicked on the answer to %v: %v", x, p)
				err = fmt.Errorf("panic")
			}
		}()
		res := application.UnmarshalResponse(typ, x.Raw)
		err = h.cc.HandleResponse(typ, res, x.Name, x.Key)
		got, _ = res.GetKey()
	}()
	r.w.Probe("honest-checked")
	if x.Resp.Error >= codeUnknown {
		if err == nil {
			r.Fail("C06,C26", "error-accepted", "the client accepted the error answer to %v", x)
		}
		return
	}
	if x.Latest > h.saved {
		h.saved = x.Latest
	}
	if x.Kind == "reg" && x.Resp.Error == codeExisted && x.Bound != nil && !bytes.Equal(x.Bound, x.Key) {
		if err == nil {
			r.Fail("C06,C05", "conflict-accepted", "the client took %v for its own registration", x)
		}
		// the library may have stopped before storing the promise
		return
	}
	if err != nil {
		r.Fail("C05", "honest-rejected", "the client rejected the honest answer to %v: %v", x, err)
		return
	}
	if x.Bound != nil && !bytes.Equal(got, x.Bound) {
		r.Fail("C05,C26", "honest-key", "the client reports key %q for %v", trunc(string(got)), x)
	}
	h.n++
	if r.Prop == "C05" {
		r.res.Nontrivial = true
	}
}

// stopServer requests a graceful shutdown and checks that it completes.
func (e *srvEnv) stopServer(er *era) {
	r := e.r
	w := r.w
	if er.node.Dead || er.exited {
		return
	}
	er.tInt, er.sInt = w.NowNs(), w.Seq()
	er.j.stopAt = er.tInt
	w.Event("SIGINT")
	er.node.Signal(os.Interrupt)
	e.awaitExit(er)
}

func (e *srvEnv) awaitExit(er *era) {
	r := e.r
	w := r.w
	gone := func() bool { return er.exited || er.node.Dead }
	simrt.BlockUntil("server exit", er.tInt+15*sec+20*w.Net.MaxDelay, gone)
	if w.Faults["stall"] > 0 { // before the request or after it
		simrt.BlockUntil("server exit", er.tInt+300*sec, gone)
	}
	if er.node.Dead {
		if er.node.Panic != "" {
			r.Fail("C09,C01,C11", "server-crash", "the server crashed during shutdown: %s", firstLines(er.node.Panic+"\n"+er.node.Stack, 12))
		} else if er.node.DieFatal != "" && !er.killed && er.serving {
			r.Fail("C11", "shutdown-killed", "the shutdown request ended the process at once: %s", er.node.DieFatal)
		}
		return
	}
	if !er.exited {
		r.Fail("C11", "shutdown-hangs", "no shutdown %.1fs after the request; still running: %s", float64(w.NowNs()-er.tInt)/1e9, er.node.TaskNames())
		return
	}
	if r.Prop == "C11" {
		r.res.Nontrivial = true
	}
	sleepNs(50 * ms)
	if w.Faults["stall"] > 0 {
		sleepNs(60 * sec)
	}
	if n := er.node.Alive(); n > 0 {
		r.Fail("C11", "left-running", "after shutdown still running: %s", er.node.TaskNames())
	}
	if n := w.Net.Listening(er.node); n > 0 {
		r.Fail("C11", "left-listening", "%d sockets still accept connections after shutdown", n)
	}
	if n := w.Net.OpenEnds(er.node); n > 0 {
		r.Fail("C11", "left-open", "%d connections still open after shutdown", n)
	}
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

// crashed reports a server that died although nobody killed it.
func (e *srvEnv) crashed(er *era) bool {
	if er.node.Dead && !er.killed {
		why := er.node.Panic
		if why == "" {
			why = "process ended: " + er.node.DieFatal
		}
		if er.tInt != 0 && er.node.Panic == "" {
			return true
		}
		e.r.Fail("C01,C09,C13,C24,C23,C10,C11,C12", "server-crash", "the server died: %s", firstLines(why+"\n"+er.node.Stack, 14))
		return true
	}
	return er.node.Dead
}

// finalChecks queries every name over the whole retained history once faults
// have stopped, then judges the era.
func (e *srvEnv) finalQueries(er *era, names []string) {
	if er.node.Dead || er.exited || er.tInt != 0 {
		return
	}
	cli := 90 + er.n
	n := e.clientNode(cli)
	t := simrt.GoNode(n, "final", func() {
		latest := uint64(0)
		for _, nm := range names {
			x := e.exchange(cli, "look", nm, nil, 0, 0, xopt{}, 0)
			if x.Latest > 0 {
				latest = uint64(x.Latest)
			}
		}
		from := uint64(0)
		h := uint64(er.j.half())
		if latest+1 > h {
			from = latest + 1 - h
		}
		if e.hist >= 100 {
			from = 0
		}
		if latest-from > 30 {
			from = latest - 30
		}
		for _, nm := range names {
			e.exchange(cli, "mon", nm, nil, from, latest, xopt{}, 0)
		}
	})
	simrt.Join(t)
}

// entropyBytes checks that successful registrations used fresh randomness.
func (e *srvEnv) entropyBytes(er *era) {
	// (counted over all incarnations: randomness may be read ahead)
	n, used := int64(0), int64(0)
	for _, p := range e.eras[:er.n+1] {
		for _, x := range p.j.exs {
			if x.Kind == "reg" && x.Resp != nil && x.Resp.Error == codeOK {
				n++
			}
		}
		used += p.node.Rand.Bytes
	}
	if used < 16*n {
		e.r.Fail("C22,C23", "no-fresh-randomness", "%d registrations used only %d random bytes", n, used)
	}
}

// judgeEra closes an era.
func (e *srvEnv) judgeEra(er *era) {
	er.j.calm = e.r.w.Faults["stall"] == 0
	e.entropyBytes(er)
	er.j.Final()
	e.policies(er)
}
