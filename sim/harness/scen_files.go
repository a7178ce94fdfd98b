package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"strings"
	"syscall"

	"github.com/coniks-sys/coniks-go/application/bots"
	"github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/application/server"
	botzz "github.com/coniks-sys/coniks-go/cli/coniksbot/zzcmd"
	clientzz "github.com/coniks-sys/coniks-go/cli/coniksclient/zzcmd"
	serverzz "github.com/coniks-sys/coniks-go/cli/coniksserver/zzcmd"
	"github.com/spf13/cobra"
	"verif.sim/refvrf"
	"verif.sim/simrt"
)

// Scenario "files": operators create configurations with the real init
// commands, again and again, while the process dies at arbitrary disk
// operations, the disk fails or fills up and the power goes; the server is
// started in between so that it saves its initial root. After every step all
// files are loaded the way the executables load them.

const (
	fSrv = "/keyserver/coniksserver"
	fCli = "/keyserver/coniksclient"
	fBot = "/keyserver/coniksbot"
)

var fileNames = []string{
	fSrv + "/config.toml", fSrv + "/sign.priv", fSrv + "/sign.pub", fSrv + "/vrf.priv", fSrv + "/vrf.pub",
	fSrv + "/init.str", fSrv + "/server.pem", fSrv + "/server.key",
	fCli + "/config.toml", fBot + "/botconfig.toml",
}

type filesEnv struct {
	r      *Run
	fs     *simrt.FS
	origin map[string]string // init, operator or damaged
	pubs   [][]byte          // public halves of all signing keys seen
	nn     int
	wasCut bool // some round was interrupted
}

func genFiles(g *Gen) {
	n := 1 + g.Intn(5)
	if g.Tier == "thorough" {
		n = 1 + g.Intn(8)
	}
	names := []string{}
	for i := range fileNames {
		names = append(names, fmt.Sprint(i))
	}
	faults := func(max int) []int64 {
		k := int64(1 + g.Intn(max))
		switch g.Intn(9) {
		case 8:
			return []int64{5, int64(g.Intn(5)), int64(g.Intn(40))}
		case 0, 1:
			return []int64{0, 0, 0}
		case 2, 3, 4:
			return []int64{1, k, int64(g.Intn(40) - 5)}
		case 5:
			return []int64{2, k, int64(g.Intn(66) - 1)}
		case 6:
			return []int64{3, k, int64(g.Intn(66) - 1)}
		}
		return []int64{4, int64(g.Intn(2500)), 0}
	}
	for i := 0; i < n; i++ {
		if g.chance(0.2) {
			g.add(Op{K: "pre", S: []string{names[g.Intn(len(names))]}, N: []int64{int64(g.Intn(1000))}})
		}
		if i > 0 && g.chance(0.2) {
			g.add(Op{K: "trunc", S: []string{names[g.Intn(len(names))]}, N: []int64{int64(g.Intn(101)), int64(g.Intn(4))}})
		}
		if i > 0 && g.chance(0.25) {
			g.add(Op{K: "del", S: []string{names[g.Intn(len(names))]}})
		}
		what := g.pick("server", "server", "server", "server", "client", "bot")
		if i > 0 && g.chance(0.35) {
			what = "run"
		}
		o := Op{K: "init", S: []string{what}}
		max := 70
		switch what {
		case "run":
			o.K = "run"
			max = 30
		case "client", "bot":
			max = 14
		}
		o.N = faults(max)
		post := int64(0)
		if g.chance(0.35) {
			post = 1 // power loss
		}
		o.N = append(o.N, post, int64((3+g.Intn(4))/4), int64(g.Intn(12)))
		if o.K == "init" && g.chance(0.15) {
			o.N[4] = 0
			o.N = append(o.N, 1) // twice at the same time
		}
		g.add(o)
		if g.chance(0.3) {
			g.add(Op{K: "load", S: []string{g.pick("server", "client", "bot")}, N: []int64{int64(1 + g.Intn(8)), int64(g.Intn(3))}})
		}
	}
}

func execFiles(r *Run) {
	e := &filesEnv{r: r, fs: r.w.NewNode("disk").FS, origin: map[string]string{}}
	for _, d := range []string{fSrv, fCli, fBot} {
		e.fs.MkdirAllRaw(d)
	}
	fresh := true
	for _, o := range r.Ops {
		switch o.K {
		case "pre":
			e.place(idx(o.s(0)), o.n(0))
			fresh = false
		case "trunc":
			e.damage(idx(o.s(0)), o.n(0), o.n(1))
		case "del":
			p := fileNames[idx(o.s(0))]
			e.fs.Delete(p)
			delete(e.origin, p)
		case "load":
			e.loadUnderFault(o)
		case "init", "run":
			e.round(o, fresh)
			if o.s(0) == "server" || o.K == "run" {
				fresh = false
			}
		}
		if len(r.res.Viol) > 0 {
			return
		}
	}
}

func idx(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n % len(fileNames)
}

// place puts a file of the operator's own where none is.
func (e *filesEnv) place(i int, x int64) {
	p := fileNames[i]
	if e.fs.Exists(p) {
		return
	}
	ks := keysFor(5000 + x%20)
	var b []byte
	switch i {
	case 1:
		b = ks.sign
	case 2:
		b = ks.pub
	case 3:
		b = ks.vrf
	case 4:
		b = ks.vpub
	case 5:
		s := &rSTR{Policies: &rPol{}, TreeHash: bytes.Repeat([]byte{1}, 32), PreviousSTRHash: bytes.Repeat([]byte{2}, 32)}
		s.Policies.VrfPublicKey = ks.vpub
		s.Policies.HashID = "SHAKE128"
		s.Policies.Version = "0.1.0"
		s.Policies.EpochDeadline = 1
		s.Signature = ed25519.Sign(ks.sign, s.serialize())
		b, _ = json.Marshal(s)
		e.pubs = append(e.pubs, ks.pub)
	default:
		b = []byte(fmt.Sprintf("# written by the operator %d\n", x))
	}
	e.fs.Put(p, b)
	e.origin[p] = "operator"
	e.r.w.Probe("operator-file")
}

// damage shortens or extends a file, as an interrupted copy would.
func (e *filesEnv) damage(i int, pct, mode int64) {
	p := fileNames[i]
	b := e.fs.Peek(p)
	if len(b) == 0 || strings.HasSuffix(p, ".toml") || e.origin[p] == "damaged" {
		return
	}
	b = append([]byte{}, b...)
	if mode == 3 && i >= 1 && i <= 4 {
		b = append(b, 0)
	} else if mode >= 2 && i == 5 {
		// still a document, but parts of the root are gone
		m := map[string]interface{}{}
		if json.Unmarshal(b, &m) != nil {
			return
		}
		switch {
		case pct > 75:
			m = nil
		case pct > 50:
			m = map[string]interface{}{}
		case mode == 2:
			delete(m, "Policies")
		default:
			m["Policies"] = nil
		}
		b, _ = json.Marshal(m)
	} else {
		n := int(int64(len(b)) * pct / 100)
		if mode == 1 {
			n = len(b) - 1
		}
		if n == len(b) {
			n--
		}
		b = b[:n]
	}
	e.fs.Put(p, b)
	e.origin[p] = "damaged"
	e.r.w.Probe("damaged-file")
	e.inspect("a file was damaged", false)
}

func (e *filesEnv) newNode(kind string) *simrt.Node {
	e.nn++
	n := e.r.w.NewNode(fmt.Sprintf("%s%d", kind, e.nn))
	n.FS = e.fs
	n.Cwd = "/keyserver"
	return n
}

func (e *filesEnv) plan(o Op) func(op, path string, n int) *simrt.FSFault {
	var ops int64
	kind, k, part := o.n(0), o.n(1), o.n(2)
	if kind == 0 || kind >= 4 {
		return nil
	}
	return func(op, path string, n int) *simrt.FSFault {
		if strings.HasSuffix(path, ".log") {
			return nil
		}
		ops++
		if ops != k {
			return nil
		}
		x := &simrt.FSFault{Partial: int(part)}
		switch kind {
		case 1:
			x.Crash = true
		case 2:
			x.Err = syscall.EIO
		default:
			x.Err = syscall.ENOSPC
		}
		if kind != 1 {
			if op != "write" {
				x.Partial = 0
			} else if x.Partial < 0 {
				x.Partial = 1 << 30
			}
		}
		e.wasCut = true
		return x
	}
}

type snap map[string][]byte

func (e *filesEnv) snapshot() snap {
	s := snap{}
	for _, p := range fileNames {
		if e.fs.Exists(p) {
			s[p] = append([]byte{}, e.fs.Peek(p)...)
		}
	}
	return s
}

// round runs one command with its planned fault.
func (e *filesEnv) round(o Op, fresh bool) {
	r := e.r
	r.res.Nontrivial = true
	what := o.s(0)
	if o.K == "run" {
		// a million history slots only cost memory here
		p := fSrv + "/config.toml"
		if c := string(e.fs.Peek(p)); strings.Contains(c, "loaded_history_length = 1000000") {
			e.fs.Put(p, []byte(strings.Replace(c, "loaded_history_length = 1000000", "loaded_history_length = 1000", 1)))
		}
		e.fs.Delete("/tmp/coniks.sock")
		if p, k := fSrv+"/server.pem", fSrv+"/server.key"; o.n(4) == 1 && !e.fs.Exists(p) && !e.fs.Exists(k) {
			e.fs.Put(p, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte("cert")}))
			e.fs.Put(k, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: []byte("key")}))
			e.origin[p], e.origin[k] = "operator", "operator"
		}
	}
	before := e.snapshot()
	n := e.newNode(what)
	e.fs.Fault = e.plan(o)
	if o.n(0) == 4 {
		used := 0
		for _, b := range before {
			used += len(b)
		}
		e.fs.Cap = used + int(o.n(1))
	}
	root, args := (*cobra.Command)(nil), []string(nil)
	switch what {
	case "server":
		root = serverzz.Root
		args = []string{"init", "--dir", fSrv, fmt.Sprintf("--cert=%v", o.n(4) == 1)}
	case "client":
		root, args = clientzz.Root, []string{"init", "--dir", fCli}
	case "bot":
		root, args = botzz.Root, []string{"init", "--dir", fBot}
	default:
		root, args = serverzz.Root, []string{"run", "--config", fSrv + "/config.toml", "--pid=false"}
	}
	if o.n(0) == 5 {
		var reads int64
		n.Rand.Fail = func(read int64, want int) (int, error) {
			reads++
			if reads > o.n(1) {
				return int(o.n(2)) % (want + 1), syscall.EIO
			}
			return want, nil
		}
	}
	run := func() {
		root.SetArgs(args)
		root.Execute()
	}
	t := simrt.GoNode(n, what, run)
	if o.n(6) == 1 && o.K == "init" {
		m := e.newNode(what)
		t2 := simrt.GoNode(m, what, run)
		defer func() {
			if m.Panic != "" {
				r.Fail("C21", "command-panic", "%v panicked: %s", args, firstLines(m.Panic+"\n"+m.Stack, 12))
			}
		}()
		simrt.Join(t2)
		r.w.Probe("concurrent-init")
		if e.fs.Fault != nil && n.Dead {
			e.fs.Fault = nil
		}
	}
	if o.K == "run" {
		simrt.BlockUntil("server", r.w.NowNs()+2*sec, func() bool { return n.Dead || n.Alive() == 0 || r.w.Net.Listening(n) >= 2 })
		if r.w.Net.Listening(n) >= 2 {
			r.w.Probe("server-started")
			sleepNs(o.n(5) * sec / 4)
		}
		if !n.Dead {
			r.w.KillNode(n)
		}
	} else {
		simrt.Join(t)
	}
	e.fs.Fault = nil
	e.fs.Cap = 0
	crashed := n.Dead && n.Panic == "" && n.DieFatal == "" && n.ExitCode == -9
	if n.Panic != "" && (o.K != "run" || strings.Contains(n.Panic, "runtime error")) {
		r.Fail("C21", "command-panic", "%v panicked: %s", args, firstLines(n.Panic+"\n"+n.Stack, 12))
		return
	}
	// nothing that existed changed
	for _, p := range fileNames {
		b, ok := before[p]
		if !ok {
			if e.fs.Exists(p) {
				e.origin[p] = "init"
			}
			continue
		}
		if !e.fs.Exists(p) {
			r.Fail("C21", "file-removed", "%v removed the existing %s", args, p)
		} else if !bytes.Equal(b, e.fs.Peek(p)) {
			if strings.HasSuffix(p, "init.str") {
				r.Fail("C27", "init-replaced", "%v replaced the existing %s", args, p)
			}
			r.Fail("C21", "file-overwritten", "%v changed the existing %s", args, p)
		}
	}
	// no new private key beside somebody else's public key
	for _, k := range []string{"sign", "vrf"} {
		priv, pub := fSrv+"/"+k+".priv", fSrv+"/"+k+".pub"
		_, was := before[priv]
		if o.K != "init" || what != "server" || was {
			continue
		}
		x, y := e.fs.Peek(priv), before[pub]
		if y != nil && len(x) == 64 && !bytes.Equal(x[32:], y) {
			r.Fail("C21", "foreign-pair", "%v put a new %s beside the existing %s of another key", args, priv, pub)
		}
	}
	if o.n(3) == 1 {
		r.w.Probe("power-loss")
		if !n.Dead {
			r.w.KillNode(n)
		}
		e.fs.PowerLoss()
		for _, d := range []string{fSrv, fCli, fBot} {
			e.fs.MkdirAllRaw(d)
		}
	}
	clean := o.n(0) == 0 && o.n(3) == 0
	e.inspect(fmt.Sprintf("after %v (fault %v)", args, o.N[:min(4, len(o.N))]), crashed || o.n(3) == 1)
	if clean && what == "server" && fresh && len(r.res.Viol) == 0 {
		r.w.Probe("fresh-init")
		if err, _ := e.load("server"); err != nil {
			r.Fail("C21", "useless-init", "the configuration init made in an empty directory does not load: %v", err)
		}
		for _, f := range fileNames[:5] {
			if !e.fs.Exists(f) {
				r.Fail("C21", "useless-init", "init in an empty directory made no %s", f)
			}
		}
	}
	if _, had := before[fBot+"/botconfig.toml"]; clean && what == "bot" && !had && len(r.res.Viol) == 0 {
		if err, v := e.load("bot"); err != nil || v.(*bots.TwitterConfig).CONIKSAddress == "" {
			r.Fail("C21", "useless-init", "the bot configuration does not load: %v", err)
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// load loads a configuration as its executable does.
func (e *filesEnv) load(what string) (err error, conf interface{}) {
	r := e.r
	n := e.newNode("load")
	t := simrt.GoNode(n, "load", func() {
		switch what {
		case "server":
			c := &server.Config{}
			err = c.Load(fSrv+"/config.toml", "toml")
			conf = c
		case "client":
			c := &client.Config{}
			err = c.Load(fCli+"/config.toml", "toml")
			conf = c
		default:
			c := &bots.TwitterConfig{}
			err = c.Load(fBot+"/botconfig.toml", "toml")
			conf = c
		}
	})
	simrt.Join(t)
	if n.Panic != "" {
		r.Fail("C21", "load-panic", "loading the %s's configuration panicked: %s", what, firstLines(n.Panic+"\n"+n.Stack, 10))
		err = fmt.Errorf("panic")
	} else if n.Dead {
		err = fmt.Errorf("process ended")
	}
	return
}

func (e *filesEnv) loadUnderFault(o Op) {
	var ops int64
	e.fs.Fault = func(op, path string, n int) *simrt.FSFault {
		ops++
		if ops == o.n(0) {
			return &simrt.FSFault{Err: []error{syscall.EIO, syscall.EACCES, syscall.EMFILE}[o.n(1)%3]}
		}
		return nil
	}
	err, v := e.load(o.s(0))
	e.fs.Fault = nil
	if err == nil {
		e.accepted(o.s(0), v, "loaded under a disk fault")
	}
	e.r.w.Probe("load-under-fault")
}

// inspect loads everything and judges what was accepted.
func (e *filesEnv) inspect(when string, cut bool) {
	r := e.r
	sk := e.fs.Peek(fSrv + "/sign.priv")
	if len(sk) == 64 && signKeyComplete(sk) {
		e.pubs = append(e.pubs, append([]byte{}, sk[32:]...))
	}
	for _, what := range []string{"server", "client", "bot"} {
		err, v := e.load(what)
		if len(r.res.Viol) > 0 {
			return
		}
		if err != nil {
			if what == "server" {
				r.w.Probe("load-refused")
			}
			continue
		}
		r.w.Probe("load-ok-" + what)
		e.accepted(what, v, when)
	}
	// the client's loader on the server's files whatever became of the
	// client's own configuration
	if len(r.res.Viol) == 0 && !e.fs.Exists(fCli+"/config.toml") {
		e.fs.Put(fCli+"/config.toml", []byte("sign_pubkey_path = \"../coniksserver/sign.pub\"\ninit_str_path = \"../coniksserver/init.str\"\naddress = \"tcp://127.0.0.1:3000\"\n"))
		err, v := e.load("client")
		e.fs.Delete(fCli + "/config.toml")
		if err == nil {
			e.accepted("client", v, when)
		}
	}
	// pairs made by init belong together
	for _, k := range []string{"sign", "vrf"} {
		priv, pub := fSrv+"/"+k+".priv", fSrv+"/"+k+".pub"
		if e.origin[priv] != "init" || e.origin[pub] != "init" {
			continue
		}
		x, y := e.fs.Peek(priv), e.fs.Peek(pub)
		if len(x) == 64 && len(y) == 32 && !bytes.Equal(x[32:], y) && !zero(y) && !zero(x) {
			r.Fail("C21", "foreign-pair", "%s: %s and %s belong to different keys", when, priv, pub)
		}
	}
}

func zero(b []byte) bool { return len(bytes.Trim(b, "\x00")) == 0 }

func signKeyComplete(b []byte) bool {
	return len(b) == 64 && !zero(b[:32]) && bytes.Equal(ed25519.NewKeyFromSeed(b[:32]), b)
}
func vrfKeyComplete(b []byte) bool {
	if len(b) != 64 || zero(b[:32]) {
		return false
	}
	k, err := refvrf.GenerateKey(bytes.NewReader(b[:32]))
	return err == nil && bytes.Equal(k, b)
}

func (e *filesEnv) accepted(what string, v interface{}, when string) {
	r := e.r
	bad := func(f string, a ...interface{}) {
		r.Fail("C21", "torn-accepted", "%s, %s: the %s's configuration loads although %s", when, what, what, fmt.Sprintf(f, a...))
	}
	switch what {
	case "server":
		if b := e.fs.Peek(fSrv + "/sign.priv"); !signKeyComplete(b) {
			bad("sign.priv is not a complete key (%d bytes, %s)", len(b), short(b))
		}
		if b := e.fs.Peek(fSrv + "/vrf.priv"); !vrfKeyComplete(b) {
			bad("vrf.priv is not a complete key (%d bytes, %s)", len(b), short(b))
		}
	case "client":
		c := v.(*client.Config)
		b := e.fs.Peek(fSrv + "/sign.pub")
		if len(b) != 32 || zero(b) {
			bad("sign.pub is not a complete key (%d bytes, %s)", len(b), short(b))
		} else if !bytes.Equal(b, c.SigningPubKey) {
			bad("the key loaded differs from sign.pub")
		}
		raw := e.fs.Peek(fSrv + "/init.str")
		s := new(rSTR)
		if err := json.Unmarshal(raw, s); err != nil || s.Policies == nil {
			bad("init.str is incomplete (%d bytes)", len(raw))
			return
		}
		ok := false
		for _, p := range e.pubs {
			if refSTR(p, s) == nil {
				ok = true
			}
		}
		if !ok {
			bad("init.str is not a signed root of this server")
		}
		lb, _ := json.Marshal(c.InitSTR)
		l := new(rSTR)
		if json.Unmarshal(lb, l) != nil || canonSTR(l) != canonSTR(s) {
			bad("the root loaded differs from init.str")
		}
		r.w.Probe("client-accepted")
	}
}

func init() {
	register(&Scenario{Name: "files", Gen: genFiles, Exec: execFiles, Hang: "C21",
		Lim: simrt.Limits{MaxYields: 30_000_000, MaxSwitch: 2_000_000, MaxSimTime: 3600 * sec}},
		"C21*3", "C27")
}
