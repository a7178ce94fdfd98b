package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"regexp"
	"strings"

	clientzz "github.com/coniks-sys/coniks-go/cli/coniksclient/zzcmd"
	"github.com/coniks-sys/coniks-go/protocol"
	"verif.sim/simrt"
)

// Scenario "cli": a user at the interactive client. A relay stands between
// the client and a directory (a model directory, honest for a while and then
// anything but, or the real key server) and damages, delays or replaces
// answers. What the client prints is compared with what the answers prove.

type cliReq struct {
	op     Op
	n      int // connections seen
	typ    int // request received
	name   string
	key    []byte
	badReq string
	raw    []byte // the answer as sent
	honest bool
	sent   bool // raw went out entirely, fault free
}

type cliEnv struct {
	r      *Run
	b      *byz
	e      *srvEnv // real server, nil with the model directory
	node   *simrt.Node
	relay  *simrt.Node
	fs     *simrt.FS
	addrs  [2]string // registration, lookups
	queue  []*cliReq
	cur    *cliReq
	curs   []*rSTR // possible verified roots
	known  string  // output consumed so far
	ts     bool
	nrun   int
	task   *simrt.Task
	ended  bool
	stray  int
	conns  int
	judged int
}

const cliPrompt = "coniks-client> "

var cliPositive = []string{"Succesfully registered", "Name is already registered", "Found! Key bound to name is", "Name isn't registered"}

func genCLI(g *Gen) {
	P := g.P
	P["ks"] = int64(g.Intn(6))
	P["cwd"] = int64(g.Intn(4))
	P["seed"] = g.Int63()
	P["real"] = int64(g.Intn(4) / 3)
	P["addr"] = int64(g.Intn(7))
	P["dl"] = []int64{5, 20, 60}[g.Intn(3)]
	P["hist"] = 100
	P["netdelay"] = []int64{ms, 50 * ms}[g.Intn(2)]
	nn := 1 + g.Intn(4)
	var names []string
	for i := 0; i < nn; i++ {
		base := fmt.Sprintf("u%d-%05x", i, g.Int63()&0xfffff)
		switch g.Intn(8) {
		case 0:
			base += "@twitter"
		case 7:
			base = "Ünï" + strings.ToUpper(base)
		case 1:
			base = "ü☃" + base
		case 2:
			base += strings.Repeat("x", g.Intn(200))
		case 3:
			base += "\"\\<>&%s"
		}
		names = append(names, base)
	}
	if nn > 1 && g.chance(0.2) {
		names[1] = []string{strings.ToUpper(names[0]), strings.Title(names[0]), names[0] + "x", string([]rune(names[0])[1:])}[g.Intn(4)]
	}
	g.add(Op{K: "names", S: names})
	evil := []float64{0, 0.2, 0.5, 0.8}[g.Intn(4)]
	net := []float64{0, 0.15, 0.4}[g.Intn(3)]
	n := 10 + g.Intn(25)
	if g.Tier == "thorough" {
		n += g.Intn(40)
	}
	nm := func() string {
		if g.chance(0.5) {
			return names[0]
		}
		return names[g.Intn(len(names))]
	}
	for i := 0; i < n; i++ {
		switch k := g.Intn(24); {
		case k < 4:
			g.add(Op{K: "tick", N: []int64{int64(g.Intn(3000))}})
		case k < 6:
			g.add(Op{K: "reg", S: []string{nm()}, N: []int64{int64(g.Intn(4))}})
		case k == 6 && evil > 0 && g.chance(0.3):
			g.add(Op{K: "fork", N: []int64{g.Int63()}})
		case k == 7 && evil > 0 && g.chance(0.3):
			g.add(Op{K: "switch"})
		case k == 8 && evil > 0 && g.chance(0.5):
			g.add(Op{K: "tamper", S: []string{g.pick("drop-pending", "replace-pending", "remove", "replace", "drop-tb", "replace-tb", "delay"), nm()}, N: []int64{g.Int63()}})
		case k == 9 && g.chance(0.3):
			g.add(Op{K: "restart"})
		case k == 10 && g.chance(0.3):
			g.add(Op{K: "bounce"})
		case k == 11:
			g.add(Op{K: "local", S: []string{g.pick("", "help", "bogus", "register", "register a", "lookup", "lookup a b", "enable timestamp", "disable timestamp", "enable", "enable x", "  ", "registerx y z", "register a b c")}})
		default:
			act := "honest"
			if g.chance(evil) {
				act = byzActions[1+g.Intn(len(byzActions)-1)]
			}
			nf := int64(0)
			if g.chance(net) {
				nf = int64(1 + g.Intn(11))
			}
			burst := int64(0)
			if g.chance(0.2) {
				burst = 1
			}
			g.add(Op{K: "cmd", S: []string{act, nm()}, N: []int64{int64(g.Intn(2)), int64(1 + g.Intn(2)*g.Intn(2)), g.Int63(), nf, int64(g.Intn(6000)), burst}})
		}
	}
	g.add(Op{K: g.pick("exit", "q", "eof")})
}

func execCLI(r *Run) {
	c := &cliEnv{r: r}
	b := &byz{r: r, ks: keysFor(r.p("ks") + 1), alien: keysFor(77)}
	c.b = b
	rng := rand.New(rand.NewSource(r.p("seed")))
	for _, o := range r.Ops {
		if o.K == "names" {
			b.names = o.S
		}
	}
	if len(b.names) == 0 {
		b.names = []string{"someone"}
	}
	real := r.p("real") == 1
	if real {
		c.e = newSrvEnv(r)
		c.e.writeConfig(r.p("dl"))
		b.ks = c.e.ks
		er := c.e.start()
		if !c.e.await(er, 30*sec) {
			return
		}
		c.e.checkInit(er)
		c.fs = c.e.fs
	} else {
		c.fs = r.w.NewNode("disk").FS
		r.w.Net.MaxDelay = r.p("netdelay")
	}
	w := newRDir(b.ks, rng, 60)
	w.tick()
	b.ws, b.taint = []*rDir{w}, []bool{false}
	init := w.strs[0]
	if real {
		if c.e.initSTR == nil {
			return
		}
		init = c.e.initSTR
	}
	b.cs = []*refClient{{cur: copySTR(init), pins: map[string][]byte{}, tbs: map[string]heldTB{}}}
	c.relay = r.w.NewNode("relay")
	c.relay.FS = c.fs
	tcp, unix := "tcp://127.0.0.1:4000", "unix:///tmp/relay.sock"
	switch r.p("addr") {
	case 0:
		c.addrs = [2]string{unix, tcp}
	case 1:
		c.addrs = [2]string{tcp, tcp}
	case 2:
		c.addrs = [2]string{"", tcp}
	case 3:
		c.addrs = [2]string{"", unix}
	case 4:
		c.addrs = [2]string{"tcp://127.0.0.1:4001", tcp}
	case 5:
		c.addrs = [2]string{"unix:///tmp/relay-reg.sock", unix}
	default:
		c.addrs = [2]string{tcp, unix}
	}
	c.listen("unix", "unix:///tmp/relay.sock")
	c.listen("unix", "unix:///tmp/relay-reg.sock")
	c.listen("tcp", "tcp://127.0.0.1:4000")
	c.listen("tcp", "tcp://127.0.0.1:4001")
	c.fs.MkdirAllRaw("/cli")
	cfg := fmt.Sprintf("sign_pubkey_path = \"sign.pub\"\ninit_str_path = \"init.str\"\naddress = %q\n", c.addrs[1])
	if c.addrs[0] != "" {
		cfg += fmt.Sprintf("registration_address = %q\n", c.addrs[0])
	} else {
		c.addrs[0] = c.addrs[1]
	}
	c.fs.Put("/cli/config.toml", []byte(cfg))
	c.fs.Put("/cli/sign.pub", b.ks.pub)
	raw, _ := json.Marshal(init)
	c.fs.Put("/cli/init.str", raw)
	r.w.Net.Plan = func(ci simrt.ConnInfo) *simrt.ConnPlan {
		if c.e != nil {
			if p := c.e.plans[ci.From]; p != nil {
				delete(c.e.plans, ci.From)
				return p
			}
		}
		if ci.From != c.node {
			return nil
		}
		c.conns++
		c.next()
		return c.plan(strings.HasPrefix(ci.Addr, "tcp") || !strings.Contains(ci.Addr, "/"))
	}
	c.launch(init)
	for i := 0; i < len(r.Ops) && !c.ended && len(r.res.Viol) == 0; i++ {
		o := r.Ops[i]
		w := b.ws[b.wi]
		switch o.K {
		case "tick":
			if real {
				sleepNs(o.n(0) * ms * r.p("dl") / 3)
			} else {
				w.tick()
			}
		case "reg":
			if real {
				c.e.send(50, c.e.addrs[0].url, reqJSON(protocol.RegistrationType, regBody{Username: o.s(0) + "@twitter", Key: b.keyOf(o.s(0), o.n(0)), AllowUnsignedKeychange: true}), xopt{})
			} else {
				w.register(o.s(0), b.keyOf(o.s(0), o.n(0)))
			}
		case "fork":
			if len(b.ws) < 3 {
				b.ws = append(b.ws, w.clone(o.n(0)))
				b.taint = append(b.taint, b.taint[b.wi])
				r.w.Fault("fork")
			}
		case "switch":
			b.wi = (b.wi + 1) % len(b.ws)
		case "tamper":
			b.tamper(o)
		case "bounce": // the real server crashes and starts over
			if real {
				er := c.e.cur
				er.killed = true
				r.w.KillNode(er.node)
				c.fs.Delete("/tmp/coniks.sock")
				c.fs.Delete("/tmp/ro.sock")
				er = c.e.start()
				c.e.await(er, 30*sec)
				r.w.Fault("server-restart")
			}
		case "restart":
			r.w.KillNode(c.node)
			b.cs[0] = &refClient{pins: map[string][]byte{}, tbs: map[string]heldTB{}}
			c.launch(init)
		case "local":
			c.local(o.s(0))
		case "cmd":
			j := i + 1
			for o.n(5) == 1 && j < len(r.Ops) && r.Ops[j].K == "cmd" && j < i+4 {
				j++
			}
			c.commands(r.Ops[i:j])
			i = j - 1
		case "exit", "q", "eof":
			c.leave(o.K)
		}
	}
	r.res.Nontrivial = c.judged >= 3
}

// next makes the next outstanding command the current one.
func (c *cliEnv) next() {
	if len(c.queue) == 0 {
		c.stray++
		return
	}
	c.cur = c.queue[0]
	c.queue = c.queue[1:]
	c.cur.n++
}

func (c *cliEnv) plan(isTLS bool) *simrt.ConnPlan {
	q := c.cur
	if q == nil {
		return nil
	}
	pos := 1 + q.op.n(4)
	switch q.op.n(3) {
	case 1:
		return &simrt.ConnPlan{CutAt: [2]int{0, int(pos)}}
	case 2:
		return &simrt.ConnPlan{CloseAt: [2]int{0, int(pos)}}
	case 3:
		return &simrt.ConnPlan{Trickle: true}
	case 4:
		return &simrt.ConnPlan{DialErr: []string{"refused", "timeout", "reset"}[pos%3]}
	case 5:
		if isTLS {
			return &simrt.ConnPlan{CorruptAt: [2]int{0, int(pos)}}
		}
	case 6:
		return &simrt.ConnPlan{ExtraNs: [2]int64{pos * ms, pos * ms / 2}}
	case 7:
		return &simrt.ConnPlan{CutAt: [2]int{int(pos % 300), 0}}
	}
	return nil
}

// undamaged tells whether the command's answer must arrive.
func (q *cliReq) undamaged() bool {
	switch q.op.n(3) {
	case 0, 3, 6, 10:
		return true
	}
	return false
}

func (c *cliEnv) listen(proto, url string) {
	up := false
	addr := strings.TrimPrefix(url, proto+"://")
	simrt.GoNode(c.relay, "relay-"+proto, func() {
		l, err := simrt.Listen(proto, addr)
		if err != nil {
			panic(err)
		}
		up = true
		for {
			conn, err := l.Accept()
			if err != nil {
				continue
			}
			q := c.cur
			simrt.GoNode(c.relay, "relay-conn", func() { c.serve(conn, q, url) })
		}
	})
	simrt.BlockUntil("relay", -1, func() bool { return up })
}

// serve relays one request.
func (c *cliEnv) serve(conn net.Conn, q *cliReq, url string) {
	defer conn.Close()
	if q == nil {
		return
	}
	nf, pos := q.op.n(3), q.op.n(4)
	if nf == 8 { // gone before the request is read
		c.r.w.Fault("relay-close")
		return
	}
	var x io.ReadWriter = conn
	if strings.HasPrefix(url, "tcp") {
		x = simrt.TLSServer(conn, nil)
	}
	conn.SetDeadline(simrt.WallAt(c.r.w.NowNs() + 3600*sec))
	req, err := io.ReadAll(io.LimitReader(x, 100000))
	if err != nil || len(req) == 0 {
		return
	}
	var m struct {
		Type    int
		Request json.RawMessage
	}
	var body struct {
		Username string
		Key      []byte
	}
	if err := json.Unmarshal(req, &m); err != nil {
		q.badReq = fmt.Sprintf("the request is no message: %v", err)
		return
	}
	json.Unmarshal(m.Request, &body)
	q.typ, q.name, q.key = m.Type, body.Username, body.Key
	wantTyp, wantName := int(q.op.n(0))%2, c.userName(q.op)
	if m.Type != wantTyp || body.Username != wantName || wantTyp == 0 && !bytes.Equal(body.Key, c.typedKey(q.op)) {
		q.badReq = fmt.Sprintf("the request is type %d for %q key %q", m.Type, body.Username, body.Key)
		return
	}
	if url != c.addrs[wantTyp] {
		q.badReq = fmt.Sprintf("the request of type %d is sent to %s, not to %s", m.Type, url, c.addrs[wantTyp])
		return
	}
	b := c.b
	act := q.op.s(0)
	arng := rand.New(rand.NewSource(q.op.n(2)))
	var clean []byte
	if c.e != nil {
		url := c.e.addrs[0].url
		if wantTyp == 1 {
			url = c.e.addrs[1].url
		}
		ans, _, _, err := c.e.send(60, url, req, xopt{})
		if err != nil || len(ans) == 0 {
			c.r.w.Probe("server-silent")
			q.honest = false
			return
		}
		clean = ans
		q.honest = act == "honest"
		q.raw = ans
		switch act {
		case "honest":
		case "json", "json2":
			q.raw = mutateJSON(ans, arng, b.pool)
		case "replay":
			if p := b.pooled(arng); p != nil {
				q.raw = p
			}
		default:
			q.raw = mutateBytes(ans, arng, b.pool)
		}
	} else {
		w := b.ws[b.wi]
		res := b.answer(w, wantTyp, body.Username, body.Key)
		q.raw = res.wire()
		clean = q.raw
		q.honest = act == "honest" && !b.taint[b.wi]
		if act != "honest" {
			cl := *b.cs[0]
			if len(c.curs) > 0 {
				cl.cur = c.curs[len(c.curs)-1]
			}
			q.raw = b.craft(act, arng, wantTyp, body.Username, body.Key, res, &cl)
			c.r.w.Fault("answer-" + act)
		}
	}
	if len(b.pool) < 40 {
		b.pool = append(b.pool, clean)
	}
	out := q.raw
	switch nf {
	case 9: // the answer ends early
		out = out[:int(pos)%(len(out)+1)]
		c.r.w.Fault("relay-truncate")
	case 10: // slowly, in pieces
		c.r.w.Fault("relay-slow")
		for len(out) > 1 {
			k := 1 + arng.Intn(len(out))
			if k > 2000 {
				k = 2000
			}
			x.Write(out[:k])
			out = out[k:]
			sleepNs(int64(1+arng.Intn(20)) * sec)
		}
	case 11: // more than the client takes
		c.r.w.Fault("relay-oversize")
		out = append(append([]byte{}, out...), bytes.Repeat([]byte(" "), int(pos)*3)...)
	}
	if len(out) > 0 {
		x.Write(out)
	}
	q.sent = true
	if t, ok := x.(*simrt.TLSConn); ok {
		t.Close()
	}
}

func (c *cliEnv) userName(o Op) string {
	if c.e != nil {
		return o.s(1) + "@twitter" // what the real server accepts
	}
	return o.s(1)
}
func (c *cliEnv) typedKey(o Op) []byte { return c.b.keyOf(o.s(1), o.n(1)) }

// launch starts the client.
func (c *cliEnv) launch(init *rSTR) {
	r := c.r
	c.nrun++
	c.node = r.w.NewNode(fmt.Sprintf("user%d", c.nrun))
	c.node.FS = c.fs
	c.node.Cwd = []string{"/cli", "/", "/", "/cli"}[c.r.p("cwd")&3]
	c.known = ""
	c.ts = false
	c.queue, c.cur = nil, nil
	c.curs = []*rSTR{copySTR(init)}
	n := c.node
	c.task = simrt.GoNode(n, "client", func() {
		clientzz.Root.SetArgs([]string{"run", "--config", []string{"/cli/config.toml", "/cli/config.toml", "cli/config.toml", "config.toml"}[c.r.p("cwd")&3], "--debug=false"})
		clientzz.Root.Execute()
	})
	c.await(1)
}

// await waits until the client has prompted n times.
func (c *cliEnv) await(n int) bool {
	node := c.node
	limit := c.r.w.NowNs() + 7200*sec
	simrt.BlockUntil("client prompt", limit, func() bool {
		return node.Dead || node.Alive() == 0 || strings.Count(node.Out.String(), cliPrompt) >= n
	})
	if strings.Count(node.Out.String(), cliPrompt) >= n {
		return true
	}
	c.ended = true
	why := "it hangs"
	if node.Panic != "" {
		why = firstLines(node.Panic+"\n"+node.Stack, 12)
	} else if node.Dead || node.Alive() == 0 {
		why = "it ended: " + node.DieFatal
	}
	c.r.Fail("C26,C08", "client-gone", "the client does not come back to its prompt: %s; output ends %q", why, tail(node.Out.String(), 200))
	return false
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")
var stamp = regexp.MustCompile("^<[0-9:.]+> ")

// reply returns what was printed between prompt k and the next, after the
// echo of line.
func (c *cliEnv) reply(k int, line string) (string, bool) {
	parts := strings.Split(c.node.Out.String(), cliPrompt)
	if k >= len(parts) {
		return "", false
	}
	s := strings.ReplaceAll(ansi.ReplaceAllString(parts[k], ""), "\r", "")
	want := line
	for want != "" {
		switch {
		case strings.HasPrefix(s, "\n"):
			s = s[1:]
		case s != "" && s[0] == want[0]:
			s, want = s[1:], want[1:]
		default:
			return "", false
		}
	}
	return strings.TrimLeft(s, "\n"), true
}

func (c *cliEnv) prompts() int { return strings.Count(c.node.Out.String(), cliPrompt) }

func (c *cliEnv) local(line string) {
	k := c.prompts()
	before := c.conns
	c.node.In.Type(line + "\r")
	if !c.await(k + 1) {
		return
	}
	s, ok := c.reply(k, line)
	if !ok {
		c.r.w.Probe("odd-echo")
		return
	}
	switch line {
	case "enable timestamp":
		c.ts = true
	case "disable timestamp":
		c.ts = false
	default:
		if strings.TrimSpace(s) == "" {
			c.r.Fail("C26", "no-reply", "the client prints nothing on %q", line)
		}
	}
	for _, p := range cliPositive {
		if strings.Contains(s, p) {
			c.r.Fail("C26", "untrue", "the client prints %q on %q", s, line)
		}
	}
	if c.conns != before {
		c.r.Fail("C26", "stray-request", "the client contacts the server on %q", line)
	}
	c.r.w.Probe("local-command")
}

// commands types network commands at once and judges each answer.
func (c *cliEnv) commands(ops []Op) {
	r := c.r
	k := c.prompts()
	var qs []*cliReq
	var lines []string
	conns := c.conns
	for _, o := range ops {
		q := &cliReq{op: o}
		qs = append(qs, q)
		c.queue = append(c.queue, q)
		line := "lookup " + c.userName(o)
		if o.n(0)%2 == 0 {
			line = "register " + c.userName(o) + " " + string(c.typedKey(o))
		}
		lines = append(lines, line)
		c.node.In.Type(line + "\r")
	}
	if !c.await(k + len(ops)) {
		return
	}
	for i, q := range qs {
		s, ok := c.reply(k+i, lines[i])
		if !ok {
			r.w.Probe("odd-echo")
			continue
		}
		c.judge(q, lines[i], s)
		if len(r.res.Viol) > 0 {
			return
		}
	}
	if c.conns-conns != len(ops) {
		r.Fail("C26", "requests", "%d commands made %d requests", len(ops), c.conns-conns)
	}
}

func (c *cliEnv) judge(q *cliReq, line, s string) {
	r := c.r
	b := c.b
	cl := b.cs[0]
	if c.ts {
		if !stamp.MatchString(s) {
			r.Fail("C26", "no-timestamp", "no timestamp before the reply %q to %q although enabled", s, line)
			return
		}
		s = stamp.ReplaceAllString(s, "")
	}
	r.w.Event("user %q -> %q", line, s)
	if q.badReq != "" {
		r.Fail("C26", "wrong-request", "on %q: %s", line, q.badReq)
		return
	}
	if !strings.HasPrefix(s, "[+] ") || !strings.HasSuffix(s, "\n") || len(strings.TrimSpace(s)) < 5 {
		r.Fail("C26", "no-reply", "the client prints %q on %q", s, line)
		return
	}
	c.judged++
	msg := strings.TrimSuffix(s[4:], "\n")
	positive := false
	for _, p := range cliPositive {
		if strings.HasPrefix(msg, p) {
			positive = true
		}
	}
	name, key := c.userName(q.op), []byte(nil)
	typ := int(q.op.n(0)) % 2
	if typ == 0 {
		key = c.typedKey(q.op)
	} else {
		key = cl.pins[name]
	}
	raw := q.raw
	if q.op.n(3) == 11 && len(raw) > 0 {
		raw = append(append([]byte{}, raw...), bytes.Repeat([]byte(" "), int(q.op.n(4))*3)...)
	}
	if len(raw) > 8192 {
		raw = raw[:8192]
		q.honest = false
	}
	if len(raw) == 0 {
		if positive {
			r.Fail("C26", "untrue", "the client prints %q on %q although it got no answer", msg, line)
		}
		r.w.Probe("no-answer")
		return
	}
	// what the answer proves, from each root the client may hold
	var ok []*verdict
	var okCur []*rSTR
	allOK, strOK := true, false
	var last *verdict
	for _, s := range c.curs {
		m := *cl
		m.cur = s
		v := b.judgeAnswer(&m, typ, raw, name, key)
		last = v
		if len(v.reasons) == 0 {
			ok = append(ok, v)
			okCur = append(okCur, v.resp.Proof.STR[0])
		} else {
			allOK = false
		}
		if v.parse == nil && v.shape == nil && v.strErr == nil {
			strOK = true
		}
	}
	want := ""
	if len(ok) > 0 {
		v := ok[0]
		switch {
		case typ == 0 && v.resp.Error == codeOK:
			want = "Succesfully registered name: " + name
		case typ == 0:
			want = "Name is already registered."
		case v.resp.Error == codeNotFound:
			want = "Name isn't registered."
		default:
			want = "Found! Key bound to name is: [" + string(v.bound) + "]"
		}
	}
	if positive && msg != want {
		why := "proves: " + want
		if want == "" {
			why = strings.Join(last.reasons, "; ")
		}
		r.Fail("C26", "untrue", "the client prints %q on %q, but the answer (%s): %s", msg, line, trunc(string(q.raw)), why)
		return
	}
	if !positive && allOK && q.honest && q.undamaged() {
		r.Fail("C26", "truth-withheld", "the client prints %q on %q, but the honest answer proves: %s", msg, line, want)
		return
	}
	if !positive && strings.Contains(msg, "\n") && !strings.HasPrefix(msg, "Oops") {
		r.Fail("C26", "twice", "more than one reply to %q: %q", line, msg)
		return
	}
	if strings.HasPrefix(msg, "Oops! The server snuck in some other key. [") && !(len(last.reasons) > 0 && last.differs || strOK) {
		r.Fail("C26", "untrue", "the client prints %q on %q, but the answer (%s): %s", msg, line, trunc(string(q.raw)), strings.Join(last.reasons, "; "))
	}
	if positive {
		r.w.Probe("cli-positive")
		v := ok[0]
		c.curs = []*rSTR{copySTR(okCur[0])}
		if v.resp.Error != codeNotFound {
			cl.pins[name] = v.bound
			if v.resp.Proof.TB != nil {
				cl.tbs[name] = heldTB{v.bound, okCur[0].Epoch}
			} else {
				delete(cl.tbs, name)
			}
		}
		return
	}
	r.w.Probe("cli-error")
	if strOK {
		c.curs = append(c.curs, copySTR(last0(raw)))
		seen := map[string]bool{}
		var cs []*rSTR
		for _, s := range c.curs {
			if x := canonSTR(s); !seen[x] {
				seen[x] = true
				cs = append(cs, s)
			}
		}
		c.curs = cs
	}
}

func last0(raw []byte) *rSTR {
	p, _ := parseAnswer(raw)
	return p.Proof.STR[0]
}

// leave ends the client.
func (c *cliEnv) leave(how string) {
	if how == "eof" {
		c.node.In.Close()
	} else {
		c.node.In.Type(how + "\r")
	}
	n := c.node
	simrt.BlockUntil("client exit", c.r.w.NowNs()+60*sec, func() bool { return n.Dead || n.Alive() == 0 })
	if n.Panic != "" || !n.Dead && n.Alive() > 0 {
		c.r.Fail("C26", "no-exit", "the client does not end on %s: %s", how, firstLines(n.Panic+"\n"+n.Stack, 8))
	}
	c.ended = true
}

func init() {
	register(&Scenario{Name: "cli", Gen: genCLI, Exec: execCLI, Hang: "C26",
		Lim: simrt.Limits{MaxYields: 60_000_000, MaxSwitch: 3_000_000, MaxSimTime: 400_000 * sec}},
		"C26")
}
