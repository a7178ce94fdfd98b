package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"

	botzz "github.com/coniks-sys/coniks-go/cli/coniksbot/zzcmd"
	"verif.sim/simrt"
)

// Scenario "bot": the real bot command with the real Twitter library against
// a model of the Twitter interface (HTTP round trips and the user stream) and
// a key server: a model that answers, fails or stalls as told, or the real
// one. Accounts send direct messages of all kinds while everything fails.

const (
	botMark   = "?CONIKS?"
	botHandle = "KeyBot"
)

type botDM struct {
	id      int64
	sender  string
	text    string
	at      int64 // delivered: read by the bot off the stream
	inst    *botInst
	marked  bool
	self    bool
	valid   bool   // a request that may go to the key server
	either  bool   // whether it may is a matter of taste
	msg     string // text without the marker
	conn    *botConn
	ansAt   int64 // answered (0: not yet)
	ansText string
	ansID   int64 // direct message the bot was told it made
	delReq  int64 // first deletion attempt
	delAns  int64
	fromOld bool
}

type botConn struct {
	id       int
	mode     int64
	arg      int64
	got      []byte
	eof      bool
	ans      []byte
	wrote    bool // whole answer written, no fault of ours
	t0, t1   int64
	inst     *botInst
	hand     []*botDM // unanswered when the connection was opened
	assigned bool
}

type botInst struct {
	n         int
	node      *simrt.Node
	task      *simrt.Task
	t0        int64
	streaming int64 // time of the first stream request
	stopAt    int64
	done      bool
	trouble   bool // a Twitter call failed while starting
	old       map[int64]bool
	streams   int
}

type twFault struct {
	ep   string
	mode int64
}

type botStream struct {
	inst   *botInst
	buf    []byte
	off    int
	marks  []botMarkAt
	closed bool
	end    error
}
type botMarkAt struct {
	off int
	dm  *botDM
}

type botEnv struct {
	r       *Run
	e       *srvEnv
	ks      *keyset
	fs      *simrt.FS
	relay   *simrt.Node
	lis     io.Closer
	absent  []span // the key server could not be reached
	trouble []span // a request was damaged on its way
	modes   [][2]int64
	dms     []*botDM
	mailbox map[int64]*botDM
	poison  map[int64]bool
	nextID  int64
	faults  []twFault
	smodes  []int64
	insts   []*botInst
	cur     *botInst
	stream  *botStream
	judged  int
	settled bool
	conns   []*botConn
}

func genBot(g *Gen) {
	P := g.P
	P["seed"] = g.Int63()
	P["cwd"] = int64(g.Intn(4))
	P["ks"] = int64(g.Intn(6))
	P["real"] = int64(g.Intn(4) / 3)
	P["dl"] = []int64{5, 60}[g.Intn(2)]
	P["hist"] = 100
	P["netdelay"] = []int64{ms, 50 * ms}[g.Intn(2)]
	srv := []float64{0, 0.2, 0.5}[g.Intn(3)]
	tw := []float64{0, 0.1, 0.3}[g.Intn(3)]
	n := 6 + g.Intn(22)
	if g.Tier == "thorough" {
		n += g.Intn(30)
	}
	names := []string{"alice", "Bob_99", "CAROL", "k8sfan"}
	if g.chance(0.3) {
		names = names[:1+g.Intn(3)]
	}
	g.add(Op{K: "names", S: names})
	if g.chance(0.3) {
		g.add(Op{K: "old", N: []int64{int64(1 + g.Intn(5)), int64(g.Intn(3))}})
	}
	if g.chance(0.1) {
		g.add(Op{K: "tw", S: []string{g.pick("verify", "get", "destroy", "destroy")}, N: []int64{int64(g.Intn(9)), int64(1 + g.Intn(3))}})
	}
	if g.chance(0.04) { // more than one call returns, some of it undeletable
		g.add(Op{K: "old", N: []int64{int64(1 + g.Intn(220)), 0}})
		if g.chance(0.7) {
			g.add(Op{K: "poison"})
		}
		g.add(Op{K: "old", N: []int64{int64(1 + g.Intn(290)), 0}})
	}
	g.add(Op{K: "start"})
	dm := func() {
		kind := g.pick("good", "good", "good", "good", "other", "other", "type", "mixed", "trunc", "bytes", "json", "nomark", "self", "junk", "huge", "again")
		gap := int64(g.Intn(20)) * sec
		if g.chance(0.4) {
			gap = 0
		}
		g.add(Op{K: "dm", S: []string{names[g.Intn(len(names))], kind}, N: []int64{g.Int63(), gap}})
	}
	for i := 0; i < n; i++ {
		if g.chance(srv) {
			k := int64(1)
			if g.chance(0.2) {
				k = 3
			}
			g.add(Op{K: "srv", N: []int64{int64(1 + g.Intn(12)), int64(g.Intn(4000)), k}})
		}
		if g.chance(tw) {
			g.add(Op{K: "tw", S: []string{g.pick("new", "new", "destroy", "destroy", "get", "verify")}, N: []int64{int64(g.Intn(9)), int64(1 + g.Intn(2))}})
		}
		switch k := g.Intn(30); {
		case k < 20:
			dm()
		case k < 22:
			g.add(Op{K: "event", S: []string{g.pick("alive", "tweet", "garbage", "friends", "null", "notobject", "emptydm", "warning", "array")}})
		case k == 22:
			g.add(Op{K: "stream", S: []string{g.pick("eof", "reset", "midline")}, N: []int64{int64(g.Intn(6))}})
		case k == 23:
			g.add(Op{K: "gone", N: []int64{int64(g.Intn(2))}})
		case k == 24:
			g.add(Op{K: "back"})
		case k == 25 && g.chance(0.5):
			g.add(Op{K: g.pick("stop", "kill"), N: []int64{int64(g.Intn(3))}})
			if g.chance(0.4) {
				g.add(Op{K: "old", N: []int64{int64(1 + g.Intn(4)), int64(g.Intn(3))}})
			}
			g.add(Op{K: "start"})
		case k == 26:
			g.add(Op{K: "poison"})
		case k == 27:
			g.add(Op{K: "sleep", N: []int64{int64(g.Intn(700)) * sec}})
		case k == 28 && g.chance(0.5):
			g.add(Op{K: "bounce"})
		default:
			dm()
		}
	}
	if g.chance(0.3) {
		g.add(Op{K: "stop", N: []int64{int64(g.Intn(3))}})
	}
}

// ---- the model of Twitter ----

type botTransport struct{}

// botCur is the environment of the current execution.
var botCur *botEnv

func init() { http.DefaultTransport = botTransport{} }

func (botTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	if botCur == nil {
		return nil, errors.New("no network")
	}
	return botCur.roundTrip(req)
}

type simBody struct {
	*bytes.Reader
	err error
}

func (b *simBody) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	return n, err
}
func (b *simBody) Close() error { return nil }

func httpResp(req *http.Request, code int, body string, rerr error) *http.Response {
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: &simBody{bytes.NewReader([]byte(body)), rerr},
		ContentLength: int64(len(body)), Request: req}
}

const twErr = `{"errors":[{"message":"Internal error","code":131}]}`

func (b *botEnv) roundTrip(req *http.Request) (*http.Response, error) {
	w := b.r.w
	inst := b.instOf(simrt.CurNode())
	var form url.Values
	if req.Body != nil {
		raw, _ := io.ReadAll(req.Body)
		req.Body.Close()
		form, _ = url.ParseQuery(string(raw))
	}
	sleepNs(int64(20+w.Choose("twitter-latency", 200)) * ms)
	path := req.URL.Host + req.URL.Path
	ep := ""
	switch {
	case strings.HasSuffix(path, "/user.json"):
		return b.userStream(inst, req)
	case strings.HasSuffix(path, "/verify_credentials.json"):
		ep = "verify"
	case strings.HasSuffix(path, "/direct_messages.json"):
		ep = "get"
	case strings.HasSuffix(path, "/direct_messages/new.json"):
		ep = "new"
	case strings.HasSuffix(path, "/direct_messages/destroy.json"):
		ep = "destroy"
	default:
		w.Probe("odd-endpoint")
		return httpResp(req, 404, twErr, nil), nil
	}
	if (ep == "new" || ep == "destroy") != (req.Method == "POST") {
		return httpResp(req, 405, twErr, nil), nil
	}
	mode := int64(-1)
	for i, f := range b.faults {
		if f.ep == ep {
			mode = f.mode
			b.faults = append(b.faults[:i:i], b.faults[i+1:]...)
			w.Fault("twitter-" + ep)
			break
		}
	}
	if mode >= 0 && inst.streaming == 0 {
		inst.trouble = true
	}
	did := mode < 0 || mode == 5 || mode == 6 || mode == 4
	code, body := 200, "{}"
	switch ep {
	case "verify":
		body = fmt.Sprintf(`{"id":1,"screen_name":%q}`, botHandle)
	case "get":
		var ids []int64
		for id := range b.mailbox {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] > ids[j] })
		if k, _ := strconv.Atoi(req.URL.Query().Get("count")); k <= 0 {
			ids = ids[:min(len(ids), 20)]
		} else {
			ids = ids[:min(len(ids), min(k, 200))]
		}
		var l []string
		for _, id := range ids {
			l = append(l, b.dmJSON(b.mailbox[id]))
		}
		body = "[" + strings.Join(l, ",") + "]"
	case "destroy":
		id, _ := strconv.ParseInt(form.Get("id"), 10, 64)
		b.onDestroy(inst, id)
		if d := b.mailbox[id]; did && d != nil && !b.poison[id] {
			delete(b.mailbox, id)
			body = b.dmJSON(d)
		} else if did && b.isAnswer(id) {
			body = fmt.Sprintf(`{"id":%d}`, id)
		} else {
			code, body = 404, `{"errors":[{"message":"Sorry, that page does not exist","code":34}]}`
		}
	case "new":
		b.nextID++
		id := b.nextID
		d := b.onNew(inst, form.Get("screen_name"), form.Get("text"))
		body = fmt.Sprintf(`{"id":%d,"id_str":"%d","text":%s,"sender_screen_name":%q,"recipient_screen_name":%s}`, id, id, jstr(form.Get("text")), botHandle, jstr(form.Get("screen_name")))
		if d != nil && (mode < 0 || mode == 5) {
			d.ansID = id
		}
		if did { // the sender sees its own message on its stream too
			b.push(&botDM{id: id, sender: botHandle, text: form.Get("text"), self: true}, nil)
		}
	}
	switch mode {
	case 0:
		return nil, errors.New("dial tcp: connection refused")
	case 1:
		return httpResp(req, 500, twErr, nil), nil
	case 2:
		return httpResp(req, 429, `{"errors":[{"message":"Rate limit exceeded %d %s","code":88}]}`, nil), nil
	case 3:
		return httpResp(req, 403, twErr, nil), nil
	case 4:
		return httpResp(req, 200, "<html>over capacity</html>", nil), nil
	case 5:
		sleepNs(30 * sec)
	case 6:
		return nil, errors.New("read: connection reset by peer")
	case 7:
		return httpResp(req, 500, "", nil), nil
	case 8:
		return httpResp(req, 200, body[:len(body)/2], io.ErrUnexpectedEOF), nil
	}
	return httpResp(req, code, body, nil), nil
}

func jstr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (b *botEnv) dmJSON(d *botDM) string {
	return fmt.Sprintf(`{"id":%d,"id_str":"%d","text":%s,"sender":{"screen_name":%s},"sender_screen_name":%s,"recipient_screen_name":%q}`,
		d.id, d.id, jstr(d.text), jstr(d.sender), jstr(d.sender), botHandle)
}

func (b *botEnv) isAnswer(id int64) bool {
	for _, d := range b.dms {
		if d.ansID == id {
			return true
		}
	}
	return false
}

func (b *botEnv) instOf(n *simrt.Node) *botInst {
	for _, i := range b.insts {
		if i.node == n {
			return i
		}
	}
	return b.cur
}

func (b *botEnv) userStream(inst *botInst, req *http.Request) (*http.Response, error) {
	if inst.streaming == 0 {
		inst.streaming = b.r.w.NowNs()
		b.startDone(inst)
	}
	inst.streams++
	mode := int64(0)
	if len(b.smodes) > 0 && !b.settled {
		mode, b.smodes = b.smodes[0], b.smodes[1:]
	}
	switch mode {
	case 1:
		b.r.w.Fault("stream-503")
		return httpResp(req, 503, "", nil), nil
	case 2:
		b.r.w.Fault("stream-429")
		return httpResp(req, 429, "", nil), nil
	case 3:
		b.r.w.Fault("stream-slow")
		sleepNs(40 * sec)
	}
	s := &botStream{inst: inst}
	b.stream = s
	r := httpResp(req, 200, "", nil)
	r.Body = s
	r.ContentLength = -1
	return r, nil
}

func (s *botStream) Read(p []byte) (int, error) {
	simrt.Block("user stream", func() bool { return len(s.buf) > s.off || s.closed || s.end != nil })
	if s.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if s.off == len(s.buf) {
		return 0, s.end
	}
	k := len(s.buf) - s.off
	if k > len(p) {
		k = len(p)
	}
	if k > 1 && simrt.W.Chance("short-read", 20) {
		k = 1 + simrt.W.Choose("short-read", k-1)
	}
	copy(p, s.buf[s.off:s.off+k])
	s.off += k
	for len(s.marks) > 0 && s.marks[0].off <= s.off {
		d := s.marks[0].dm
		s.marks = s.marks[1:]
		d.at = simrt.W.NowNs()
		d.inst = s.inst
	}
	return k, nil
}
func (s *botStream) Close() error { s.closed = true; return nil }

// push sends a message down the open stream.
func (b *botEnv) push(d *botDM, raw []byte) {
	s := b.stream
	if s == nil || s.closed || s.end != nil || s.inst.node.Dead {
		return
	}
	if raw == nil {
		raw = []byte(`{"direct_message":` + b.dmJSON(d) + "}\r\n")
	}
	s.buf = append(s.buf, raw...)
	if d != nil {
		s.marks = append(s.marks, botMarkAt{len(s.buf), d})
	}
}

// ---- the key server ----

func (b *botEnv) serverUp() {
	if b.lis != nil {
		return
	}
	b.fs.Delete("/tmp/relay.sock")
	up := false
	simrt.GoNode(b.relay, "relay", func() {
		l, err := simrt.Listen("unix", "/tmp/relay.sock")
		if err != nil {
			panic(err)
		}
		b.lis = l
		up = true
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			q := b.connFor(simrt.DialID(conn))
			simrt.GoNode(b.relay, "relay-conn", func() { b.serve(conn.(io.ReadWriteCloser), q) })
		}
	})
	simrt.BlockUntil("relay", -1, func() bool { return up })
	if n := len(b.absent); n > 0 && b.absent[n-1].b == 0 {
		b.absent[n-1].b = b.r.w.NowNs()
	}
}

func (b *botEnv) serverDown(stale bool) {
	if b.lis == nil {
		return
	}
	b.r.w.Fault("server-down")
	if u, ok := b.lis.(interface{ SetUnlinkOnClose(bool) }); ok && stale {
		u.SetUnlinkOnClose(false)
	}
	b.absent = append(b.absent, span{b.r.w.NowNs(), 0})
	b.lis.Close()
	b.lis = nil
}

func (b *botEnv) connFor(id int) *botConn {
	for _, q := range b.conns {
		if q.id == id {
			return q
		}
	}
	panic("connection without a dial")
}

// planConn is called for each connection the bot makes.
func (b *botEnv) planConn(id int) *simrt.ConnPlan {
	now := b.r.w.NowNs()
	q := &botConn{id: id, t0: now}
	if b.cur != nil {
		q.inst, q.hand = b.cur, b.outstanding(b.cur)
	}
	b.conns = append(b.conns, q)
	if len(b.modes) > 0 {
		q.mode, q.arg = b.modes[0][0], b.modes[0][1]
		b.modes = b.modes[1:]
	}
	if b.lis == nil {
		q.mode = 0
		return nil
	}
	switch q.mode {
	case 9:
		b.trouble = append(b.trouble, span{now, now + 60*sec})
		return &simrt.ConnPlan{DialErr: []string{"refused", "reset", "timeout"}[q.arg%3]}
	case 10:
		b.trouble = append(b.trouble, span{now, now + 60*sec})
		return &simrt.ConnPlan{CutAt: [2]int{int(1 + q.arg%150), 0}}
	case 4:
		return &simrt.ConnPlan{CutAt: [2]int{0, int(1 + q.arg%2000)}}
	case 11:
		return &simrt.ConnPlan{Trickle: true}
	}
	return nil
}

func (b *botEnv) serve(conn io.ReadWriteCloser, q *botConn) {
	w := b.r.w
	defer func() {
		conn.Close()
		q.t1 = w.NowNs()
	}()
	if q.mode == 1 {
		w.Fault("server-close")
		b.trouble = append(b.trouble, span{q.t0, w.NowNs() + 60*sec})
		return
	}
	buf := make([]byte, 1000)
	for {
		n, err := conn.Read(buf)
		q.got = append(q.got, buf[:n]...)
		if err == io.EOF {
			q.eof = true
			break
		}
		if err != nil {
			break
		}
	}
	b.onConn(q)
	if !q.eof {
		return
	}
	switch q.mode {
	case 2:
		w.Fault("server-silent")
		return
	case 5:
		w.Fault("server-stall")
		n := b.relay
		lim := w.NowNs() + 3*3600*sec
		simrt.BlockUntil("stalled server", lim, func() bool { return n.Dead })
		return
	case 6:
		w.Fault("server-slow")
		sleepNs(q.arg * 2 * ms)
	case 12:
		w.Fault("server-slow")
		sleepNs(20*sec + q.arg*25*ms)
	}
	switch {
	case q.mode == 8:
		q.ans = []byte(fmt.Sprintf("<<%d %%s \"garbage\n", q.arg))
	case b.e != nil:
		ans, _, _, err := b.e.send(60, b.e.addrs[0].url, q.got, xopt{})
		if err != nil || len(ans) == 0 {
			w.Probe("server-silent")
			return
		}
		q.ans = ans
	default:
		q.ans = []byte(fmt.Sprintf(`{"Error":%d,"DirectoryResponse":{"AP":null,"STR":[{"Epoch":%d}],"TB":null},"x":"%s"}`, codeOK, q.arg, strings.Repeat("y", int(q.arg%3000))))
	}
	out := q.ans
	switch q.mode {
	case 3:
		w.Fault("server-partial")
		out = out[:int(q.arg)%len(out)]
	case 7:
		w.Fault("server-oversize")
		q.ans = append(append([]byte{}, q.ans...), bytes.Repeat([]byte("z"), 8192)...)
		out = q.ans
	}
	n := 0
	if len(out) > 0 {
		n, _ = conn.Write(out)
	}
	q.ans = q.ans[:len(q.ans):len(q.ans)]
	q.wrote = n == len(q.ans)
}

// ---- oracle ----

// ownName decides whether a request is a registration for the sender.
func classify(sender, msg string) (valid, either bool) {
	var m struct {
		Type    int
		Request json.RawMessage
	}
	if json.Unmarshal([]byte(msg), &m) != nil || m.Type != 0 || len(m.Request) == 0 {
		return
	}
	var body regBody
	if json.Unmarshal(m.Request, &body) != nil {
		return
	}
	want := strings.ToLower(sender) + "@twitter"
	if body.Username == want {
		return true, false
	}
	if strings.EqualFold(body.Username, want) {
		return false, true
	}
	return
}

func isCode(text string, code int) bool {
	var m map[string]json.RawMessage
	return json.Unmarshal([]byte(text), &m) == nil && len(m) == 1 && string(m["Error"]) == strconv.Itoa(code)
}

func (b *botEnv) outstanding(inst *botInst) []*botDM {
	var l []*botDM
	for _, d := range b.dms {
		if d.inst == inst && d.marked && !d.self && d.at > 0 && d.ansAt == 0 {
			l = append(l, d)
		}
	}
	return l
}

// onConn judges what reached the key server.
func (b *botEnv) onConn(q *botConn) {
	if q.inst == nil || q.inst != b.cur || q.assigned {
		return
	}
	whole := q.eof && q.mode != 10
	b.judged++
	// the messages the bot may be forwarding: those it had when it opened the
	// connection (it may have given up by the time the bytes are read)
	hand := b.outstanding(b.cur)
	for _, d := range q.hand {
		if d.ansAt != 0 && d.inst == b.cur {
			hand = append(hand, d)
		}
	}
	for _, d := range hand {
		if d.conn == nil && (d.valid || d.either) && string(q.got) == d.msg {
			d.conn, q.assigned = q, true
			return
		}
	}
	if !whole { // the connection broke: part of a request
		for _, d := range hand {
			if (d.valid || d.either) && strings.HasPrefix(d.msg, string(q.got)) {
				return
			}
		}
		if b.cur.node.Dead {
			return
		}
	}
	if b.cur.node.Dead { // died while sending
		for _, d := range b.dms {
			if (d.valid || d.either) && strings.HasPrefix(d.msg, string(q.got)) {
				return
			}
		}
	}
	var l []string
	for _, d := range hand {
		l = append(l, fmt.Sprintf("@%s: %s", d.sender, trunc(d.text)))
	}
	b.r.Fail("C17", "forwarded", "the key server receives %q; messages in the bot's hands: %s", trunc(string(q.got)), strings.Join(l, " | "))
}

// troubled reports whether the key server was out of reach or a request was
// damaged at some time between a and now.
func (b *botEnv) troubled(a int64) bool {
	for _, s := range append(append([]span{}, b.absent...), b.trouble...) {
		if s.b == 0 || s.b >= a {
			return true
		}
	}
	return false
}

// expected reports whether text answers d.
func (b *botEnv) expected(d *botDM, text string) (ok bool, why string) {
	if !strings.HasPrefix(text, botMark) {
		return false, "the answer lacks the marker"
	}
	res := text[len(botMark):]
	dir := isCode(res, codeErrDir)
	if !d.valid && !d.either || d.either && d.conn == nil && isCode(res, codeMalformed) {
		return isCode(res, codeMalformed), "a malformed-message error"
	}
	q := d.conn
	if q == nil {
		if b.troubled(d.at) {
			return dir, "a directory error"
		}
		return false, "the key server's answer (it is up, and never saw the request)"
	}
	is := func(a []byte) bool {
		if len(a) > 8192 && res == strings.ToValidUTF8(string(a[:8192]), "\uFFFD") { // a message has at most 8192 bytes
			return true
		}
		if res == string(a) {
			return true
		}
		// what the interface makes of other bytes
		return res == strings.ToValidUTF8(string(a), "\uFFFD")
	}
	switch q.mode {
	case 0, 6, 8, 11:
		if !q.wrote && b.e != nil {
			return dir, "a directory error"
		}
		return q.wrote && is(q.ans), fmt.Sprintf("%q", trunc(string(q.ans)))
	case 12, 10:
		return dir || q.wrote && is(q.ans), fmt.Sprintf("%q or a directory error", trunc(string(q.ans)))
	case 3:
		n := 0
		if len(q.ans) > 0 {
			n = int(q.arg) % len(q.ans)
		}
		return dir || n > 0 && is(q.ans[:n]), "the part of the answer, or a directory error"
	case 4:
		n := int(1 + q.arg%2000)
		return dir || n >= len(q.ans) && len(q.ans) > 0 && is(q.ans), "a directory error"
	case 7:
		return dir || is(q.ans), "the first 8192 bytes"
	}
	return dir, "a directory error"
}

// onNew judges a direct message the bot sends.
func (b *botEnv) onNew(inst *botInst, to, text string) *botDM {
	r := b.r
	b.judged++
	r.w.Event("bot%d -> @%s: %s", inst.n, to, trunc(text))
	why := ""
	for _, d := range b.outstanding(inst) {
		if !strings.EqualFold(d.sender, to) {
			continue
		}
		ok, w := b.expected(d, text)
		if !ok { // the same request sent twice: which connection was whose?
			for _, x := range b.dms {
				if x != d && x.inst == inst && x.conn != nil && x.sender == d.sender && x.msg == d.msg && !ok {
					d.conn, x.conn = x.conn, d.conn
					if ok, _ = b.expected(d, text); !ok {
						d.conn, x.conn = x.conn, d.conn
					}
				}
			}
		}
		if !ok { // an answer that fits two requests may have been counted for the wrong one
			for _, x := range b.dms {
				if x.inst != inst || x.ansAt == 0 || !strings.EqualFold(x.sender, to) || x == d {
					continue
				}
				if ok1, _ := b.expected(x, text); ok1 {
					if ok2, _ := b.expected(d, x.ansText); ok2 {
						d.ansAt, d.ansID, d.delAns, d.ansText = x.ansAt, x.ansID, x.delAns, x.ansText
						x.ansAt, x.ansID, x.delAns, x.ansText = r.w.NowNs(), 0, 0, text
						return x
					}
				}
			}
		}
		if ok {
			d.ansAt, d.ansText = r.w.NowNs(), text
			if d.valid && d.conn != nil && d.conn.wrote {
				r.w.Probe("bot-registered")
			} else if d.valid {
				r.w.Probe("bot-direrror")
			} else {
				r.w.Probe("bot-refused")
			}
			return d
		}
		why += fmt.Sprintf(" | %s needs %s", trunc(d.text), w)
	}
	if why == "" {
		r.Fail("C18", "unasked", "the bot sends @%s %q although that account has no unanswered message", to, trunc(text))
		return nil
	}
	cl := "C17,C18"
	if isCode(strings.TrimPrefix(text, botMark), codeErrDir) {
		cl = "C17"
	}
	r.Fail(cl, "wrong-answer", "the bot sends @%s %q; unanswered:%s", to, trunc(text), why)
	return nil
}

const botRetention = 295 * sec // five minutes, less slack

func (b *botEnv) onDestroy(inst *botInst, id int64) {
	now := b.r.w.NowNs()
	if id == 0 {
		return // no message
	}
	if inst.streaming == 0 { // cleaning up before it runs
		return
	}
	for _, d := range b.dms {
		if d.id == id {
			if d.inst != inst || d.at == 0 || d.self {
				continue
			}
			if d.delReq == 0 {
				d.delReq = now
			}
			t := d.at
			several := false // then an answer may be counted for another message
			for _, x := range b.dms {
				if x != d && x.inst == inst && x.marked && strings.EqualFold(x.sender, d.sender) {
					several = true
				}
			}
			if d.marked && d.ansAt > t && !several {
				t = d.ansAt
			}
			if d.marked && d.ansAt == 0 && !several || now-t < botRetention {
				b.r.Fail("C18", "early-delete", "the bot deletes message %d of @%s (delivered at %.1fs, answered at %.1fs) at %.1fs", id, d.sender, float64(d.at)/1e9, float64(d.ansAt)/1e9, float64(now)/1e9)
			}
			return
		}
		if d.ansID == id {
			if d.delAns == 0 {
				d.delAns = now
			}
			if now-d.ansAt < botRetention {
				b.r.Fail("C18", "early-delete", "the bot deletes its answer %d at %.1fs, made at %.1fs", id, float64(now)/1e9, float64(d.ansAt)/1e9)
			}
			return
		}
	}
	b.r.Fail("C18", "deletes-other", "the bot deletes message %d, which is no request or answer of its own", id)
}

// startDone judges the clean-up before the bot listens.
func (b *botEnv) startDone(inst *botInst) {
	if inst.trouble {
		return
	}
	for id := range inst.old {
		if b.mailbox[id] != nil && !b.poison[id] {
			b.r.Fail("C18", "left-over", "the bot starts to listen although the old message %d is still there", id)
		}
	}
}

// ---- driver ----

func execBot(r *Run) {
	b := &botEnv{r: r, mailbox: map[int64]*botDM{}, poison: map[int64]bool{}, nextID: 1000, ks: keysFor(r.p("ks") + 1)}
	botCur = b
	defer func() { botCur = nil }()
	names := []string{"alice"}
	for _, o := range r.Ops {
		if o.K == "names" && len(o.S) > 0 {
			names = o.S
		}
	}
	if r.p("real") == 1 {
		b.e = newSrvEnv(r)
		b.e.writeConfig(r.p("dl"))
		er := b.e.start()
		if !b.e.await(er, 30*sec) {
			return
		}
		b.e.checkInit(er)
		b.fs = b.e.fs
	} else {
		b.fs = r.w.NewNode("disk").FS
		r.w.Net.MaxDelay = r.p("netdelay")
	}
	b.relay = r.w.NewNode("relay")
	b.relay.FS = b.fs
	r.w.Net.Plan = func(ci simrt.ConnInfo) *simrt.ConnPlan {
		if b.e != nil {
			if p := b.e.plans[ci.From]; p != nil {
				delete(b.e.plans, ci.From)
				return p
			}
		}
		for _, i := range b.insts {
			if i.node == ci.From {
				return b.planConn(ci.ID)
			}
		}
		return nil
	}
	b.fs.MkdirAllRaw("/bot")
	b.fs.Put("/bot/botconfig.toml", []byte(fmt.Sprintf("coniks_address = \"/tmp/relay.sock\"\ntwitter_bot_handle = %q\n\n[twitter_oauth]\n  ConsumerKey = \"a\"\n  ConsumerSecret = \"b\"\n  AccessToken = \"c\"\n  AccessSecret = \"d\"\n", botHandle)))
	b.serverUp()
	for i, o := range r.Ops {
		if len(r.res.Viol) > 0 {
			break
		}
		switch o.K {
		case "start":
			b.start()
		case "dm":
			b.dm(i, o, names)
			sleepNs(o.n(1))
		case "old":
			for k := int64(0); k < o.n(0) && k < 300; k++ {
				b.nextID++
				d := &botDM{id: b.nextID, sender: names[int(k)%len(names)], text: "hello", fromOld: true}
				if o.n(1) == 1 {
					d.text = botMark + "hello"
				}
				b.mailbox[d.id] = d
			}
		case "poison":
			b.poison[b.nextID+1] = true
			var ids []int64
			for id := range b.mailbox {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			if len(ids) > 0 {
				b.poison[ids[0]] = true
			}
			r.w.Fault("poison-message")
		case "srv":
			for k := int64(0); k < 1+o.n(2)%4; k++ {
				b.modes = append(b.modes, [2]int64{1 + (o.n(0)+11)%12, o.n(1)})
			}
		case "tw":
			for k := int64(0); k < o.n(1) && k < 4; k++ {
				b.faults = append(b.faults, twFault{o.s(0), o.n(0) % 9})
			}
		case "event":
			b.event(o.s(0))
			sleepNs(ms)
		case "stream":
			if s := b.stream; s != nil && !s.closed && s.end == nil {
				if o.n(0) > 2 {
					b.smodes = append(b.smodes, o.n(0)-2)
				}
				r.w.Fault("stream-" + o.s(0))
				switch o.s(0) {
				case "eof":
					s.end = io.EOF
				case "reset":
					s.end = errors.New("read: connection reset by peer")
				default:
					s.buf = append(s.buf, []byte(`{"direct_message":{"id":5,"text":"?CONIKS?`)...)
					s.end = io.ErrUnexpectedEOF
				}
				sleepNs(ms)
			}
		case "gone":
			b.serverDown(o.n(0) == 1)
		case "back":
			b.serverUp()
		case "sleep":
			sleepNs(o.n(0))
		case "stop":
			if b.cur != nil {
				b.stop(o.n(0))
			}
		case "kill":
			if b.cur != nil {
				r.w.Fault("kill")
				r.w.KillNode(b.cur.node)
				b.cur = nil
				sleepNs(sec)
			}
		case "bounce":
			if b.e != nil {
				er := b.e.cur
				er.killed = true
				b.trouble = append(b.trouble, span{r.w.NowNs(), r.w.NowNs() + 60*sec})
				r.w.KillNode(er.node)
				b.fs.Delete("/tmp/coniks.sock")
				b.fs.Delete("/tmp/ro.sock")
				er = b.e.start()
				b.e.await(er, 30*sec)
				r.w.Fault("server-restart")
			}
		}
		b.alive()
	}
	b.settle(names)
	r.res.Nontrivial = b.judged > 0
}

func (b *botEnv) start() {
	if b.cur != nil {
		return
	}
	if b.lis == nil {
		b.serverUp()
	}
	r := b.r
	inst := &botInst{n: len(b.insts), t0: r.w.NowNs(), old: map[int64]bool{}}
	inst.node = r.w.NewNode(fmt.Sprintf("bot%d", inst.n))
	inst.node.FS = b.fs
	inst.node.Cwd = []string{"/bot", "/", "/", "/bot"}[r.p("cwd")&3]
	for id := range b.mailbox {
		inst.old[id] = true
	}
	b.insts = append(b.insts, inst)
	b.cur = inst
	n := inst.node
	inst.task = simrt.GoNode(n, "bot", func() {
		botzz.Root.SetArgs([]string{"run", "--config", []string{"/bot/botconfig.toml", "/bot/botconfig.toml", "bot/botconfig.toml", "botconfig.toml"}[r.p("cwd")&3]})
		botzz.Root.Execute()
		inst.done = true
	})
	ok := simrt.BlockUntil("bot start", r.w.NowNs()+7200*sec, func() bool { return n.Dead || n.Alive() == 0 || b.stream != nil && b.stream.inst == inst })
	if n.Dead || n.Alive() == 0 {
		if runtimePanic(n) || !inst.trouble {
			r.Fail("C18", "start-failed", "the bot does not start: %s", firstLines(n.DieFatal+n.Panic+"\n"+n.Stack, 10))
		}
		r.w.Probe("bot-refused-start")
		b.cur = nil
		return
	}
	if !ok {
		r.Fail("C18", "never-listens", "the bot does not listen for messages two hours after its start (%d old messages, %d of them undeletable)", len(inst.old), len(b.poison))
		r.w.KillNode(n)
		b.cur = nil
	}
}

func runtimePanic(n *simrt.Node) bool { return strings.Contains(n.Panic, "runtime error") }

// alive checks that the running bot has not crashed.
func (b *botEnv) alive() {
	i := b.cur
	if i == nil {
		return
	}
	if i.node.Dead || i.done {
		b.r.Fail("C18", "crash", "the bot is gone: %s", firstLines(i.node.DieFatal+i.node.Panic+"\n"+i.node.Stack, 14))
		b.cur = nil
	}
}

func (b *botEnv) stop(early int64) {
	r := b.r
	i := b.cur
	if early > 0 {
		sleepNs(int64(r.w.Choose("stop", 7000)) * ms)
	}
	b.alive()
	if b.cur == nil {
		return
	}
	i.node.Signal(os.Interrupt)
	n := i.node
	r.w.Fault("stop")
	simrt.BlockUntil("bot stop", r.w.NowNs()+600*sec, func() bool { return n.Dead || i.done })
	if n.Panic != "" || !n.Dead && !i.done {
		r.Fail("C18", "stop", "the bot does not end after the interrupt: %s", firstLines(n.Panic+"\n"+n.Stack+n.TaskNames(), 10))
	}
	if !n.Dead {
		r.w.KillNode(n)
	}
	b.cur = nil
	sleepNs(sec)
}

// dm makes an account send the bot a message.
func (b *botEnv) dm(i int, o Op, names []string) {
	rng := rand.New(rand.NewSource(o.n(0)))
	sender := o.s(0)
	own := strings.ToLower(sender) + "@twitter"
	key := []byte(fmt.Sprintf("key-%d-%d", i, rng.Intn(1e6)))
	reg := func(name string) string {
		body := regBody{Username: name, Key: key, AllowUnsignedKeychange: rng.Intn(2) == 0, AllowPublicLookup: rng.Intn(2) == 0}
		j, _ := json.Marshal(body)
		switch rng.Intn(7) {
		case 0:
			return fmt.Sprintf("{\"Request\": %s , \"Type\":0}", j)
		case 1:
			return fmt.Sprintf("{\"Request\":%s}", j)
		case 2:
			return fmt.Sprintf("{\"x\":[1],\"Type\":0,\"Request\":%s}", j)
		case 3:
			return fmt.Sprintf("{\n \"type\":0, \"request\":%s}\n", j)
		}
		return fmt.Sprintf(`{"Type":0,"Request":%s}`, j)
	}
	other := names[rng.Intn(len(names))]
	if other == sender {
		other = "mallory"
	}
	oth := strings.ToLower(other) + "@twitter"
	msg := reg(own)
	mark := botMark
	switch o.s(1) {
	case "good":
		if rng.Intn(6) == 0 {
			msg = reg([]string{sender + "@twitter", strings.ToUpper(own), sender + "@Twitter"}[rng.Intn(3)])
		}
	case "other":
		msg = reg([]string{oth, oth, "x" + own, own + "x", strings.ToLower(sender), strings.ToLower(sender) + "@facebook", "@twitter", "", own + "@twitter", oth + "@twitter", " " + own, own + " ", own + "\x00", "@" + own, strings.ToLower(sender)[1:] + "@twitter", strings.ToLower(sender) + "twitter", strings.ToLower(sender) + "@", strings.Replace(own, "@", "@x@", 1), own[:len(own)-1]}[rng.Intn(19)])
	case "type":
		t := []int{1, 2, 3, 4, 5, -1, 99, 1 << 40}[rng.Intn(8)]
		msg = strings.Replace(reg(own), `"Type":0`, fmt.Sprintf(`"Type":%d`, t), 1)
		if !strings.Contains(msg, fmt.Sprint(t)) {
			msg = string(reqJSON(t, regBody{Username: own, Key: key}))
		}
	case "mixed":
		switch rng.Intn(8) {
		case 0: // the last name wins
			msg = fmt.Sprintf(`{"Type":0,"Request":{"Username":%q,"Username":%q,"Key":"AAAA"}}`, own, oth)
		case 1:
			msg = fmt.Sprintf(`{"Type":0,"Request":{"Username":%q,"username":%q,"Key":"AAAA"}}`, own, oth)
		case 2:
			msg = fmt.Sprintf(`{"Type":0,"Request":{"Username":%q,"Key":"AAAA"},"Request":{"Username":%q,"Key":"AAAA"}}`, own, oth)
		case 3:
			msg = fmt.Sprintf(`{"Type":0,"Type":1,"Request":{"Username":%q,"Key":"AAAA"}}`, own)
		case 4:
			msg = reg(own) + reg(oth)
		case 5:
			msg = "[" + reg(own) + "]"
		case 6:
			msg = fmt.Sprintf(`{"Type":0,"Request":null,"Username":%q}`, own)
		case 7:
			msg = fmt.Sprintf(`{"Type":0,"Request":%q}`, `{"Username":"`+own+`"}`)
		}
	case "trunc":
		msg = msg[:rng.Intn(len(msg))]
	case "bytes":
		msg = strings.ToValidUTF8(string(mutateBytes([]byte(msg), rng, nil)), "?")
	case "json":
		msg = strings.ToValidUTF8(string(mutateJSON([]byte(msg), rng, nil)), "?")
	case "nomark":
		mark = []string{"", "CONIKS?", "?coniks?", " ?CONIKS?", "?CONIKS ?", "x?CONIKS?", "?CONIKS"}[rng.Intn(7)]
	case "self":
		sender = []string{botHandle, strings.ToLower(botHandle), strings.ToUpper(botHandle)}[rng.Intn(3)]
		if rng.Intn(2) == 0 {
			msg = reg(strings.ToLower(botHandle) + "@twitter")
		}
	case "junk":
		msg = []string{"", "{}", "null", "0", `"x"`, "[]", "hi", "?CONIKS?", botMark + reg(own), "{\"Type\":0}", "%s%d%n", "CONIKS?" + reg(own), reg(own) + "}", reg(own) + " null", "{" + reg(own), reg(own) + "\n" + reg(own)}[rng.Intn(16)]
	case "huge":
		key = bytes.Repeat([]byte("k"), 3000+rng.Intn(9000))
		msg = reg(own)
	case "again":
		for k := len(b.dms) - 1; k >= 0; k-- {
			if b.dms[k].sender == sender {
				msg = b.dms[k].msg
				break
			}
		}
	}
	b.send(sender, mark+msg)
}

func (b *botEnv) send(sender, text string) *botDM {
	b.nextID++
	d := &botDM{id: b.nextID, sender: sender, text: text, self: strings.EqualFold(sender, botHandle)}
	d.marked = strings.HasPrefix(text, botMark)
	if d.marked {
		d.msg = text[len(botMark):]
		if !d.self {
			d.valid, d.either = classify(sender, d.msg)
		}
	}
	b.dms = append(b.dms, d)
	b.mailbox[d.id] = d
	b.r.w.Event("@%s -> bot: %s", sender, trunc(text))
	b.push(d, nil)
	return d
}

func (b *botEnv) event(kind string) {
	var raw string
	switch kind {
	case "alive":
		raw = ""
	case "tweet":
		raw = `{"retweet_count":1,"text":"?CONIKS?{}","id":7}`
	case "garbage":
		raw = `{"direct_mess`
	case "friends":
		raw = `{"friends":[1,2,3]}`
	case "null":
		raw = `{"direct_message":null}`
	case "notobject":
		raw = `{"direct_message":"hello"}`
	case "emptydm":
		raw = `{"direct_message":{}}`
	case "warning":
		raw = `{"warning":{"code":"FALLING_BEHIND","percent_full":60}}`
	default:
		raw = `[1,2]`
	}
	b.push(nil, []byte(raw+"\r\n"))
}

// settle lets everything recover and judges what must have happened by then.
func (b *botEnv) settle(names []string) {
	r := b.r
	if len(r.res.Viol) > 0 || b.cur == nil {
		return
	}
	b.modes, b.faults, b.smodes = nil, nil, nil
	b.settled = true
	b.serverUp()
	i := b.cur
	// a stream that broke is set up again, after Twitter's longest pause
	simrt.BlockUntil("stream", r.w.NowNs()+3600*sec, func() bool {
		return i.node.Dead || b.stream != nil && !b.stream.closed && b.stream.end == nil
	})
	b.alive()
	if b.cur == nil {
		return
	}
	if b.stream == nil || b.stream.closed || b.stream.end != nil {
		r.w.Probe("bot-deaf")
		return
	}
	fin := b.send(names[0], botMark+`{"Type":0,"Request":{"Username":"`+strings.ToLower(names[0])+`@twitter","Key":"ZmluYWw="}}`)
	lim := r.w.NowNs() + int64(len(b.dms)+1)*200*sec
	simrt.BlockUntil("answers", lim, func() bool {
		return i.node.Dead || len(r.res.Viol) > 0 || fin.ansAt > 0 && len(b.outstanding(i)) == 0
	})
	b.alive()
	if b.cur == nil || len(r.res.Viol) > 0 {
		return
	}
	for _, d := range append([]*botDM{fin}, b.outstanding(i)...) {
		if d.ansAt == 0 {
			r.Fail("C18", "unanswered", "the message @%s %q delivered at %.1fs is not answered at %.1fs: %s", d.sender, trunc(d.text), float64(d.at)/1e9, float64(r.w.NowNs())/1e9, i.node.TaskNames())
			return
		}
	}
	sleepNs(480 * sec)
	b.alive()
	if b.cur == nil || len(r.res.Viol) > 0 {
		return
	}
	for _, d := range b.dms {
		if d.inst != i || !d.marked || d.self || d.ansAt == 0 {
			continue
		}
		if d.delReq == 0 {
			r.Fail("C18", "not-deleted", "the request %d of @%s, answered at %.1fs, is not deleted at %.1fs", d.id, d.sender, float64(d.ansAt)/1e9, float64(r.w.NowNs())/1e9)
		}
		if d.ansID != 0 && d.delAns == 0 {
			r.Fail("C18", "not-deleted", "the answer %d to @%s, sent at %.1fs, is not deleted at %.1fs", d.ansID, d.sender, float64(d.ansAt)/1e9, float64(r.w.NowNs())/1e9)
		}
		if len(r.res.Viol) > 0 {
			return
		}
	}
	b.judged++
	r.w.Probe("bot-settled")
}

func init() {
	register(&Scenario{Name: "bot", Gen: genBot, Exec: execBot, Hang: "C18",
		Lim: simrt.Limits{MaxYields: 60_000_000, MaxSwitch: 3_000_000, MaxSimTime: 400_000 * sec}},
		"C17", "C18")
}
