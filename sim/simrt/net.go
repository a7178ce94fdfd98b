package simrt

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ConnInfo identifies a connection to the fault planner.
type ConnInfo struct {
	ID    int
	Proto string // "tcp" or "unix"
	From  *Node
	Addr  string
}

// ConnPlan lists the faults of one connection. Zero values mean none; byte
// counts are 1-based ("after N bytes"), direction 0 is client to server.
type ConnPlan struct {
	DialErr   string   `json:"dial_err,omitempty"`   // "refused", "timeout", "reset"
	CutAt     [2]int   `json:"cut,omitempty"`        // reset once N bytes of a direction were delivered
	StallAt   [2]int   `json:"stall,omitempty"`      // after N bytes deliver nothing until the connection times out
	ExtraNs   [2]int64 `json:"extra_ns,omitempty"`   // additional delay per segment
	CorruptAt [2]int   `json:"corrupt,omitempty"`    // flip a bit of byte N
	Trickle   bool     `json:"trickle,omitempty"`    // deliver single bytes
	CloseAt   [2]int   `json:"close_at,omitempty"`   // FIN after N bytes (truncation)
	AcceptErr bool     `json:"accept_err,omitempty"` // accept reports EMFILE once
	Buf       int      `json:"buf,omitempty"`        // socket buffer per direction (default 65536)
	dial      int      // ConnInfo.ID
}

// Network is the simulated network (TCP between hosts, Unix sockets per file
// system).
type Network struct {
	w        *World
	lis      []*listener
	conns    []*connEnd
	nconn    int
	Plan     func(ConnInfo) *ConnPlan
	MaxDelay int64 // upper bound of the random segment delay, ns
	Down     func(from, to *Node) bool
	eph      int
}

func newNetwork(w *World) *Network {
	return &Network{w: w, MaxDelay: 2_000_000, eph: 40000}
}

func (c *connEnd) sockBuf() int {
	if c.plan != nil && c.plan.Buf > 0 {
		return c.plan.Buf
	}
	return 65536
}

type half struct {
	buf      []byte
	pending  int // bytes in flight
	last     int64
	fin      bool // delivered
	rst      bool // delivered
	finSent  bool
	rstSent  bool
	noReader bool // receiver closed its end
	accepted int  // bytes ever accepted from the writer
	stalled  bool
	cut      bool
	to       *connEnd
	finSeq   int64 // when the FIN was delivered
}

type connEnd struct {
	net      *Network
	node     *Node
	id       int
	proto    string
	dir      int // 0 = client end, 1 = server end
	in, out  *half
	rdl, wdl int64 // absolute deadlines, -1 none
	closed   bool
	la, ra   net.Addr
	plan     *ConnPlan
	peer     *Node
	accSeq   int64 // when the application accepted it
}

type listener struct {
	net    *Network
	node   *Node
	proto  string
	key    string
	fs     *FS
	queue  []*connEnd
	closed bool
	dl     int64
	addr   net.Addr
	unlink bool
}

func opErr(op, proto string, addr net.Addr, err error) error {
	return &net.OpError{Op: op, Net: proto, Addr: addr, Err: err}
}
func sysErr(call string, e syscall.Errno) error { return os.NewSyscallError(call, e) }

func (n *Network) delay(p *ConnPlan, dir int) int64 {
	d := n.MaxDelay / 20
	if c := n.w.Choose("net", 8); c > 0 {
		d += n.MaxDelay * int64(c) / 8
	}
	if p != nil {
		d += p.ExtraNs[dir]
	}
	return d
}

// deliver schedules a segment (or FIN/RST) in order.
func (h *half) deliver(n *Network, d int64, f func()) {
	at := n.w.now + d
	if at < h.last {
		at = h.last
	}
	h.last = at
	n.w.addTimer(at, f)
}

func (n *Network) reset(c *connEnd) {
	for _, h := range []*half{c.in, c.out} {
		h.rst = true
		h.pending = 0
	}
}

// ---- connection ----

func (c *connEnd) Read(b []byte) (int, error) {
	if !inSim() || dead() {
		return 0, net.ErrClosed
	}
	h := c.in
	ready := func() bool {
		return c.closed || len(h.buf) > 0 || h.fin || h.rst || (c.rdl >= 0 && W.now >= c.rdl)
	}
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, opErr("read", c.proto, c.ra, net.ErrClosed)
		}
		if c.rdl >= 0 && W.now >= c.rdl {
			Y()
			return 0, opErr("read", c.proto, c.ra, os.ErrDeadlineExceeded)
		}
		if len(h.buf) > 0 {
			k := len(h.buf)
			if k > len(b) {
				k = len(b)
			}
			if k > 1 && W.Choose("short", 6) == 5 {
				k = 1 + W.Choose("shortlen", k-1)
				W.Faults["short-read"]++
			}
			copy(b, h.buf[:k])
			h.buf = h.buf[k:]
			Y()
			return k, nil
		}
		if h.rst {
			return 0, opErr("read", c.proto, c.ra, sysErr("read", syscall.ECONNRESET))
		}
		if h.fin {
			return 0, io.EOF
		}
		// the deadline may be moved by another task while blocked: poll it
		c.waitDeadline("net read", func() int64 { return c.rdl }, ready)
		if dead() {
			return 0, net.ErrClosed
		}
	}
}

func (c *connEnd) waitDeadline(why string, dl func() int64, ready func() bool) {
	BlockUntil(why, dl(), ready)
}

func (c *connEnd) Write(b []byte) (int, error) {
	if !inSim() || dead() {
		return 0, net.ErrClosed
	}
	h := c.out
	done := 0
	for {
		if c.closed || h.finSent {
			if c.closed {
				return done, opErr("write", c.proto, c.ra, net.ErrClosed)
			}
			return done, opErr("write", c.proto, c.ra, sysErr("write", syscall.EPIPE))
		}
		if c.wdl >= 0 && W.now >= c.wdl {
			return done, opErr("write", c.proto, c.ra, os.ErrDeadlineExceeded)
		}
		if c.in.rst || h.rst {
			e := syscall.EPIPE
			if !h.rst {
				e = syscall.ECONNRESET
			}
			return done, opErr("write", c.proto, c.ra, sysErr("write", e))
		}
		if done == len(b) {
			return done, nil
		}
		space := c.sockBuf() - h.pending - len(h.buf)
		if space <= 0 {
			c.waitDeadline("net write", func() int64 { return c.wdl }, func() bool {
				return c.closed || h.rst || c.in.rst || c.sockBuf()-h.pending-len(h.buf) > 0 || (c.wdl >= 0 && W.now >= c.wdl)
			})
			if dead() {
				return done, net.ErrClosed
			}
			continue
		}
		k := len(b) - done
		if k > space {
			k = space
		}
		c.send(b[done : done+k])
		done += k
		Y()
	}
}

func (c *connEnd) send(b []byte) {
	h := c.out
	n := c.net
	p := c.plan
	seg := append([]byte(nil), b...)
	start := h.accepted
	h.accepted += len(seg)
	if p != nil {
		if x := p.CorruptAt[c.dir]; x > 0 && x > start && x <= start+len(seg) {
			seg[x-1-start] ^= 1 << uint(x%8)
			W.Fault("net-corrupt")
		}
		if x := p.CutAt[c.dir]; x > 0 && x <= start+len(seg) && !h.cut {
			keep := x - 1 - start
			if keep < 0 {
				keep = 0
			}
			seg = seg[:keep]
			h.cut = true
			W.Fault("net-reset")
			n.pieces(c, seg)
			h.deliver(n, n.delay(p, c.dir), func() { n.reset(c) })
			return
		}
		if x := p.CloseAt[c.dir]; x > 0 && x <= start+len(seg) && !h.cut {
			keep := x - 1 - start
			if keep < 0 {
				keep = 0
			}
			seg = seg[:keep]
			h.cut = true
			W.Fault("net-truncate")
			n.pieces(c, seg)
			h.deliver(n, n.delay(p, c.dir), func() { h.fin = true })
			return
		}
		if x := p.StallAt[c.dir]; x > 0 && x <= start+len(seg) && !h.stalled && !h.cut {
			keep := x - 1 - start
			if keep < 0 {
				keep = 0
			}
			n.pieces(c, seg[:keep])
			h.stalled = true
			h.pending += len(seg) - keep
			W.Fault("net-stall")
			n.w.addTimer(n.w.now+150e9, func() { n.reset(c) })
			return
		}
	}
	if h.stalled || h.cut {
		h.pending += len(seg)
		return
	}
	n.pieces(c, seg)
}

func (n *Network) pieces(c *connEnd, seg []byte) {
	h := c.out
	for len(seg) > 0 {
		k := len(seg)
		if c.plan != nil && c.plan.Trickle {
			k = 1 + n.w.Choose("trickle", 40)
			if k > len(seg) {
				k = len(seg)
			}
		} else if k > 1 && n.w.Choose("seg", 10) == 9 {
			k = 1 + n.w.Choose("seglen", k-1)
		}
		piece := seg[:k]
		seg = seg[k:]
		h.pending += k
		h.deliver(n, n.delay(c.plan, c.dir), func() {
			if h.rst {
				return
			}
			h.pending -= len(piece)
			if h.noReader {
				// data for a closed socket: RST
				if c.in != nil && !c.in.rst {
					c.in.rst = true
				}
				return
			}
			h.buf = append(h.buf, piece...)
		})
	}
}

func (c *connEnd) CloseWrite() error {
	if !inSim() || dead() {
		return nil
	}
	if c.closed {
		return opErr("close", c.proto, c.ra, net.ErrClosed)
	}
	c.sendFin()
	Y()
	return nil
}

func (c *connEnd) CloseRead() error { return nil }

func (c *connEnd) sendFin() {
	h := c.out
	if h.finSent {
		return
	}
	h.finSent = true
	if h.stalled || h.cut {
		return
	}
	h.deliver(c.net, c.net.delay(c.plan, c.dir), func() { h.fin = true; h.finSeq = c.net.w.Seq() })
}

func (c *connEnd) kernelClose() {
	if c.closed {
		return
	}
	c.closed = true
	c.in.noReader = true
	if len(c.in.buf) > 0 { // unread data: the peer sees a reset
		c.in.buf = nil
		h := c.out
		if !h.stalled && !h.cut {
			h.finSent = true
			h.deliver(c.net, c.net.delay(c.plan, c.dir), func() { h.rst = true })
		}
		return
	}
	c.sendFin()
}

func (c *connEnd) Close() error {
	if !inSim() || dead() {
		return nil
	}
	if c.closed {
		return opErr("close", c.proto, c.ra, net.ErrClosed)
	}
	c.kernelClose()
	Y()
	return nil
}

func (c *connEnd) LocalAddr() net.Addr  { return c.la }
func (c *connEnd) RemoteAddr() net.Addr { return c.ra }

func dlNs(t time.Time) int64 {
	if t.IsZero() {
		return -1
	}
	ns := NsOf(t)
	if ns < 0 {
		ns = 0
	}
	return ns
}
func (c *connEnd) poke(dl int64) {
	// make a task already blocked on this end notice the new deadline
	if dl >= 0 && W != nil && dl < 1<<61 {
		W.addTimer(dl, nil)
	}
}
func (c *connEnd) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *connEnd) SetReadDeadline(t time.Time) error {
	if dead() {
		return nil
	}
	c.rdl = dlNs(t)
	c.poke(c.rdl)
	return nil
}
func (c *connEnd) SetWriteDeadline(t time.Time) error {
	if dead() {
		return nil
	}
	c.wdl = dlNs(t)
	c.poke(c.wdl)
	return nil
}

// TCPConn and UnixConn replace their net counterparts.
type TCPConn struct{ *connEnd }
type UnixConn struct{ *connEnd }

func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }
func (c *UnixConn) SetReadBuffer(int) error               { return nil }
func (c *UnixConn) SetWriteBuffer(int) error              { return nil }

func (n *Network) pair(proto string, cn, sn *Node, ca, sa net.Addr, plan *ConnPlan) (*connEnd, *connEnd) {
	a, b := &half{}, &half{}
	n.nconn++
	cl := &connEnd{net: n, node: cn, id: n.nconn, proto: proto, dir: 0, in: b, out: a, rdl: -1, wdl: -1, la: ca, ra: sa, plan: plan}
	sv := &connEnd{net: n, node: sn, id: n.nconn, proto: proto, dir: 1, in: a, out: b, rdl: -1, wdl: -1, la: sa, ra: ca, plan: plan}
	cl.peer, sv.peer = sn, cn
	n.conns = append(n.conns, cl, sv)
	return cl, sv
}

// NetPipe replaces net.Pipe (with buffering).
func NetPipe() (net.Conn, net.Conn) {
	if W == nil {
		return net.Pipe()
	}
	n := CurNode()
	a, b := W.Net.pair("pipe", n, n, pipeAddr{}, pipeAddr{}, nil)
	return &UnixConn{a}, &UnixConn{b}
}

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "pipe" }

func (n *Network) nodeDied(d *Node) {
	for _, c := range n.conns {
		if c.node == d {
			c.kernelClose()
		}
	}
	for _, l := range n.lis {
		if l.node == d {
			l.kill()
		}
	}
}

func (l *listener) kill() {
	l.closed = true
	for _, c := range l.queue {
		c.kernelClose()
	}
	l.queue = nil
	for i, x := range l.net.lis {
		if x == l {
			l.net.lis = append(l.net.lis[:i:i], l.net.lis[i+1:]...)
			break
		}
	}
}

// Conns returns the number of open server-side ends of node d.
func (n *Network) OpenEnds(d *Node) int {
	k := 0
	for _, c := range n.conns {
		if c.node == d && !c.closed {
			k++
		}
	}
	return k
}

// Listening reports whether node d has a listener.
func (n *Network) Listening(d *Node) int {
	k := 0
	for _, l := range n.lis {
		if l.node == d && !l.closed {
			k++
		}
	}
	return k
}

// ---- listeners ----

func (l *listener) accept() (*connEnd, error) {
	if !inSim() || dead() {
		return nil, net.ErrClosed
	}
	for {
		if l.closed {
			Y()
			return nil, opErr("accept", l.proto, l.addr, net.ErrClosed)
		}
		if l.dl >= 0 && W.now >= l.dl {
			Y()
			return nil, opErr("accept", l.proto, l.addr, os.ErrDeadlineExceeded)
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			if c.plan != nil && c.plan.AcceptErr {
				c.plan.AcceptErr = false
				W.Fault("accept-emfile")
				return nil, opErr("accept", l.proto, l.addr, sysErr("accept4", syscall.EMFILE))
			}
			l.queue = l.queue[1:]
			W.event("accept", l.addr.String())
			c.accSeq = W.Seq()
			Y()
			return c, nil
		}
		BlockUntil("accept", l.dl, func() bool { return l.closed || len(l.queue) > 0 || (l.dl >= 0 && W.now >= l.dl) })
		if dead() {
			return nil, net.ErrClosed
		}
	}
}

func (l *listener) Close() error {
	if !inSim() || dead() {
		return nil
	}
	if l.closed {
		return opErr("close", l.proto, l.addr, net.ErrClosed)
	}
	l.kill()
	if l.proto == "unix" && l.unlink {
		l.fs.rawRemove(l.key)
	}
	Y()
	return nil
}
func (l *listener) Addr() net.Addr { return l.addr }
func (l *listener) SetDeadline(t time.Time) error {
	if dead() {
		return nil
	}
	l.dl = dlNs(t)
	if l.dl >= 0 && W != nil && l.dl < 1<<61 {
		W.addTimer(l.dl, nil)
	}
	return nil
}

type TCPListener struct{ *listener }
type UnixListener struct{ *listener }

func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}
func (l *UnixListener) Accept() (net.Conn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return &UnixConn{c}, nil
}
func (l *UnixListener) AcceptUnix() (*UnixConn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return &UnixConn{c}, nil
}
func (l *UnixListener) SetUnlinkOnClose(b bool) { l.unlink = b }

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	p, err := strconv.Atoi(port)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.AddrError{Err: "unknown port", Addr: address}}
	}
	if host == "localhost" {
		host = "127.0.0.1"
	}
	var ip net.IP
	if host != "" {
		ip = net.ParseIP(host)
		if ip == nil {
			return nil, &net.DNSError{Err: "no such host", Name: host}
		}
	}
	return &net.TCPAddr{IP: ip, Port: p}, nil
}

func ResolveUnixAddr(network, address string) (*net.UnixAddr, error) {
	return &net.UnixAddr{Net: network, Name: address}, nil
}

func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	if !inSim() || dead() {
		return nil, net.ErrClosed
	}
	Y()
	node := CurNode()
	n := W.Net
	host := ""
	port := 0
	if a != nil {
		if a.IP != nil && !a.IP.IsUnspecified() {
			host = a.IP.String()
		}
		port = a.Port
	}
	if port == 0 {
		n.eph++
		port = n.eph
	}
	for _, l := range n.lis {
		if l.proto == "tcp" && !l.closed && l.node.Host == node.Host {
			h, p, _ := net.SplitHostPort(l.key)
			if p == strconv.Itoa(port) && (h == host || h == "" || host == "") {
				return nil, opErr("listen", "tcp", a, sysErr("bind", syscall.EADDRINUSE))
			}
		}
	}
	ip := net.IPv4zero
	if host != "" {
		ip = net.ParseIP(host)
	}
	l := &listener{net: n, node: node, proto: "tcp", key: net.JoinHostPort(host, strconv.Itoa(port)), dl: -1, addr: &net.TCPAddr{IP: ip, Port: port}}
	n.lis = append(n.lis, l)
	W.Event("listen tcp %s", l.key)
	return &TCPListener{l}, nil
}

func ListenUnix(network string, a *net.UnixAddr) (*UnixListener, error) {
	if !inSim() || dead() {
		return nil, net.ErrClosed
	}
	Y()
	node := CurNode()
	p := node.abs(a.Name)
	if err := node.FS.rawSocket(p); err != nil {
		return nil, opErr("listen", "unix", a, sysErr("bind", err.(syscall.Errno)))
	}
	l := &listener{net: W.Net, node: node, proto: "unix", key: p, fs: node.FS, dl: -1, addr: &net.UnixAddr{Net: "unix", Name: a.Name}, unlink: true}
	W.Net.lis = append(W.Net.lis, l)
	W.Event("listen unix %s", p)
	return &UnixListener{l}, nil
}

func Listen(network, address string) (net.Listener, error) {
	if strings.HasPrefix(network, "unix") {
		l, err := ListenUnix(network, &net.UnixAddr{Net: network, Name: address})
		if err != nil {
			return nil, err
		}
		return l, nil
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

// ---- dialing ----

func (n *Network) dial(proto, addr string, raddr net.Addr, deadline int64) (*connEnd, error) {
	if !inSim() || dead() {
		return nil, net.ErrClosed
	}
	w := W
	node := CurNode()
	var plan *ConnPlan
	id := 0
	if n.Plan != nil {
		n.nconn++
		id = n.nconn
		plan = n.Plan(ConnInfo{ID: n.nconn, Proto: proto, From: node, Addr: addr})
	}
	if plan == nil {
		plan = &ConnPlan{}
	} else {
		cp := *plan
		plan = &cp
	}
	plan.dial = id
	until := w.now + n.delay(plan, 0)
	BlockUntil("dial", until, func() bool { return false })
	if dead() {
		return nil, net.ErrClosed
	}
	switch plan.DialErr {
	case "refused":
		w.Fault("dial-refused")
		return nil, opErr("dial", proto, raddr, sysErr("connect", syscall.ECONNREFUSED))
	case "reset":
		w.Fault("dial-reset")
		return nil, opErr("dial", proto, raddr, sysErr("connect", syscall.ECONNRESET))
	case "timeout":
		w.Fault("dial-timeout")
		d := w.now + 120e9
		if deadline >= 0 && deadline < d {
			d = deadline
		}
		BlockUntil("dial", d, func() bool { return false })
		return nil, opErr("dial", proto, raddr, sysErr("connect", syscall.ETIMEDOUT))
	}
	var l *listener
	if proto == "unix" {
		p := node.abs(addr)
		ino := node.FS.tree[p]
		if ino == nil {
			return nil, opErr("dial", proto, raddr, sysErr("connect", syscall.ENOENT))
		}
		for _, x := range n.lis {
			if x.proto == "unix" && x.fs == node.FS && x.key == p && !x.closed {
				l = x
			}
		}
	} else {
		host, port, _ := net.SplitHostPort(addr)
		for _, x := range n.lis {
			if x.proto != "tcp" || x.closed {
				continue
			}
			h, p, _ := net.SplitHostPort(x.key)
			if p != port {
				continue
			}
			if h == host || (h == "" && (host == x.node.Host || host == "127.0.0.1" || host == "")) {
				l = x
			}
		}
	}
	if l == nil {
		return nil, opErr("dial", proto, raddr, sysErr("connect", syscall.ECONNREFUSED))
	}
	if n.Down != nil && n.Down(node, l.node) {
		w.Fault("partition-dial")
		d := w.now + 120e9
		if deadline >= 0 && deadline < d {
			d = deadline
		}
		BlockUntil("dial", d, func() bool { return false })
		return nil, opErr("dial", proto, raddr, sysErr("connect", syscall.ETIMEDOUT))
	}
	if len(l.queue) >= 128 {
		w.Fault("backlog-full")
		if proto == "unix" {
			BlockUntil("dial backlog", deadline, func() bool { return l.closed || len(l.queue) < 128 })
		} else {
			BlockUntil("dial backlog", w.now+1e9, func() bool { return l.closed || len(l.queue) < 128 })
		}
		if dead() {
			return nil, net.ErrClosed
		}
		if l.closed || len(l.queue) >= 128 {
			return nil, opErr("dial", proto, raddr, sysErr("connect", syscall.ECONNREFUSED))
		}
	}
	var ca net.Addr
	if proto == "unix" {
		ca = &net.UnixAddr{Net: "unix", Name: "@"}
	} else {
		n.eph++
		ca = &net.TCPAddr{IP: net.ParseIP(node.Host), Port: n.eph}
	}
	cl, sv := n.pair(proto, node, l.node, ca, l.addr, plan)
	l.queue = append(l.queue, sv)
	w.Event("dial %s %s -> conn %d", proto, addr, cl.id)
	Y()
	return cl, nil
}

func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	if !inSim() {
		return nil, net.ErrClosed
	}
	c, err := W.Net.dial("tcp", raddr.String(), raddr, -1)
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}

func DialUnix(network string, laddr, raddr *net.UnixAddr) (*UnixConn, error) {
	if !inSim() {
		return nil, net.ErrClosed
	}
	c, err := W.Net.dial("unix", raddr.Name, raddr, -1)
	if err != nil {
		return nil, err
	}
	return &UnixConn{c}, nil
}

func dialGeneric(network, address string, deadline int64) (net.Conn, error) {
	if !inSim() {
		return nil, net.ErrClosed
	}
	if strings.HasPrefix(network, "unix") {
		c, err := W.Net.dial("unix", address, &net.UnixAddr{Net: "unix", Name: address}, deadline)
		if err != nil {
			return nil, err
		}
		return &UnixConn{c}, nil
	}
	if !strings.HasPrefix(network, "tcp") {
		return nil, &net.OpError{Op: "dial", Net: network, Err: net.UnknownNetworkError(network)}
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	c, err := W.Net.dial("tcp", a.String(), a, deadline)
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}

func Dial(network, address string) (net.Conn, error) { return dialGeneric(network, address, -1) }
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	if !inSim() {
		return nil, net.ErrClosed
	}
	return dialGeneric(network, address, W.now+int64(d))
}

// Dialer replaces net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr net.Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	dl := int64(-1)
	if inSim() {
		if d.Timeout > 0 {
			dl = W.now + int64(d.Timeout)
		}
		if !d.Deadline.IsZero() {
			if x := NsOf(d.Deadline); dl < 0 || x < dl {
				dl = x
			}
		}
	}
	return dialGeneric(network, address, dl)
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return d.Dial(network, address)
}

// RawDial lets harness code act as an arbitrary (hostile) client.
func RawDial(network, address string) (net.Conn, error) { return dialGeneric(network, address, -1) }

func (c *connEnd) String() string { return fmt.Sprintf("conn%d/%d", c.id, c.dir) }

// PeerNode returns the node at the other end of a connection.
func PeerNode(c net.Conn) *Node {
	if e := endOf(c); e != nil {
		return e.peer
	}
	return nil
}

// Progress tells when the peer of a client connection accepted it and when it
// had received everything sent up to and including the end of the stream (0:
// not yet).
func Progress(c net.Conn) (accepted, received int64) {
	e := endOf(c)
	if e == nil {
		return 0, 0
	}
	for _, x := range e.net.conns {
		if x.id == e.id && x.dir == 1 {
			accepted = x.accSeq
		}
	}
	if e.out.fin {
		received = e.out.finSeq
	}
	return accepted, received
}

// DialID returns the ConnInfo.ID of a connection.
func DialID(c net.Conn) int {
	if e := endOf(c); e != nil && e.plan != nil {
		return e.plan.dial
	}
	return 0
}

func endOf(c net.Conn) *connEnd {
	e, ok := c.(*connEnd)
	if !ok {
		switch x := c.(type) {
		case *TCPConn:
			e = x.connEnd
		case *UnixConn:
			e = x.connEnd
		}
	}
	return e
}
