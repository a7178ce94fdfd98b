package main

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"

	"github.com/coniks-sys/coniks-go/protocol"
	"verif.sim/simrt"
)

type strType = protocol.DirSTR

var badKinds = []string{"garbage", "truncated", "types", "confused", "oversized", "deep", "nofin", "idle", "abort", "stall", "badtls", "empty", "null", "dupkeys", "noread", "nofin", "idle", "trailing"}

// badPayload builds a request that must not be served.
func badPayload(kind string, rng *rand.Rand, name string) []byte {
	ok := reqJSON(protocol.RegistrationType, regBody{Username: name, Key: []byte("intruder-key")})
	switch kind {
	case "garbage":
		b := make([]byte, 1+rng.Intn(300))
		rng.Read(b)
		return b
	case "truncated":
		return ok[:rng.Intn(len(ok))]
	case "types":
		t := []int{4, 5, 6, 7, -1, 99, 1 << 40}[rng.Intn(7)]
		return reqJSON(t, histBody{0, uint64(rng.Intn(5))})
	case "confused":
		opts := []string{
			`{"Type":0,"Request":[1,2,3]}`, `{"Type":"0","Request":{}}`, `{"Type":1,"Request":"x"}`, `{"Type":0,"Request":{"Username":5,"Key":"aaaa"}}`,
			`{"Type":0,"Request":{"Username":"x","Key":"not base64!"}}`, `{"Type":2,"Request":{"Username":"x","Epoch":-1}}`, `{"Type":2,"Request":{"Username":"x","Epoch":1.5}}`,
			`{"Type":3,"Request":{"Username":"x","StartEpoch":18446744073709551616}}`, `[]`, `"x"`, `1e999`, `{"Type":1e9,"Request":{}}`, `{"Type":0}`, `{"Request":{}}`, `{}`,
			`{"Type":3,"Request":{"Username":"x","StartEpoch":5,"EndEpoch":4}}`, `{"Type":2,"Request":{"Username":"","Epoch":0}}`, `{"Type":1,"Request":{}}`, `{"Type":0,"Request":{"Username":"nokey"}}`,
			`{"Type":0,"Request":{"Username":"","Key":"aaaa"}}`, `{"Type":2,"Request":{"Username":"x","Epoch":18446744073709551615}}`, `{"Type":3,"Request":{"Username":"x","StartEpoch":18446744073709551615,"EndEpoch":18446744073709551615}}`,
		}
		return []byte(opts[rng.Intn(len(opts))])
	case "oversized":
		return padRequest(ok, 8193+rng.Intn(100000))
	case "trailing": // a request and then something
		if rng.Intn(3) == 0 {
			ok = reqJSON(protocol.KeyLookupType, lookBody{Username: name})
		}
		more := []string{"x", "}", "]", "{", "null", " 0", "\"\"", "\x00", "\n{}", string(ok), " " + string(ok), "," + string(ok), "\n\nGET / HTTP/1.1\r\n", ";", "\xff"}
		return append(ok[:len(ok):len(ok)], more[rng.Intn(len(more))]...)
	case "deep":
		return []byte(strings.Repeat("[", 1+rng.Intn(8000)))
	case "empty":
		return nil
	case "null":
		return []byte([]string{`null`, `{"Type":0,"Request":null}`, `{"Type":null,"Request":null}`, `{"Type":1,"Request":null}`, `{"Type":3,"Request":null}`, ` `}[rng.Intn(6)])
	case "dupkeys":
		return []byte(`{"Type":0,"Type":9,"Request":{"Username":"dup","Key":"aaaa"}}`)
	}
	return ok
}

// badConn is a hostile or broken peer.
func (e *srvEnv) badConn(c int, o Op) {
	r := e.r
	w := r.w
	er := e.cur
	rng := rand.New(rand.NewSource(o.n(1)))
	a := e.addrs[int(o.n(0))%len(e.addrs)]
	name := "intruder-" + fmt.Sprint(c)
	kind := o.s(0)
	w.Probe("bad-" + kind)
	payload := badPayload(kind, rng, name)
	switch kind {
	case "nofin", "idle", "abort", "stall", "badtls", "noread":
		e.badPeer(c, kind, a, payload, rng, o)
		return
	}
	x := &Ex{Cli: c, Kind: "raw", Name: string(payload), Addr: a.url, Latest: -1}
	x.TInv, x.SInv = w.NowNs(), w.Seq()
	fault := o.n(2)
	if rng.Intn(2) == 0 {
		fault = 0
	}
	got := &progress{}
	ans, sent, _, err := e.send(c, a.url, payload, xopt{fault: fault, pos: o.n(3), got: got})
	x.TRet, x.SRet = w.NowNs(), w.Seq()
	if err != nil || len(ans) == 0 {
		// a closed connection is as good, if it came in bounded time
		if benign(fault) && w.Faults["stall"] == 0 && e.quiet(er, got) && sent > 0 && x.TRet-sent > 13*sec+10*w.Net.MaxDelay {
			r.Fail("C09,C11", "not-disconnected", "a malformed request (%s) was neither answered nor disconnected for %.1fs", kind, float64(x.TRet-sent)/1e9)
		}
		return
	}
	x.Raw = ans
	x.Faulted = !benign(fault)
	if x.Faulted {
		// truncation may have turned it into anything
		if _, err := parseAnswer(ans); err != nil {
			return
		}
	}
	er.j.Add(x)
	if r.Prop == "C09" {
		r.res.Nontrivial = true
	}
}

// badPeer stalls or aborts at some point of the exchange; the server must
// hang up on it in bounded time.
func (e *srvEnv) badPeer(c int, kind string, a addrCfg, payload []byte, rng *rand.Rand, o Op) {
	r := e.r
	w := r.w
	er := e.cur
	n := e.clientNode(c)
	delete(e.plans, n)
	size := 65536
	if kind == "noread" && rng.Intn(4) > 0 {
		size = []int{256, 512, 1024, 4096, 16384}[rng.Intn(5)]
		e.plans[n] = &simrt.ConnPlan{Buf: size}
	}
	proto, hp := hostPort(a.url)
	conn, err := simrt.RawDial(proto, hp)
	if err != nil {
		return
	}
	defer conn.Close()
	w.Fault("peer-" + kind)
	limit := w.NowNs() + 40*sec
	conn.SetDeadline(simrt.WallAt(limit))
	var cc net.Conn = conn
	if proto == "tcp" && kind != "badtls" && rng.Intn(4) > 0 {
		cc = simrt.TLSClient(conn, &tls.Config{InsecureSkipVerify: true})
	}
	// an incomplete registration that must never take effect
	cut := rng.Intn(len(payload))
	switch kind {
	case "idle":
	case "badtls":
		conn.Write(payload[:cut])
	case "nofin":
		cc.Write(payload) // complete, but the end is never announced
	case "stall":
		cc.Write(payload[:cut])
	case "abort":
		cc.Write(payload[:cut])
		if rng.Intn(2) == 0 {
			sleepNs(rng.Int63n(6 * sec))
		}
		return // hang up
	case "noread":
		// a large answer nobody reads
		req := reqJSON(protocol.MonitoringType, monBody{name0(e), 0, 1 << 40})
		if rng.Intn(3) == 0 {
			req = reqJSON(protocol.KeyLookupType, lookBody{name0(e)})
		}
		conn.SetDeadline(simrt.WallAt(w.NowNs() + 4000*sec))
		t0 := w.NowNs()
		if _, err := cc.Write(req); err != nil {
			return
		}
		if x, ok := conn.(interface{ CloseWrite() error }); ok {
			x.CloseWrite()
		}
		// how long the peer holds on: usually past the time by which the
		// server must have hung up, sometimes much longer
		sleepNs([]int64{14 * sec, 14 * sec, 20 * sec, 60 * sec, 600 * sec}[rng.Intn(5)])
		k, _ := io.Copy(io.Discard, conn)
		if w.Faults["stall"] == 0 && er.serving && w.NowNs()-t0 < 3000*sec {
			// what was in the buffers may still arrive, nothing else
			if k > int64(size) {
				r.Fail("C11,C09", "not-disconnected", "a peer that had read nothing for %.0fs was still being answered: %d bytes through a buffer of %d", float64(w.NowNs()-t0)/1e9, k, size)
			}
			w.Probe("noread-checked")
			if k == int64(size) {
				w.Probe("noread-full")
			}
			if r.Prop == "C11" || r.Prop == "C09" {
				r.res.Nontrivial = true
			}
		}
		return
	}
	t0 := w.NowNs()
	buf := make([]byte, 4096)
	var got []byte
	for {
		k, err := conn.Read(buf)
		got = append(got, buf[:k]...)
		if err != nil {
			break
		}
	}
	if w.Faults["stall"] == 0 && er.serving && w.NowNs()-t0 > 13*sec+20*w.Net.MaxDelay {
		r.Fail("C11,C09", "not-disconnected", "a peer (%s) was not disconnected for %.1fs", kind, float64(w.NowNs()-t0)/1e9)
	}
	if r.Prop == "C11" || r.Prop == "C09" {
		r.res.Nontrivial = true
	}
	_ = got
	_ = json.Valid
}

func name0(e *srvEnv) string {
	best := ""
	for n := range e.names {
		if n != "" && (best == "" || n < best) {
			best = n
		}
	}
	return best
}
