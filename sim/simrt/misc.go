package simrt

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	mrand "math/rand"
	"os"
	"strings"
	"syscall"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"golang.org/x/term"
)

// ---- randomness ----

// Entropy is a seeded stand-in for the system's random source. Fail, if set,
// decides the outcome of each read.
type Entropy struct {
	rng   *mrand.Rand
	Reads int64
	Bytes int64
	Fail  func(read int64, n int) (short int, err error)
}

func NewEntropy(seed int64) *Entropy { return &Entropy{rng: mrand.New(mrand.NewSource(seed))} }

func (e *Entropy) Read(p []byte) (int, error) {
	e.Reads++
	n := len(p)
	if e.Fail != nil {
		short, err := e.Fail(e.Reads, n)
		if err != nil {
			if short > n {
				short = n
			}
			e.rng.Read(p[:short])
			if W != nil {
				W.Fault("entropy-error")
			}
			return short, err
		}
		if short > 0 && short < n { // a short but successful read
			n = short
			if W != nil {
				W.Fault("entropy-short")
			}
		}
	}
	e.rng.Read(p[:n])
	e.Bytes += int64(n)
	return n, nil
}

type nodeReader struct{}

func (nodeReader) Read(p []byte) (int, error) {
	if n := CurNode(); n != nil {
		return n.Rand.Read(p)
	}
	return fallback.Read(p)
}

var fallback = NewEntropy(42)

func RandReader() io.Reader { return nodeReader{} }
func RandRead(p []byte) (int, error) {
	return io.ReadFull(nodeReader{}, p)
}
func RandInt(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, (max.BitLen()+7)/8+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	x := new(big.Int).SetBytes(b)
	return x.Mod(x, max), nil
}
func RandPrime(r io.Reader, bits int) (*big.Int, error) {
	return nil, errors.New("simrt: RandPrime is not simulated")
}

func ECDSAGenerateKey(c elliptic.Curve, r io.Reader) (*ecdsa.PrivateKey, error) {
	b := make([]byte, 31)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	k := new(big.Int).SetBytes(b)
	k.Add(k, big.NewInt(1))
	p := new(ecdsa.PrivateKey)
	p.Curve = c
	p.D = k
	p.X, p.Y = c.ScalarBaseMult(k.Bytes())
	return p, nil
}

func X509CreateCertificate(r io.Reader, template, parent *x509.Certificate, pub, priv interface{}) ([]byte, error) {
	b := make([]byte, 16)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return append([]byte("simulated certificate "), b...), nil
}

var _ crypto.PublicKey

// ---- signals ----

type sigReg struct {
	c    chan<- os.Signal
	sigs map[os.Signal]bool // nil = all
}

func SignalNotify(c chan<- os.Signal, sigs ...os.Signal) {
	n := CurNode()
	if n == nil || dead() {
		return
	}
	var m map[os.Signal]bool
	if len(sigs) > 0 {
		m = map[os.Signal]bool{}
		for _, s := range sigs {
			m[s] = true
		}
	}
	n.sigs = append(n.sigs, sigReg{c, m})
	Y()
}
func SignalNotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	if CurNode() == nil || dead() {
		return context.WithCancel(parent)
	}
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	SignalNotify(c, sigs...)
	Go(func() {
		if Select(false, RecvC(c), RecvC(ctx.Done())) == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); SignalStop(c) }
}

func SignalStop(c chan<- os.Signal) {
	n := CurNode()
	if n == nil || dead() {
		return
	}
	var out []sigReg
	for _, r := range n.sigs {
		if r.c != c {
			out = append(out, r)
		}
	}
	n.sigs = out
}
func SignalIgnore(sigs ...os.Signal) {
	n := CurNode()
	if n == nil || dead() {
		return
	}
	m := map[os.Signal]bool{}
	for _, s := range sigs {
		m[s] = true
	}
	n.sigs = append(n.sigs, sigReg{nil, m})
}
func SignalReset(sigs ...os.Signal) {
	n := CurNode()
	if n == nil || dead() {
		return
	}
	if len(sigs) == 0 {
		n.sigs = nil
		return
	}
	for _, r := range n.sigs {
		for _, s := range sigs {
			delete(r.sigs, s)
		}
	}
}

// Signal delivers a signal to node n (from harness code).
func (n *Node) Signal(s os.Signal) {
	if n.Dead {
		return
	}
	n.w.Event("signal %v to %s", s, n.Name)
	handled := false
	for _, r := range n.sigs {
		if r.sigs == nil || r.sigs[s] {
			handled = true
			if r.c == nil {
				continue
			}
			select { // a buffered channel; an unbuffered one with a parked reader
			case r.c <- s:
			default:
				sendWaiting(r.c, s)
			}
		}
	}
	if !handled && (s == syscall.SIGUSR2 || s == os.Interrupt || s == syscall.SIGTERM || s == syscall.SIGHUP || s == syscall.SIGUSR1 || s == os.Kill) {
		n.Exited = true
		n.ExitCode = -1
		n.DieFatal = "signal " + s.String()
		n.w.KillNode(n)
	}
}

func sendWaiting(c chan<- os.Signal, s os.Signal) {
	sc := SendC(c)(s)
	if sc.ready() {
		sc.try()
	}
}

// ---- printing ----

func (n *Node) log(s string) {
	n.Log = append(n.Log, strings.TrimRight(s, "\n"))
	n.w.Event("log %s", s)
}

func logLine(s string) {
	if n := CurNode(); n != nil && !dead() {
		n.log(s)
		Y()
	}
}
func LogPrint(a ...interface{})            { logLine(fmt.Sprint(a...)) }
func LogPrintln(a ...interface{})          { logLine(fmt.Sprintln(a...)) }
func LogPrintf(f string, a ...interface{}) { logLine(fmt.Sprintf(f, a...)) }
func logFatal(s string) {
	if W == nil {
		log.Fatal(s)
	}
	logLine(s)
	exitNode(1, "log.Fatal: "+s)
}
func LogFatal(a ...interface{})            { logFatal(fmt.Sprint(a...)) }
func LogFatalln(a ...interface{})          { logFatal(fmt.Sprintln(a...)) }
func LogFatalf(f string, a ...interface{}) { logFatal(fmt.Sprintf(f, a...)) }
func LogPanic(a ...interface{})            { s := fmt.Sprint(a...); logLine(s); panic(s) }
func LogPanicln(a ...interface{})          { s := fmt.Sprintln(a...); logLine(s); panic(s) }
func LogPanicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); logLine(s); panic(s) }

func out(s string) (int, error) {
	if n := CurNode(); n != nil && !dead() {
		n.Out.WriteString(s)
		Y()
	}
	return len(s), nil
}
func FmtPrint(a ...interface{}) (int, error)            { return out(fmt.Sprint(a...)) }
func FmtPrintln(a ...interface{}) (int, error)          { return out(fmt.Sprintln(a...)) }
func FmtPrintf(f string, a ...interface{}) (int, error) { return out(fmt.Sprintf(f, a...)) }

// InputPipe is a node's standard input.
type InputPipe struct {
	buf    []byte
	closed bool
}

func (p *InputPipe) Type(s string) { p.buf = append(p.buf, s...) }
func (p *InputPipe) Close()        { p.closed = true }
func (p *InputPipe) Empty() bool   { return len(p.buf) == 0 }
func (p *InputPipe) read(b []byte) (int, error) {
	if !dead() {
		// the terminal is inside a lock-free window here that it cannot be
		// unwound from
		t := W.cur
		t.park = true
		defer func() { t.park = false }()
	}
	block("stdin", func() bool { return len(p.buf) > 0 || p.closed })
	if dead() {
		return 0, io.EOF
	}
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

// ---- zap ----

// ZapConfig replaces zap.Config; Build writes to the node's log and to the
// simulated files.
type ZapConfig zap.Config

type zapCore struct {
	level zapcore.LevelEnabler
	enc   zapcore.Encoder
	files []*File
	with  []zapcore.Field
}

func (c *zapCore) Enabled(l zapcore.Level) bool { return c.level.Enabled(l) }
func (c *zapCore) With(f []zapcore.Field) zapcore.Core {
	n := *c
	n.with = append(append([]zapcore.Field{}, c.with...), f...)
	return &n
}
func (c *zapCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if c.Enabled(e.Level) {
		return ce.AddCore(e, c)
	}
	return ce
}
func (c *zapCore) Write(e zapcore.Entry, fields []zapcore.Field) error {
	n := CurNode()
	if n == nil || dead() {
		if n != nil && e.Level == zapcore.FatalLevel {
			exitNode(1, "fatal")
		}
		return nil
	}
	m := zapcore.NewMapObjectEncoder()
	var b strings.Builder
	for _, f := range append(append([]zapcore.Field{}, c.with...), fields...) {
		f.AddTo(m)
		fmt.Fprintf(&b, " %s=%v", f.Key, m.Fields[f.Key])
	}
	line := e.Level.CapitalString() + " " + e.Message + b.String()
	n.log(line)
	for _, f := range c.files {
		f.Write([]byte(line + "\n"))
	}
	if e.Level == zapcore.FatalLevel {
		exitNode(1, "zap fatal: "+e.Message)
	}
	return nil
}
func (c *zapCore) Sync() error { return nil }

func (c ZapConfig) Build(opts ...zap.Option) (*zap.Logger, error) {
	core := &zapCore{level: c.Level}
	if c.Encoding != "json" && c.Encoding != "console" {
		return nil, fmt.Errorf("no encoder registered for name %q", c.Encoding)
	}
	if W != nil && !dead() {
		for _, p := range c.OutputPaths {
			if p == "stderr" || p == "stdout" {
				continue
			}
			f, err := OpenFile(p, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if err != nil {
				return nil, err
			}
			core.files = append(core.files, f)
		}
	}
	return zap.New(core, opts...), nil
}

func ZapNewProduction(opts ...zap.Option) (*zap.Logger, error) {
	return ZapConfig(zap.NewProductionConfig()).Build(opts...)
}
func ZapNewDevelopment(opts ...zap.Option) (*zap.Logger, error) {
	return ZapConfig(zap.NewDevelopmentConfig()).Build(opts...)
}

// ---- terminal ----

func TermIsTerminal(int) bool              { return true }
func TermMakeRaw(int) (*term.State, error) { return &term.State{}, nil }
func TermRestore(int, *term.State) error   { return nil }
