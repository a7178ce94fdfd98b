package simrt

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"hash/crc32"
	"io"
	"net"
	"os"
	"time"
)

// TLSConn is a stand-in for tls.Conn: the same framing, handshake round trip
// and failure behaviour (a corrupted or truncated record is an error, a FIN on
// a record boundary is io.EOF), without the cryptography.
type TLSConn struct {
	conn   net.Conn
	client bool
	hs     bool
	hsErr  error
	in     []byte
	rerr   error
	closed bool
}

const (
	recHello  = 1
	recServer = 2
	recFin    = 3
	recData   = 4
	recAlert  = 5
)

func TLSServer(c net.Conn, cfg *tls.Config) *TLSConn { return &TLSConn{conn: c} }
func TLSClient(c net.Conn, cfg *tls.Config) *TLSConn { return &TLSConn{conn: c, client: true} }

func TLSDial(network, addr string, cfg *tls.Config) (*TLSConn, error) {
	c, err := Dial(network, addr)
	if err != nil {
		return nil, err
	}
	t := TLSClient(c, cfg)
	if err := t.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	return t, nil
}

type tlsListener struct {
	net.Listener
	cfg *tls.Config
}

func (l *tlsListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return TLSServer(c, l.cfg), nil
}
func TLSListen(network, addr string, cfg *tls.Config) (net.Listener, error) {
	l, err := Listen(network, addr)
	if err != nil {
		return nil, err
	}
	return &tlsListener{l, cfg}, nil
}

func record(typ byte, p []byte) []byte {
	b := make([]byte, 7+len(p))
	b[0] = typ
	binary.BigEndian.PutUint16(b[1:], uint16(len(p)))
	binary.BigEndian.PutUint32(b[3:], crc32.ChecksumIEEE(append([]byte{typ}, p...)))
	copy(b[7:], p)
	return b
}

func (t *TLSConn) readRecord() (byte, []byte, error) {
	hdr := make([]byte, 7)
	if n, err := io.ReadFull(t.conn, hdr); err != nil {
		if n == 0 && err == io.EOF {
			return 0, nil, io.EOF
		}
		return 0, nil, err
	}
	l := int(binary.BigEndian.Uint16(hdr[1:]))
	if hdr[0] == 0 || hdr[0] > recAlert || l > 20000 {
		return 0, nil, errors.New("tls: first record does not look like a TLS handshake")
	}
	p := make([]byte, l)
	if _, err := io.ReadFull(t.conn, p); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return 0, nil, err
	}
	if crc32.ChecksumIEEE(append([]byte{hdr[0]}, p...)) != binary.BigEndian.Uint32(hdr[3:]) {
		t.conn.Write(record(recAlert, []byte("bad_record_mac")))
		return 0, nil, errors.New("local error: tls: bad record MAC")
	}
	return hdr[0], p, nil
}

func (t *TLSConn) Handshake() error {
	if t.hs || t.hsErr != nil {
		return t.hsErr
	}
	err := t.handshake()
	if err != nil {
		if err == io.EOF && t.client {
			err = io.EOF
		}
		t.hsErr = err
		return err
	}
	t.hs = true
	return nil
}

func (t *TLSConn) expect(want byte) error {
	typ, p, err := t.readRecord()
	if err != nil {
		return err
	}
	if typ == recAlert {
		return errors.New("remote error: tls: " + string(p))
	}
	if typ != want {
		return errors.New("tls: unexpected message")
	}
	return nil
}

func (t *TLSConn) handshake() error {
	if t.client {
		if _, err := t.conn.Write(record(recHello, make([]byte, 200))); err != nil {
			return err
		}
		if err := t.expect(recServer); err != nil {
			return err
		}
		_, err := t.conn.Write(record(recFin, make([]byte, 32)))
		return err
	}
	if err := t.expect(recHello); err != nil {
		return err
	}
	if _, err := t.conn.Write(record(recServer, make([]byte, 900))); err != nil {
		return err
	}
	return t.expect(recFin)
}

func (t *TLSConn) Read(b []byte) (int, error) {
	if err := t.Handshake(); err != nil {
		return 0, err
	}
	for len(t.in) == 0 {
		if t.rerr != nil {
			return 0, t.rerr
		}
		typ, p, err := t.readRecord()
		if err != nil {
			var ne net.Error
			if !(errors.As(err, &ne) && ne.Timeout()) {
				t.rerr = err
			}
			return 0, err
		}
		switch typ {
		case recData:
			t.in = p
		case recAlert:
			if bytes.Equal(p, []byte("close_notify")) {
				t.rerr = io.EOF
			} else {
				t.rerr = errors.New("remote error: tls: " + string(p))
			}
		default:
			t.rerr = errors.New("tls: unexpected message")
		}
	}
	n := copy(b, t.in)
	t.in = t.in[n:]
	return n, nil
}

func (t *TLSConn) Write(b []byte) (int, error) {
	if t.closed {
		return 0, net.ErrClosed
	}
	if err := t.Handshake(); err != nil {
		return 0, err
	}
	done := 0
	for done < len(b) {
		k := len(b) - done
		if k > 16384 {
			k = 16384
		}
		if _, err := t.conn.Write(record(recData, b[done:done+k])); err != nil {
			return done, err
		}
		done += k
	}
	return done, nil
}

func (t *TLSConn) Close() error {
	if t.closed {
		return net.ErrClosed
	}
	t.closed = true
	if t.hs {
		t.conn.SetWriteDeadline(Now().Add(5 * time.Second))
		t.conn.Write(record(recAlert, []byte("close_notify")))
	}
	return t.conn.Close()
}
func (t *TLSConn) CloseWrite() error {
	if !t.hs {
		return errors.New("tls: CloseWrite called before handshake complete")
	}
	_, err := t.conn.Write(record(recAlert, []byte("close_notify")))
	return err
}
func (t *TLSConn) LocalAddr() net.Addr                { return t.conn.LocalAddr() }
func (t *TLSConn) RemoteAddr() net.Addr               { return t.conn.RemoteAddr() }
func (t *TLSConn) SetDeadline(x time.Time) error      { return t.conn.SetDeadline(x) }
func (t *TLSConn) SetReadDeadline(x time.Time) error  { return t.conn.SetReadDeadline(x) }
func (t *TLSConn) SetWriteDeadline(x time.Time) error { return t.conn.SetWriteDeadline(x) }
func (t *TLSConn) NetConn() net.Conn                  { return t.conn }

// TLSNewListener replaces tls.NewListener.
func TLSNewListener(l net.Listener, cfg *tls.Config) net.Listener { return &tlsListener{l, cfg} }

// TLSDialWithDialer replaces tls.DialWithDialer.
func TLSDialWithDialer(d *Dialer, network, addr string, cfg *tls.Config) (*TLSConn, error) {
	c, err := d.Dial(network, addr)
	if err != nil {
		return nil, err
	}
	t := TLSClient(c, cfg)
	if d.Timeout > 0 {
		c.SetDeadline(Now().Add(d.Timeout))
	}
	if err := t.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	c.SetDeadline(time.Time{})
	return t, nil
}

func (t *TLSConn) HandshakeContext(context.Context) error { return t.Handshake() }

// LoadX509KeyPair checks that both files exist and hold PEM blocks.
func LoadX509KeyPair(certFile, keyFile string) (tls.Certificate, error) {
	c, err := ReadFile(certFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	k, err := ReadFile(keyFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	return X509KeyPair(c, k)
}

// X509KeyPair checks that both hold PEM blocks.
func X509KeyPair(c, k []byte) (tls.Certificate, error) {
	cb, _ := pem.Decode(c)
	kb, _ := pem.Decode(k)
	if cb == nil {
		return tls.Certificate{}, errors.New("tls: failed to find any PEM data in certificate input")
	}
	if kb == nil {
		return tls.Certificate{}, errors.New("tls: failed to find any PEM data in key input")
	}
	return tls.Certificate{Certificate: [][]byte{cb.Bytes}}, nil
}

var _ = os.ErrExist
