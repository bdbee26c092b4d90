package snapws_test

import (
	"bufio"
	"encoding/binary"
	"io"
	"net"
	"net/http"
	"os"
	"sync"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// tconn is an in-memory net.Conn with deadlines.
type tconn struct {
	mu       sync.Mutex
	cond     *sync.Cond
	in       []byte
	inErr    error
	out      []byte
	closed   bool
	rdl, wdl time.Time
	writeErr error
	gate     bool // writes block until the gate opens, the deadline or close
	writes   int
}

func newTconn() *tconn {
	c := &tconn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *tconn) feed(b []byte) { c.mu.Lock(); c.in = append(c.in, b...); c.cond.Broadcast(); c.mu.Unlock() }
func (c *tconn) end(err error) { c.mu.Lock(); c.inErr = err; c.cond.Broadcast(); c.mu.Unlock() }
func (c *tconn) block(on bool) { c.mu.Lock(); c.gate = on; c.cond.Broadcast(); c.mu.Unlock() }
func (c *tconn) failWrites(err error) {
	c.mu.Lock()
	c.writeErr = err
	c.cond.Broadcast()
	c.mu.Unlock()
}
func (c *tconn) output() []byte { c.mu.Lock(); defer c.mu.Unlock(); return append([]byte(nil), c.out...) }
func (c *tconn) isClosed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

func (c *tconn) wait(dl time.Time) {
	if !dl.IsZero() {
		t := time.AfterFunc(time.Until(dl), func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
		defer t.Stop()
	}
	c.cond.Wait()
}

func (c *tconn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(c.in) > 0 {
			n := copy(p, c.in)
			c.in = c.in[n:]
			return n, nil
		}
		if c.inErr != nil {
			return 0, c.inErr
		}
		c.wait(c.rdl)
	}
}

func (c *tconn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writes++
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if c.writeErr != nil {
			return 0, c.writeErr
		}
		if !c.gate {
			c.out = append(c.out, p...)
			c.cond.Broadcast()
			return len(p), nil
		}
		c.wait(c.wdl)
	}
}

func (c *tconn) Close() error         { c.mu.Lock(); c.closed = true; c.cond.Broadcast(); c.mu.Unlock(); return nil }
func (c *tconn) LocalAddr() net.Addr  { return &net.TCPAddr{} }
func (c *tconn) RemoteAddr() net.Addr { return &net.TCPAddr{} }
func (c *tconn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *tconn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}
func (c *tconn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}

// recorder is a hijackable response writer over a tconn.
type recorder struct {
	c        *tconn
	h        http.Header
	status   int
	body     []byte
	hijacked bool
}

func newRecorder() *recorder             { return &recorder{c: newTconn(), h: http.Header{}} }
func (r *recorder) Header() http.Header  { return r.h }
func (r *recorder) WriteHeader(code int) {
	if r.status == 0 {
		r.status = code
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}
func (r *recorder) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	r.hijacked = true
	return r.c, bufio.NewReadWriter(bufio.NewReaderSize(r.c, 4096), bufio.NewWriterSize(r.c, 4096)), nil
}

func request() *http.Request {
	r, _ := http.NewRequest("GET", "http://x/ws", nil)
	r.Header.Set("Upgrade", "websocket")
	r.Header.Set("Connection", "Upgrade")
	r.Header.Set("Sec-WebSocket-Version", "13")
	r.Header.Set("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
	return r
}

// resetOut forgets what has been written so far (the handshake response).
func (c *tconn) resetOut() { c.mu.Lock(); c.out = nil; c.mu.Unlock() }

func upgrade(t *testing.T, u *snapws.Upgrader) (*snapws.Conn, *tconn) {
	t.Helper()
	rec := newRecorder()
	conn, err := u.Upgrade(rec, request())
	if err != nil {
		t.Fatal(err)
	}
	rec.c.resetOut()
	return conn, rec.c
}

func connect(t *testing.T, m *snapws.Manager[string], key string) (*snapws.ManagedConn[string], *tconn) {
	t.Helper()
	rec := newRecorder()
	conn, err := m.Connect(key, rec, request())
	if err != nil {
		t.Fatal(err)
	}
	rec.c.resetOut()
	return conn, rec.c
}

var demoKey = [4]byte{0x37, 0xfa, 0x21, 0x3d}

// cframe is a masked client frame.
func cframe(fin bool, op byte, payload []byte) []byte {
	b := []byte{op}
	if fin {
		b[0] |= 0x80
	}
	switch n := len(payload); {
	case n < 126:
		b = append(b, 0x80|byte(n))
	case n < 65536:
		b = append(b, 0x80|126)
		b = binary.BigEndian.AppendUint16(b, uint16(n))
	default:
		b = append(b, 0x80|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	b = append(b, demoKey[:]...)
	for i, c := range payload {
		b = append(b, c^demoKey[i%4])
	}
	return b
}

type sframe struct {
	fin     bool
	op      byte
	payload []byte
}

// sframes parses server frames; ok is false if they are malformed or incomplete.
func sframes(b []byte) (fs []sframe, ok bool) {
	for len(b) > 0 {
		if len(b) < 2 || b[0]&0x70 != 0 || b[1]&0x80 != 0 {
			return fs, false
		}
		f := sframe{fin: b[0]&0x80 != 0, op: b[0] & 15}
		n := int(b[1])
		b = b[2:]
		if f.op >= 8 && (n > 125 || !f.fin) {
			return fs, false
		}
		switch n {
		case 126:
			if len(b) < 2 {
				return fs, false
			}
			n = int(binary.BigEndian.Uint16(b))
			b = b[2:]
			if n < 126 {
				return fs, false
			}
		case 127:
			if len(b) < 8 {
				return fs, false
			}
			n = int(binary.BigEndian.Uint64(b))
			b = b[8:]
			if n < 65536 {
				return fs, false
			}
		}
		if n < 0 || len(b) < n {
			return fs, false
		}
		f.payload = b[:n]
		b = b[n:]
		fs = append(fs, f)
	}
	return fs, true
}

func eventually(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// within reports whether f returns in time.
func within(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

var _ = io.EOF
