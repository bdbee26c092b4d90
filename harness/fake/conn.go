// Package fake is the environment of the library under check: a scripted
// transport, an HTTP response writer, and a reference frame codec.
package fake

import (
	"bufio"
	"errors"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"harness/sym"
)

var ErrReset = errors.New("fake: connection reset")
var ErrDeadlineSet = errors.New("fake: cannot set deadline")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "fake: i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var ErrTimeout error = timeoutErr{}

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "fake" }

// Conn is a scripted net.Conn. The test feeds Read with Feed/EOF/Reset and
// inspects what was written with Out.
type Conn struct {
	mu   sync.Mutex
	wake chan struct{}

	in   []byte
	rend error // returned when in is exhausted; nil: block
	// Seg, when set, bounds the number of bytes the next Read returns.
	Seg func() int

	out    []byte
	Writes [][]byte
	OutAt  []time.Time

	rdl, wdl    time.Time
	closed      bool
	Closes      int
	ClosedAt    time.Time
	WAfterClose int

	// faults
	WriteFailAt  int // the k-th write from now fails (1 = next), 0 = never
	WritePartial int // bytes accepted by the failing write
	StallAt      int // the k-th write from now blocks until deadline or close
	RdlFailAt    int // the k-th SetReadDeadline fails
	WdlFailAt    int // the k-th SetWriteDeadline fails
	CloseErr     error
	SlowWrite    time.Duration // every write takes this long
	NReads       int
	Stalled      int // writes currently stalled
	Failed       int // write and deadline calls that failed
	RdlNever     bool
	OnWrite      func(p []byte)
	BeforeWrite  func(deadline time.Time) // sees every write with the deadline in force
	Stalled0     time.Time                // when the first write stalled
	Rdls, Wdls   []time.Time
}

func NewConn() *Conn { return &Conn{wake: make(chan struct{})} }

func (c *Conn) signal() {
	close(c.wake)
	c.wake = make(chan struct{})
}

// Feed appends bytes to the inbound stream.
func (c *Conn) Feed(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.signal()
	c.mu.Unlock()
}

// End makes reads return err once the inbound bytes are consumed.
func (c *Conn) End(err error) {
	c.mu.Lock()
	c.rend = err
	c.signal()
	c.mu.Unlock()
}

// EOF is the peer closing its sending side.
func (c *Conn) EOF() { c.End(io.EOF) }

// Unread is the number of inbound bytes not yet consumed.
func (c *Conn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.in)
}

func (c *Conn) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		dl := c.rdl
		if !dl.IsZero() && !time.Now().Before(dl) {
			c.mu.Unlock()
			return 0, ErrTimeout
		}
		if len(p) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if len(c.in) > 0 {
			n := len(c.in)
			if n > len(p) {
				n = len(p)
			}
			if c.Seg != nil {
				if k := c.Seg(); k < n {
					n = k
				}
			}
			copy(p, c.in[:n])
			sym.Touch(p[:n], true)
			c.in = c.in[n:]
			c.NReads++
			c.mu.Unlock()
			return n, nil
		}
		if c.rend != nil {
			err := c.rend
			c.mu.Unlock()
			return 0, err
		}
		w := c.wake
		c.mu.Unlock()
		if dl.IsZero() {
			<-w
			continue
		}
		t := time.NewTimer(time.Until(dl))
		select {
		case <-w:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	sym.Touch(p, false)
	c.mu.Lock()
	if c.closed {
		c.WAfterClose++
		c.mu.Unlock()
		return 0, net.ErrClosed
	}
	if c.BeforeWrite != nil {
		c.BeforeWrite(c.wdl)
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		c.mu.Unlock()
		return 0, ErrTimeout
	}
	if c.StallAt > 0 {
		c.StallAt--
		if c.StallAt == 0 {
			c.StallAt = 1 // stays stalled
			c.Stalled++
			if c.Stalled0.IsZero() {
				c.Stalled0 = time.Now()
			}
			c.Failed++
			err := c.stall()
			c.Stalled--
			c.mu.Unlock()
			return 0, err
		}
	}
	if c.WriteFailAt > 0 {
		c.WriteFailAt--
		if c.WriteFailAt == 0 {
			c.WriteFailAt = 1 // keeps failing
			c.Failed++
			k := c.WritePartial
			if k < 0 { // all but this many bytes
				k = max(0, len(p)+k)
			}
			if k > len(p) {
				k = len(p)
			}
			if k > 0 {
				c.record(p[:k])
			}
			c.WritePartial = 0
			c.mu.Unlock()
			return k, ErrReset
		}
	}
	if d := c.SlowWrite; d > 0 {
		c.mu.Unlock()
		time.Sleep(d)
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
	}
	c.record(p)
	f := c.OnWrite
	c.mu.Unlock()
	if f != nil {
		f(p)
	}
	return len(p), nil
}

// stall blocks a write until the deadline passes or the conn is closed.
func (c *Conn) stall() error {
	for {
		if c.closed {
			return net.ErrClosed
		}
		dl := c.wdl
		w := c.wake
		if !dl.IsZero() && !time.Now().Before(dl) {
			return ErrTimeout
		}
		c.mu.Unlock()
		if dl.IsZero() {
			<-w
		} else {
			t := time.NewTimer(time.Until(dl))
			select {
			case <-w:
			case <-t.C:
			}
			t.Stop()
		}
		c.mu.Lock()
	}
}

func (c *Conn) record(p []byte) {
	q := append([]byte(nil), p...)
	c.Writes = append(c.Writes, q)
	c.OutAt = append(c.OutAt, time.Now())
	c.out = append(c.out, q...)
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.ClosedAt = time.Now()
	c.signal()
	return c.CloseErr
}

func (c *Conn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Out is everything written so far.
func (c *Conn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out
}

// Reset forgets what was written so far.
func (c *Conn) ResetOut() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.out = nil
	c.Writes = nil
	c.OutAt = nil
}

func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	if c.RdlFailAt > 0 {
		c.RdlFailAt--
		if c.RdlFailAt == 0 {
			c.RdlFailAt = 1
			c.Failed++
			return ErrDeadlineSet
		}
	}
	c.rdl = t
	c.Rdls = append(c.Rdls, t)
	c.signal()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	if c.WdlFailAt > 0 {
		c.WdlFailAt--
		if c.WdlFailAt == 0 {
			c.WdlFailAt = 1
			c.Failed++
			return ErrDeadlineSet
		}
	}
	c.wdl = t
	c.Wdls = append(c.Wdls, t)
	c.signal()
	return nil
}

// Response is an http.ResponseWriter that can be hijacked.
type Response struct {
	H         http.Header
	Code      int
	Body      []byte
	C         *Conn
	RBuf      int
	WBuf      int
	Pre       []byte // bytes the HTTP server had already buffered
	HijackErr error
	Hijacked  bool
	Heads     int // WriteHeader calls
	Hijacks   int
}

func (r *Response) Header() http.Header { return r.H }
func (r *Response) WriteHeader(code int) {
	r.Heads++
	if r.Code == 0 {
		r.Code = code
	}
}
func (r *Response) Write(b []byte) (int, error) {
	if r.Code == 0 {
		r.Code = 200
	}
	r.Body = append(r.Body, b...)
	return len(b), nil
}

type prebuf struct {
	b []byte
	c io.Reader
}

func (p *prebuf) Read(b []byte) (int, error) {
	if len(p.b) > 0 {
		n := copy(b, p.b)
		p.b = p.b[n:]
		return n, nil
	}
	return p.c.Read(b)
}

func (r *Response) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	r.Hijacks++
	if r.HijackErr != nil {
		return nil, nil, r.HijackErr
	}
	r.Hijacked = true
	br := bufio.NewReaderSize(&prebuf{r.Pre, r.C}, r.RBuf)
	if len(r.Pre) > 0 {
		br.Peek(1)
	}
	return r.C, bufio.NewReadWriter(br, bufio.NewWriterSize(r.C, r.WBuf)), nil
}

// NewResponse is a response writer whose hijacked buffers have the given sizes.
func NewResponse(c *Conn, rbuf, wbuf int) *Response {
	return &Response{H: http.Header{}, C: c, RBuf: rbuf, WBuf: wbuf}
}

// Key is the Sec-WebSocket-Key of RFC 6455's example.
const Key = "dGhlIHNhbXBsZSBub25jZQ=="
const Accept = "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="

// Request is a valid upgrade request.
func Request() *http.Request {
	return &http.Request{Method: "GET", Header: http.Header{
		"Upgrade":               {"websocket"},
		"Connection":            {"Upgrade"},
		"Sec-Websocket-Version": {"13"},
		"Sec-Websocket-Key":     {Key},
	}}
}
