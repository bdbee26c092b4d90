// Package h holds the harnesses: each exported function is one symbolic
// execution entry point.
package h

import (
	"bytes"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// respEnd is the length of the handshake response at the start of out.
func respEnd(out []byte) int {
	if len(out) < 12 || string(out[:12]) != "HTTP/1.1 101" {
		sym.Fail("handshake response malformed")
	}
	for i := 12; i+4 <= len(out); i++ {
		if out[i] == '\r' && out[i+1] == '\n' && out[i+2] == '\r' && out[i+3] == '\n' {
			return i + 4
		}
	}
	sym.Fail("handshake response incomplete")
	return 0
}

// Warm runs once per worker so package initialisation is not part of any path.
func Warm() {
	u := snapws.NewUpgrader(small())
	c := fake.NewConn()
	r := fake.NewResponse(c, 64, 64)
	u.Upgrade(r, fake.Request())
}

// small are options that keep buffers small.
func small() *snapws.Options {
	return &snapws.Options{WriteBufferSize: 64, ReadBufferSize: 256, PingEvery: time.Hour, ReadWait: 2 * time.Hour, WriteWait: 5 * time.Second}
}

// dial performs the handshake over a fresh fake transport.
func dial(u *snapws.Upgrader) (*snapws.Conn, *fake.Conn) {
	c := fake.NewConn()
	return dialOn(u, c), c
}

func dialOn(u *snapws.Upgrader, c *fake.Conn) *snapws.Conn {
	return dialBuf(u, c, 256, 64)
}

// dialBuf is dialOn with the given buffer sizes of the HTTP server.
func dialBuf(u *snapws.Upgrader, c *fake.Conn, rbuf, wbuf int) *snapws.Conn {
	conn, err := u.Upgrade(fake.NewResponse(c, rbuf, wbuf), fake.Request())
	if err != nil || conn == nil {
		sym.Fail("upgrade of a valid request failed")
	}
	stripResp(c)
	return conn
}

func stripResp(c *fake.Conn) {
	respEnd(c.Out())
	c.ResetOut()
}

// pickT picks among q in the quick check and among t in the thorough one.
func pickT(name string, q, t []int) int {
	if sym.Tier() == 0 {
		return pickLen(name, q...)
	}
	return pickLen(name, t...)
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

func Smoke() {
	conn, c := dial(snapws.NewUpgrader(small()))
	k := sym.Bytes("k", 4)
	p := sym.Bytes("p", 3)
	c.Feed(fake.Client(true, 2, k, p))
	op, data, err := conn.ReadMessage()
	sym.Assert(err == nil, "no error")
	sym.Assert(op == 2, "binary")
	sym.Assert(eq(data, p), "payload")
	sym.Cover("delivered")
}
