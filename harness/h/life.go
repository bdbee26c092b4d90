package h

import (
	"context"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// within fails if f does not return within d of (virtual) time.
func within(d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		sym.Fail(what + " blocks")
	}
}

func fatal(err error) bool { return err != nil && snapws.IsFatalErr(err) }

// deadNow is a short form of dead.
func deadNow(conn *snapws.Conn, c *fake.Conn) {
	n := len(c.Out())
	within(time.Second, "SendString on a closed connection", func() {
		sym.Assert(fatal(conn.SendString(nil, []byte("x"))), "SendString on a closed connection: not fatal")
	})
	within(time.Second, "ReadMessage on a closed connection", func() {
		_, _, err := conn.ReadMessage()
		sym.Assert(fatal(err), "ReadMessage on a closed connection: not fatal")
	})
	sym.Assert(len(c.Out()) == n, "bytes written after close")
}

// dead: every operation on a closed connection fails fatally and at once.
func dead(conn *snapws.Conn, c *fake.Conn) {
	n := len(c.Out())
	switch sym.Pick("after", 9) {
	case 0:
		within(time.Second, "ReadMessage on a closed connection", func() {
			_, _, err := conn.ReadMessage()
			sym.Assert(fatal(err), "ReadMessage on a closed connection: not fatal")
		})
	case 1:
		within(time.Second, "NextReader on a closed connection", func() {
			_, _, err := conn.NextReader()
			sym.Assert(fatal(err), "NextReader on a closed connection: not fatal")
		})
	case 2:
		within(time.Second, "SendString on a closed connection", func() {
			sym.Assert(fatal(conn.SendString(nil, []byte("x"))), "SendString on a closed connection: not fatal")
		})
	case 3:
		within(time.Second, "SendJSON on a closed connection", func() {
			sym.Assert(fatal(conn.SendJSON(context.Background(), 1)), "SendJSON on a closed connection: not fatal")
		})
	case 4:
		within(time.Second, "NextWriter on a closed connection", func() {
			_, err := conn.NextWriter(nil, 2)
			sym.Assert(fatal(err), "NextWriter on a closed connection: not fatal")
		})
	case 5:
		within(time.Second, "Ping on a closed connection", func() {
			sym.Assert(fatal(conn.Ping()), "Ping on a closed connection: not fatal")
		})
	case 6:
		within(time.Second, "Close on a closed connection", func() { conn.Close() })
	case 7:
		within(time.Second, "ReadString on a closed connection", func() {
			_, err := conn.ReadString()
			sym.Assert(fatal(err), "ReadString on a closed connection: not fatal")
			_, err = conn.ReadBinary()
			sym.Assert(fatal(err), "ReadBinary on a closed connection: not fatal")
		})
	case 8:
		ctx, cancel := context.WithCancel(context.Background())
		within(time.Second, "SendBytes on a closed connection", func() {
			sym.Assert(fatal(conn.SendBytes(ctx, []byte("x"))), "SendBytes on a closed connection: not fatal")
		})
		cancel()
	}
	sym.Assert(len(c.Out()) == n, "bytes written after close")
}

// ---- C09 ----

// pinger watches the server's pings and answers them.
type pinger struct {
	c    *fake.Conn
	at   []time.Time
	out  int // pings not answered yet
	plan func(i int) int
	bad  bool
}

func (p *pinger) write(b []byte) {
	if b[0] != 0x89 {
		return
	}
	sym.Assert(len(b) == 2 && b[1] == 0, "keep-alive ping is not empty")
	sym.Assert(p.out == 0, "ping sent while one is unanswered")
	p.out++
	i := len(p.at)
	p.at = append(p.at, time.Now())
	switch k := p.plan(i); k {
	case 0: // at once
		p.answer(nil)
	case 1, 2, 3, 6:
		d := late[k]
		go func() {
			time.Sleep(d)
			p.answer(nil)
		}()
	case 4: // never
	case 5:
		p.bad = true
		p.answer([]byte("x"))
	}
}

func (p *pinger) answer(b []byte) {
	p.out--
	p.c.Feed(fake.Client(true, 10, []byte{1, 2, 3, 4}, b))
}

// delays of an answer
var late = []time.Duration{0, time.Second, 9 * time.Second, 13 * time.Second, 0, 0, 24 * time.Second}

// C09Peer: an idle peer that answers the keep-alive pings in various ways.
func C09Peer() {
	o := noUTF8(small())
	const P = 10 * time.Second
	o.PingEvery = P
	o.ReadWait = 25 * time.Second
	hooks := 0
	o.OnDisconnect = func(*snapws.Conn) { hooks++ }
	n := 3
	kinds := make([]int, 64)
	for i := 0; i < n; i++ {
		kinds[i] = sym.Pick("answer", 7)
		if kinds[i] == 6 {
			o.ReadWait = 45 * time.Second
		}
	}
	conn, c := dial(snapws.NewUpgrader(o))
	start := time.Now()
	p := &pinger{c: c}
	p.plan = func(i int) int { return kinds[i] }
	c.OnWrite = p.write
	go func() {
		for {
			_, _, err := conn.ReadMessage()
			if err != nil {
				sym.Assert(snapws.IsFatalErr(err), "read of an idle connection fails with a non-fatal error")
				return
			}
			sym.Fail("control frame delivered as a message")
		}
	}()
	// expected pings, and when the connection goes down
	var want []time.Duration
	free, lastPong := time.Duration(0), time.Duration(0)
	never := false
	down := time.Duration(-1)
	code := 0
	for t := P; t <= 6*P; t += P {
		if never {
			continue
		}
		if t <= free && free > 0 {
			continue // still unanswered
		}
		k := kinds[len(want)]
		want = append(want, t)
		switch k {
		case 0:
			free, lastPong = t, t
		case 1, 2, 3, 6:
			free = t + late[k]
			lastPong = free
		case 4:
			never = true
			down = lastPong + o.ReadWait
		case 5:
			never = true
			down = t
			code = 1002
		}
	}
	time.Sleep(6*P + P/2)
	sym.Idle()
	if down >= 0 && down <= 6*P+P/2 {
		sym.Assert(c.IsClosed(), "silent or misbehaving peer still connected")
		got := c.ClosedAt.Sub(start)
		sym.Assert(got >= down || code == 0, "connection closed too early")
		sym.Assert(got <= down+o.WriteWait, "connection closed too late")
		sym.Assert(hooks == 1, "disconnect hook did not run once")
		c.OnWrite = nil
		if code != 0 {
			sym.Assert(lastClose(c) == code, "wrong close code for a mismatching pong")
			sym.Cover("mismatch")
		} else {
			sym.Cover("silent")
		}
	} else {
		sym.Assert(!c.IsClosed(), "peer that answers every ping was disconnected")
		sym.Cover("alive")
	}
	sym.Assert(len(p.at) == len(want), "number of keep-alive pings differs")
	for i := range want {
		sym.Assert(p.at[i].Sub(start) == want[i], "keep-alive ping at the wrong time")
	}
	conn.Close()
}

// C09Ping: manual pings and any pongs against the outstanding-ping model.
func C09Ping() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	go conn.ReadMessage()
	out, pings, pongs := false, 0, 0
	steps := 5 + sym.Tier()
	for i := 0; i < steps; i++ {
		switch sym.Pick("step", 5) {
		case 4: // a ping of the peer changes nothing
			p := sym.Bytes("peer", 2*(i%2))
			before := len(c.Out())
			c.Feed(cf(nil, true, 9, p))
			sym.Idle()
			fs, rest, bad := fake.Decode(c.Out()[before:])
			sym.Assert(bad == "" && rest == 0 && len(fs) == 1 && fs[0].Op == 10 && eq(fs[0].Payload, p), "ping not answered")
			pongs++
		case 0:
			err := conn.Ping()
			if out {
				sym.Assert(err == snapws.ErrPingAlreadySent, "Ping while one is outstanding: want ErrPingAlreadySent")
			} else {
				if err != nil {
					sym.Fail("Ping with none outstanding failed: " + err.Error())
				}
				out = true
				pings++
			}
		case 1: // empty pong
			c.Feed(cf(nil, true, 10, nil))
			sym.Idle()
			out = false
		case 2: // any pong payload
			n := pickLen("n", 1, 2, 125)
			c.Feed(cf(nil, true, 10, sym.Bytes("pong", n)))
			sym.Idle()
			if out {
				sym.Assert(c.IsClosed(), "mismatching pong does not close the connection")
				sym.Assert(lastClose(c) == 1002, "wrong close code for a mismatching pong")
				sym.Assert(fatal(conn.Ping()), "Ping on a closed connection: not fatal")
				sym.Cover("mismatch")
				return
			}
		case 3:
			i = steps
		}
		sym.Assert(!c.IsClosed(), "connection closed")
	}
	fs, rest, bad := fake.Decode(c.Out())
	sym.Assert(bad == "" && rest == 0 && len(fs) == pings+pongs, "pings on the wire differ from successful Ping calls")
	for _, f := range fs {
		if f.Op == 10 {
			continue
		}
		sym.Assert(f.Op == 9 && len(f.Payload) == 0, "ping malformed")
	}
	sym.Cover("done")
}

// C09Race: concurrent pingers with a peer that answers at once.
func C09Race() {
	o := noUTF8(small())
	tick := sym.Pick("tick", 2) == 1
	if tick {
		o.PingEvery = 10 * time.Second
	}
	conn, c := dial(snapws.NewUpgrader(o))
	kind := sym.Pick("answer", 3)
	p := &pinger{c: c, plan: func(i int) int { return []int{0, 1, 4}[kind] }}
	c.OnWrite = p.write
	go conn.ReadMessage()
	ok := 0
	done := make(chan bool)
	sym.Explore(2 + sym.Tier())
	if tick {
		time.Sleep(10 * time.Second)
	}
	for g := 0; g < 2; g++ {
		go func() {
			for i := 0; i < 2; i++ {
				err := conn.Ping()
				if err == nil {
					ok++
				} else {
					sym.Assert(err == snapws.ErrPingAlreadySent, "concurrent Ping fails")
				}
			}
			done <- true
		}()
	}
	<-done
	<-done
	sym.Idle()
	if tick {
		sym.Assert(len(p.at) == ok || len(p.at) == ok+1, "successful Ping calls differ from pings on the wire")
	} else {
		sym.Assert(len(p.at) == ok, "successful Ping calls differ from pings on the wire")
	}
	switch kind {
	case 0:
		sym.Assert(conn.Ping() == nil, "ping answered at once is still outstanding")
	case 1:
		sym.Assert(conn.Ping() == snapws.ErrPingAlreadySent, "unanswered ping is not outstanding")
		time.Sleep(1500 * time.Millisecond)
		sym.Assert(conn.Ping() == nil, "answered ping is still outstanding")
	case 2:
		sym.Assert(conn.Ping() == snapws.ErrPingAlreadySent, "unanswered ping is not outstanding")
	}
	sym.Assert(!c.IsClosed(), "connection closed")
	sym.Cover("done")
}

// ---- C12 ----

// C12Code: every close code and reason length, in several writer states.
func C12Code() {
	o := noUTF8(small())
	hooks := 0
	o.OnDisconnect = func(*snapws.Conn) { hooks++ }
	conn, c := dial(snapws.NewUpgrader(o))
	state := sym.Pick("state", 4)
	var w *snapws.ConnWriter
	if state > 0 {
		w, _ = conn.NextWriter(nil, 1)
		if state > 1 {
			w.Write([]byte("abc"))
		}
		if state > 2 {
			w.Flush()
		}
	}
	c.ResetOut()
	code := sym.Uint16("code")
	sym.Assume(code < 1012 || code > 1014)
	reason := sym.Bytes("r", pickT("rlen", []int{0, 1, 122, 123, 124, 125, 256, 300}, []int{0, 1, 2, 60, 122, 123, 124, 125, 126, 200, 255, 256, 257, 300, 512, 65537}))
	if sym.Pick("api", 4) == 0 {
		conn.Close()
		code = 1000
		reason = nil
	} else {
		conn.CloseWithCode(code, string(reason))
	}
	sym.Assert(c.IsClosed(), "transport not closed")
	sym.Assert(hooks == 1, "disconnect hook did not run exactly once")
	conn.CloseWithCode(1008, "again")
	conn.Close()
	sym.Assert(hooks == 1, "disconnect hook did not run exactly once")
	sym.Assert(c.WAfterClose == 0, "write after the transport was closed")
	fs, rest, bad := fake.Decode(c.Out())
	if bad != "" {
		sym.Fail("server output malformed: " + bad)
	}
	sym.Assert(rest == 0 && len(fs) == 1 && fs[0].Op == 8, "not exactly one close frame")
	pl := fs[0].Payload
	sym.Assert(len(pl) >= 2, "close frame carries no code")
	got := fake.CloseCode(fs[0])
	if validCode(int(code)) {
		sym.Assert(got == int(code), "close frame carries another code")
		sym.Cover("valid code")
	} else {
		sym.Assert(got == 1001, "code that may not appear on the wire is not replaced by 1001")
		sym.Cover("invalid code")
	}
	if reason != nil {
		if len(reason) <= 123 {
			sym.Assert(len(pl) == 2+len(reason) && eq(pl[2:], reason), "close reason differs")
		} else {
			sym.Assert(len(pl) == 2, "close reason that does not fit is sent")
		}
	}
	if w != nil {
		within(time.Second, "writer of a closed connection", func() {
			err := w.Flush()
			sym.Assert(fatal(err), "Flush on a closed connection: not fatal")
			w.Close()
		})
	}
	dead(conn, c)
}

// C12Many: concurrent closers of every kind, with traffic in flight.
func C12Many() {
	o := noUTF8(small())
	o.WriteBufferSize = 20
	w := newWorld(o, false)
	conn := w.conn.Conn
	w.hooks = 0
	reentrant := sym.Pick("hookcloses", 2) == 1
	w.u.OnDisconnect = func(cn *snapws.Conn) {
		w.hooks++
		if reentrant {
			cn.CloseWithCode(4999, "hook")
		}
	}
	codes := map[int]string{}
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	reads, last := 0, 0
	var runs []func()
	for i := 0; i < n; i++ {
		k := sym.Pick("closer", 5)
		sym.Assume(k >= last)
		last = k
		switch k {
		case 0:
			code := 4000 + i
			reason := string([]byte{byte('A' + i)})
			codes[code] = reason
			runs = append(runs, func() { conn.CloseWithCode(uint16(code), reason) })
		case 1:
			codes[1000] = "*"
			runs = append(runs, conn.Close)
		case 2, 3: // peer closes, or its stream ends
			reads++
			sym.Assume(reads < 2)
			if k == 2 {
				w.c.Feed(fake.Client(true, 8, []byte{9, 8, 7, 6}, []byte{0x0b, 0xb8 + 1, 'z'}))
				codes[3001] = "z"
			} else {
				w.c.EOF()
				codes[-1] = "*"
			}
			runs = append(runs, func() {
				_, _, err := conn.ReadMessage()
				sym.Assert(fatal(err), "read while closing: not fatal")
			})
		case 4:
			runs = append(runs, func() {
				err := conn.SendString(nil, []byte("0123456789"))
				sym.Assert(err == nil || snapws.IsFatalErr(err), "send while closing: non-fatal error")
			})
		}
	}
	sym.Assume(len(codes) > 0)
	sym.Explore(2)
	done := make(chan bool)
	for _, f := range runs {
		go func() {
			f()
			done <- true
		}()
	}
	for range runs {
		<-done
	}
	sym.Idle()
	c := w.c
	sym.Assert(c.IsClosed(), "transport not closed")
	sym.Assert(w.hooks == 1, "disconnect hook did not run exactly once")
	fs, rest, bad := fake.Decode(c.Out())
	if bad != "" {
		sym.Fail("server output malformed: " + bad)
	}
	sym.Assert(rest == 0, "server output ends inside a frame")
	_, ctl, _, bad := fake.Assemble(fs)
	if bad != "" {
		sym.Fail("server output malformed: " + bad)
	}
	sym.Assert(len(ctl) == 1 && ctl[0].Op == 8, "not exactly one close frame")
	got := fake.CloseCode(ctl[0])
	want, ok := codes[got]
	if !ok {
		_, ok = codes[-1] // the library's choice of code for a broken stream
		want = "*"
	}
	sym.Assert(ok, "close frame carries nobody's code")
	sym.Assert(want == "*" || string(ctl[0].Payload[2:]) == want, "close reason of another closer")
	sym.Assert(w.m.Get("k") == nil, "closed connection still registered")
	sym.Cover("closed")
	deadNow(conn, c)
}

// ---- C13 ----

type badJSON struct {
	A int
	F func()
}

// usable: after err the connection is closed, or a later send completes.
func usable(conn *snapws.Conn, c *fake.Conn, err error, what string) {
	if fatal(err) {
		sym.Assert(c.IsClosed(), what+": fatal error but the connection is open")
		sym.Cover("fatal")
		dead(conn, c)
		return
	}
	sym.Assert(!c.IsClosed(), what+": connection closed but the error is not fatal")
	q := sym.Bytes("later", 9)
	within(30*time.Second, what+": later send", func() {
		var e error
		switch sym.Pick("later", 3) {
		case 0:
			e = conn.SendBytes(nil, q)
		case 1:
			var w *snapws.ConnWriter
			w, e = conn.NextWriter(context.Background(), 2)
			if e == nil {
				w.Write(q[:4])
				w.Flush()
				w.Write(q[4:])
				e = w.Close()
			}
		case 2:
			e = conn.SendJSON(nil, []int{1})
			if e == nil {
				e = conn.SendBytes(nil, q)
			}
		}
		if e != nil {
			sym.Fail(what + ": later send failed: " + e.Error())
		}
	})
	ms, _, open := wire(c)
	sym.Assert(open == 0 && len(ms) > 0, what+": unfinished message on the wire")
	last := ms[len(ms)-1]
	sym.Assert(last.Op == 2 && eq(last.Data, q), what+": later message differs")
	sym.Cover("usable")
}

// C13Fail: sends that fail in every way short of the transport.
func C13Fail() {
	o := noUTF8(small())
	o.WriteBufferSize = pickLen("wbuf", 19, 64)
	o.DisableWriteBuffersPooling = sym.Pick("nopool", 2) == 1
	conn, c := dial(snapws.NewUpgrader(o))
	ctx, cancel := context.WithCancel(context.Background())
	p := sym.Bytes("p", 12)
	var err error
	what := ""
	sent := []byte(nil)
	switch sym.Pick("fail", 8) {
	case 0:
		what = "JSON encoding error"
		err = conn.SendJSON(nil, badJSON{})
		sym.Assert(err != nil, "SendJSON of a value that cannot be encoded succeeds")
		sym.Assert(!snapws.IsFatalErr(err), "JSON encoding error is fatal")
	case 1:
		what = "JSON encoding error with a context"
		err = conn.SendJSON(ctx, make(chan int))
		sym.Assert(err != nil && !snapws.IsFatalErr(err), "SendJSON of a channel")
	case 2:
		what = "context cancelled before SendBytes"
		cancel()
		err = conn.SendBytes(ctx, p)
		sent = p
	case 3:
		what = "context cancelled before SendJSON"
		cancel()
		err = conn.SendJSON(ctx, "0123456789")
	case 4:
		what = "context cancelled while streaming"
		w, e := conn.NextWriter(ctx, 1)
		sym.Assert(e == nil, "NextWriter")
		at := sym.Pick("at", 4)
		var first error
		for i := 0; i < 3; i++ {
			if i == at {
				cancel()
			}
			if _, e := w.Write(p[4*i : 4*i+4]); e != nil && first == nil {
				first = e
			}
			if sym.Pick("flush", 2) == 1 {
				if e := w.Flush(); e != nil && first == nil {
					first = e
				}
			}
		}
		if at == 3 {
			cancel()
		}
		err = w.Close()
		if err == nil && first != nil && !snapws.IsFatalErr(first) {
			// Close finished what could be finished
			what = "partly failed stream"
		}
		if err == nil && first != nil && snapws.IsFatalErr(first) {
			err = first
		}
	case 5:
		what = "context done before the writer is free"
		w, _ := conn.NextWriter(nil, 2)
		w.Write(p)
		done := make(chan bool)
		go func() {
			err = conn.SendString(ctx, p)
			done <- true
		}()
		sym.Idle()
		cancel()
		<-done
		sym.Assert(err == context.Canceled, "cancelled waiter does not return the context's error")
		sym.Assert(w.Close() == nil, "writer broken by a cancelled waiter")
	case 6:
		what = "context done while the transport is busy"
		c.SlowWrite = time.Second
		go conn.Ping()
		sym.Idle()
		tctx, tc := context.WithTimeout(context.Background(), 500*time.Millisecond)
		err = conn.SendBytes(tctx, p)
		tc()
		sent = p
		c.SlowWrite = 0
		time.Sleep(2 * time.Second)
	case 7:
		what = "context done while streaming on a busy transport"
		tctx, tc := context.WithTimeout(context.Background(), 500*time.Millisecond)
		w, e := conn.NextWriter(tctx, 2)
		sym.Assert(e == nil, "NextWriter")
		w.Write(p[:3])
		if sym.Pick("flushed", 2) == 1 {
			w.Flush()
		}
		c.SlowWrite = time.Second
		go conn.Ping()
		sym.Idle()
		w.Write(p[3:])
		err = w.Close()
		tc()
		c.SlowWrite = 0
		time.Sleep(2 * time.Second)
	}
	if err == nil {
		sym.Cover("succeeded")
		if sent != nil {
			ms, _, _ := wire(c)
			sym.Assert(len(ms) == 1 && eq(ms[0].Data, sent), what+": message reported as sent is not on the wire")
		}
	} else if sent != nil {
		fs, rest, bad := fake.Decode(c.Out())
		sym.Assert(bad == "" && rest == 0, "server output malformed")
		ms, _, _, bad := fake.Assemble(fs)
		sym.Assert(bad == "" && len(ms) == 0, what+": message reported as failed is on the wire")
	}
	usable(conn, c, err, what)
	cancel()
}

// ---- C14 ----

type faults struct {
	kind, at, partial int
}

func pickFault(c *fake.Conn) faults {
	f := faults{kind: sym.Pick("fault", 4)}
	f.at = 1 + sym.Pick("at", 2)
	switch f.kind {
	case 0:
		c.WriteFailAt = f.at
		c.WritePartial = pickT("partial", []int{0, 2}, []int{0, 1, 2, 3})
	case 1:
		c.StallAt = f.at
	case 2:
		c.WdlFailAt = f.at
	case 3:
		c.WriteFailAt = f.at
		c.WdlFailAt = f.at + 1
		c.CloseErr = fake.ErrReset
	}
	return f
}

// C14Op: a transport fault in every kind of operation.
func C14Op() {
	o := concOpts()
	op := sym.Pick("op", 10)
	if op == 6 {
		o.PingEvery = 10 * time.Second
	}
	w := newWorld(o, op == 7)
	conn, c := w.conn.Conn, w.c
	// another goroutine may be in the way
	other := sym.Pick("other", 3)
	if op == 7 && other == 1 || op == 4 || op == 9 {
		sym.Assume(other == 0)
	}
	pickFault(c)
	if sym.Tier() > 0 || other > 0 && op != 6 && op != 7 {
		sym.Explore(1)
	}
	wait := func() {}
	if other > 0 {
		ch := make(chan bool)
		go func() {
			if other == 1 {
				wr, err := conn.NextWriter(nil, 2)
				if err == nil {
					wr.Write([]byte("abc"))
					wr.Flush()
					time.Sleep(time.Millisecond)
					wr.Write([]byte("de"))
					wr.Close()
				}
			} else {
				conn.SendString(nil, []byte("0123456789"))
			}
			close(ch)
		}()
		wait = func() { <-ch }
	}
	var err error
	sent := true
	within(60*time.Second, "operation on a failing transport", func() {
		switch op {
		case 0:
			err = conn.SendBytes(context.Background(), []byte("abc"))
		case 1:
			err = conn.SendString(nil, []byte("0123456789abc"))
		case 2:
			err = conn.SendJSON(nil, "0123456789")
		case 3:
			wr, e := conn.NextWriter(nil, 1)
			err = e
			if e == nil {
				wr.Write([]byte("abc"))
				wr.Flush()
				wr.Write([]byte("de"))
				err = wr.Close()
			}
		case 4:
			w.m.BroadcastString(nil, []byte("abc"))
			sym.Idle()
			w.m.BroadcastString(nil, []byte("def"))
			time.Sleep(30 * time.Second)
			sent = false
		case 5:
			err = conn.Ping()
		case 6:
			sent = false
			time.Sleep(45 * time.Second)
		case 7:
			conn.Batch([]byte("abc"))
			time.Sleep(time.Second)
			conn.Batch([]byte("defghijklmn"))
			time.Sleep(30 * time.Second)
			sent = false
		case 8:
			conn.Close()
			sent = false
		case 9:
			s := cf(nil, true, 9, []byte("p1"))
			s = cf(s, true, 9, []byte("p2"))
			c.Feed(cf(s, true, 2, []byte("m")))
			_, _, err = conn.ReadMessage()
		}
		wait()
	})
	sym.Idle()
	if c.Failed > 0 || op == 8 {
		sym.Assert(c.IsClosed(), "transport failed but the connection is not closed")
		sym.Assert(w.hooks == 1, "transport failed but the disconnect hook did not run once")
		sym.Assert(w.m.Get("k") == nil, "transport failed but the connection is still registered")
		sym.Cover("failed")
		if sent && err != nil {
			sym.Assert(snapws.IsFatalErr(err), "transport error is not fatal")
		}
		deadNow(conn, c)
		return
	}
	sym.Assert(!c.IsClosed(), "connection closed though nothing failed")
	if sent && err != nil {
		sym.Fail("operation failed though nothing failed: " + err.Error())
	}
	sym.Cover("not reached")
}

// C14Close: closing while others hold or wait for the connection's locks and
// the transport fails or stalls.
func C14Close() {
	o := concOpts()
	w := newWorld(o, false)
	conn, c := w.conn.Conn, w.c
	w.u.OnDisconnect = func(cn *snapws.Conn) {
		w.hooks++
		cn.Close()
	}
	wr, err := conn.NextWriter(nil, 2)
	sym.Assert(err == nil, "NextWriter")
	wr.Write([]byte("abc"))
	k := sym.Pick("fault", 4)
	switch k {
	case 1:
		c.WriteFailAt = 1
		c.WritePartial = 1
	case 2:
		c.StallAt = 1
	case 3:
		c.WdlFailAt = 1
	}
	if k < 2 || sym.Tier() > 0 {
		sym.Explore(2)
	} else {
		sym.Explore(1)
	}
	var runs []func()
	runs = append(runs, func() { // the streaming goroutine goes on
		wr.Flush()
		wr.Write([]byte("de"))
		wr.Close()
	})
	switch sym.Pick("other", 4) {
	case 0:
		runs = append(runs, func() { conn.SendString(nil, []byte("x")) })
	case 1:
		runs = append(runs, func() { conn.Ping() })
	case 2:
		runs = append(runs, func() { w.m.BroadcastString(nil, []byte("b")) })
	case 3:
		c.Feed(cf(nil, true, 9, []byte("p")))
		runs = append(runs, func() { conn.ReadMessage() })
	}
	runs = append(runs, conn.Close)
	within(60*time.Second, "closing", func() {
		ch := make(chan bool)
		for _, f := range runs {
			go func() {
				f()
				ch <- true
			}()
		}
		for range runs {
			<-ch
		}
	})
	sym.Idle()
	sym.Assert(c.IsClosed(), "connection not closed")
	sym.Assert(c.Closes >= 1, "transport's Close not called")
	sym.Assert(w.hooks == 1, "disconnect hook did not run once")
	sym.Assert(w.m.Get("k") == nil, "closed connection still registered")
	sym.Cover("closed")
}

// C14Hook: closing from inside any of the hooks the library calls.
func C14Hook() {
	o := noUTF8(small())
	o.MaxMessageSize = 20
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	u.Limiter = snapws.NewRateLimiter(1, 1)
	hook := sym.Pick("hook", 11)
	way := sym.Pick("way", 3)
	cause := 0
	if hook == 1 || hook == 4 || hook == 6 {
		cause = sym.Pick("cause", 6)
	}
	discon, ran := 0, 0
	var r *snapws.Room[string]
	act := func(conn *snapws.Conn) {
		ran++
		m.Get("k")
		m.GetAllConns()
		rm.GetRoomKeys()
		if r != nil {
			r.GetAllConns()
		}
		switch way {
		case 0:
			conn.Close()
		case 1:
			conn.CloseWithCode(4001, "x")
			conn.Close()
		case 2: // another goroutine closes, the hook waits for it
			ch := make(chan bool)
			go func() {
				conn.Close()
				close(ch)
			}()
			<-ch
		}
	}
	o.OnDisconnect = func(conn *snapws.Conn) {
		discon++
		if hook == 1 {
			act(conn)
		}
	}
	switch hook {
	case 0:
		u.Limiter.OnRateLimitHit = func(conn *snapws.Conn) error {
			act(conn)
			return snapws.ErrTest
		}
	case 2:
		o.OnConnect = act
	case 3:
		m.OnRegister = func(mc *snapws.ManagedConn[string]) { act(mc.Conn) }
	case 4:
		m.OnUnregister = func(mc *snapws.ManagedConn[string]) { act(mc.Conn) }
	case 5:
		rm.DefaultOnJoin = func(_ *snapws.Room[string], conn *snapws.Conn, _ ...any) { act(conn) }
	case 6:
		rm.DefaultOnLeave = func(_ *snapws.Room[string], conn *snapws.Conn, _ ...any) { act(conn) }
	case 7:
		u.EnableJSONBatching(nil, flushEvery)
		u.Flusher.BatchPrefixFunc = func(conn *snapws.Conn, _ [][]byte) []byte { act(conn); return nil }
	case 8:
		u.EnablePrefixBatching(nil, flushEvery)
		u.Flusher.BatchSuffixFunc = func(conn *snapws.Conn, _ [][]byte) []byte { act(conn); return nil }
	case 9:
		u.EnableBatching(nil, flushEvery, func(_ context.Context, conn *snapws.Conn, _ [][]byte) error { act(conn); return nil })
	case 10: // leave hooks of RemoveAll
		rm.DefaultOnLeave = func(_ *snapws.Room[string], conn *snapws.Conn, _ ...any) { act(conn) }
	}
	c := fake.NewConn()
	sym.Explore(1)
	within(60*time.Second, "closing from a hook", func() {
		mc, err := m.Connect("k", fake.NewResponse(c, 256, 64), fake.Request())
		if err != nil {
			sym.Fail("connect failed")
		}
		room := rm.Add("r")
		room.Add(mc.Conn)
		r = room
		switch hook {
		case 0:
			c.Feed(cf(cf(nil, true, 2, []byte("a")), true, 2, []byte("b")))
			mc.ReadMessage()
			_, _, err := mc.ReadMessage()
			sym.Assert(fatal(err), "rate limit hook error not fatal")
		case 1, 4, 6:
			switch cause {
			case 0:
				mc.Close()
			case 1: // protocol error
				c.Feed(cf(nil, true, 3, nil))
			case 2: // the peer closes
				c.Feed(cf(nil, true, 8, []byte{3, byte(0xe8 + sym.Pick("code", 2))}))
			case 3:
				c.EOF()
			case 4: // too big
				c.Feed(cf(nil, true, 2, make([]byte, 21)))
			case 5:
				c.WriteFailAt = 1
				sym.Assert(mc.SendBytes(nil, []byte("x")) != nil, "send over a broken transport succeeded")
			}
			if cause != 0 && cause != 5 {
				_, _, err := mc.ReadMessage()
				sym.Assert(fatal(err), "the connection does not end")
			}
		case 7, 8, 9:
			mc.Batch([]byte("1"))
			time.Sleep(3 * flushEvery)
		case 10:
			room.RemoveAll()
		}
	})
	sym.Idle()
	sym.Assert(ran == 1, "hook did not run exactly once")
	sym.Assert(c.IsClosed() && c.Closes >= 1, "transport's Close not called")
	sym.Assert(discon == 1, "disconnect hook did not run exactly once")
	sym.Assert(m.Get("k") == nil, "closed connection still registered")
	sym.Assert(len(r.GetAllConns()) == 0, "closed connection is in a room")
	sym.Cover("closed")
}
