package h

import (
	"context"
	"errors"
	"net/http"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// ---- C15 ----

func lifeOpts() *snapws.Options {
	o := noUTF8(small())
	o.WriteBufferSize = 20
	o.WriteWait = time.Second
	o.ReadWait = 4 * time.Second
	o.PingEvery = 3 * time.Second
	return o
}

// C15Leak: every kind of connection closed for every reason at several points.
func C15Leak() {
	o := lifeOpts()
	u := snapws.NewUpgrader(o)
	kind := sym.Pick("kind", 3) // plain, managed, room
	batch := sym.Pick("batch", 2) == 1
	u.Limiter = snapws.NewRateLimiter(100, 100)
	if batch {
		u.EnableJSONBatching(nil, 500*time.Millisecond)
	}
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	sym.Idle()
	before := sym.Goroutines()
	c := fake.NewConn()
	var conn *snapws.Conn
	var room *snapws.Room[string]
	var err error
	r := fake.NewResponse(c, 256, 64)
	switch kind {
	case 0:
		conn, err = u.Upgrade(r, fake.Request())
	case 1:
		var mc *snapws.ManagedConn[string]
		mc, err = m.Connect("k", r, fake.Request())
		if err == nil {
			conn = mc.Conn
		}
	case 2:
		conn, room, err = rm.Connect(r, fake.Request(), "r")
	}
	if err != nil {
		sym.Fail("connect failed")
	}
	// the point of its life
	point := sym.Pick("point", 9)
	sym.Assume(point != 8 || batch)
	reason := sym.Pick("reason", 6)
	reading := reason == 1 || reason == 2 || reason == 4
	if sym.Tier() > 0 || point >= 3 {
		sym.Explore(1)
	}
	var w *snapws.ConnWriter
	switch point {
	case 1:
		conn.SendString(nil, []byte("0123456789"))
	case 2:
		conn.Ping()
	case 3:
		if batch {
			conn.Batch([]byte("1"))
			conn.Batch([]byte("2"))
		}
	case 4:
		switch kind {
		case 1:
			m.BroadcastString(nil, []byte("x"))
			m.BatchBroadcast(nil, []byte("3"))
		case 2:
			room.BroadcastString(nil, []byte("x"))
			room.BatchBroadcast(nil, []byte("3"))
		}
	case 5: // a writer is held, others wait for it
		w, _ = conn.NextWriter(nil, 1)
		w.Write([]byte("abc"))
		go conn.SendString(nil, []byte("y"))
		if batch {
			conn.Batch([]byte("1"))
			time.Sleep(1100 * time.Millisecond)
		}
	case 6: // inside a message
		c.Feed(fake.Client(false, 2, []byte{1, 2, 3, 4}, []byte{1, 2}))
		conn.NextReader()
	case 8: // the flusher ends first
		conn.Batch([]byte("1"))
		u.Flusher.Close()
	case 7: // the transport is stuck
		c.StallAt = 1
		go conn.SendString(nil, []byte("y"))
		if kind == 1 {
			m.BroadcastString(nil, []byte("x"))
		}
	}
	if reading {
		go func() {
			for {
				if _, _, err := conn.ReadMessage(); err != nil {
					return
				}
			}
		}()
	}
	switch reason {
	case 0:
		conn.Close()
	case 1:
		if point == 6 {
			c.Feed(fake.Client(true, 0, []byte{1, 2, 3, 4}, nil))
		}
		c.Feed(fake.Client(true, 8, []byte{1, 2, 3, 4}, nil))
	case 2:
		c.EOF()
	case 3:
		if c.StallAt == 0 {
			c.WriteFailAt = 1
		}
		conn.SendString(cancelled(3*time.Second), []byte("z"))
		if point == 5 {
			w.Flush()
		}
	case 4: // silence
		time.Sleep(5 * time.Second)
	case 5:
		switch kind {
		case 0:
			go conn.Close()
			conn.CloseWithCode(4000, "x")
		case 1: // replaced
			c2 := fake.NewConn()
			mc2, err := m.Connect("k", fake.NewResponse(c2, 256, 64), fake.Request())
			sym.Assert(err == nil, "second connect failed")
			m.Shutdown()
			_ = mc2
		case 2:
			rm.Shutdown()
		}
	}
	time.Sleep(10 * time.Second)
	sym.Idle()
	sym.Assert(c.IsClosed(), "connection not closed")
	if n := sym.Goroutines(); n != before && (point != 8 || n > before) {
		sym.Note(sym.Stacks())
		sym.Fail("goroutine left running after the connection closed")
	}
	sym.Assert(!sym.Reaches(u.Limiter, conn), "closed connection still referenced by the rate limiter")
	if batch {
		sym.Assert(!sym.Reaches(u.Flusher, conn), "closed connection still referenced by the batch flusher")
	}
	sym.Cover("closed")
}

// C15Limit: a connection that closes while its messages are rated, batched, broadcast
// to, joined to rooms or registered is not kept.
func C15Limit() {
	u := snapws.NewUpgrader(lifeOpts())
	u.Limiter = snapws.NewRateLimiter(2, 2)
	u.EnablePrefixBatching(nil, 500*time.Millisecond)
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	r := rm.Add("r")
	sym.Idle()
	before := sym.Goroutines()
	conn, c := dial(u)
	other, c2 := dial(u)
	c.Feed(fake.Client(true, 2, []byte{1, 2, 3, 4}, []byte{1}))
	c.Feed(fake.Client(true, 2, []byte{1, 2, 3, 4}, []byte{2}))
	sym.Explore(1 + sym.Tier())
	done := make(chan bool, 4)
	n := 2
	op := sym.Pick("op", 5)
	go func() {
		switch op {
		case 0:
			conn.ReadMessage()
			conn.ReadMessage()
		case 1:
			conn.Batch([]byte("a"))
			u.Flusher.Close()
		case 2:
			r.Add(conn)
			r.BatchBroadcast(nil, []byte("b"))
		case 3:
			r.Add(conn)
			r.Remove(conn)
		case 4:
			rm.Connect(fake.NewResponse(c2, 256, 64), fake.Request(), "q")
		}
		done <- true
	}()
	go func() {
		conn.Close()
		done <- true
	}()
	for range n {
		<-done
	}
	other.Close()
	c2.Close()
	rm.Shutdown()
	time.Sleep(10 * time.Second)
	sym.Idle()
	if k := sym.Goroutines(); op != 1 && k != before || op == 1 && k > before {
		sym.Note(sym.Stacks())
		sym.Fail("goroutine left running after the connection closed")
	}
	for _, x := range []any{u.Limiter, u.Flusher, m, rm, r} {
		sym.Assert(!sym.Reaches(x, conn), "closed connection still referenced")
	}
	sym.Cover("closed")
}

// C15Swap: batching or rate limiting is reconfigured while connections are open.
func C15Swap() {
	o := lifeOpts()
	u := snapws.NewUpgrader(o)
	u.EnableJSONBatching(nil, 500*time.Millisecond)
	u.Limiter = snapws.NewRateLimiter(3, 3)
	old, oldLim := u.Flusher, u.Limiter
	conn, c := dial(u)
	if sym.Pick("before", 2) == 1 {
		conn.Batch([]byte("1"))
	}
	switch sym.Pick("how", 3) {
	case 0:
		u.EnablePrefixBatching(nil, 500*time.Millisecond)
	case 1:
		old.Close()
		u.EnablePrefixBatching(nil, 500*time.Millisecond)
	case 2:
		u.Flusher = nil
	}
	next, c2 := dial(u)
	if u.Flusher != nil {
		next.Batch([]byte("2"))
	}
	conn.Batch([]byte("3"))
	time.Sleep(time.Duration(sym.Pick("wait", 2)) * 700 * time.Millisecond)
	conn.Close()
	next.Close()
	time.Sleep(3 * time.Second)
	sym.Idle()
	for _, x := range []any{old, u, oldLim} {
		for _, k := range []*snapws.Conn{conn, next} {
			sym.Assert(!sym.Reaches(x, k), "closed connection still referenced by a flusher or rate limiter")
		}
	}
	sym.Assert(c.IsClosed() && c2.IsClosed(), "connection not closed")
	sym.Cover("closed")
}

// cancelled is a context that ends after d.
func cancelled(d time.Duration) context.Context {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	_ = cancel
	return ctx
}

// C15Handshake: an upgrade that fails after the hijack leaves nothing behind.
func C15Handshake() {
	o := lifeOpts()
	u := snapws.NewUpgrader(o)
	u.Limiter = snapws.NewRateLimiter(1, 1)
	u.EnableJSONBatching(nil, 500*time.Millisecond)
	sym.Idle()
	before := sym.Goroutines()
	c := fake.NewConn()
	r := fake.NewResponse(c, 256, 64)
	fail := sym.Pick("fail", 5)
	switch fail {
	case 0:
		c.WriteFailAt = 1
		c.WritePartial = pickLen("partial", 0, 1, 200)
	case 1:
		c.WdlFailAt = 1
	case 2:
		c.StallAt = 1
	case 3:
		r.HijackErr = errors.New("no hijack")
	case 4:
		u.Use(func(http.ResponseWriter, *http.Request) error { return errors.New("refused") })
	}
	var conn *snapws.Conn
	var err error
	within(time.Minute, "Upgrade", func() { conn, err = u.Upgrade(r, fake.Request()) })
	if fail != 1 {
		sym.Assert(err != nil, "upgrade succeeded though the response was not written")
	}
	if err == nil {
		conn.Close()
	}
	time.Sleep(10 * time.Second)
	sym.Idle()
	sym.Assert(sym.Goroutines() == before, "goroutine left running after a failed upgrade")
	sym.Assert(!sym.Reaches(u.Limiter, c), "connection of a failed upgrade still referenced by the rate limiter")
	sym.Assert(!sym.Reaches(u.Flusher, c), "connection of a failed upgrade still referenced by the batch flusher")
	if fail < 3 {
		sym.Assert(c.IsClosed(), "transport of a failed upgrade not closed")
	}
	sym.Cover("failed")
}

// ---- C16 ----

// C16Pool: operations on a connection that closes never touch another one.
func C16Pool() {
	o := noUTF8(small())
	o.WriteBufferSize = 24
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[string](u)
	ca := fake.NewConn()
	ma, err := m.Connect("a", fake.NewResponse(ca, 256, 64), fake.Request())
	if err != nil {
		sym.Fail("connect failed")
	}
	a := ma.Conn
	// A's writer
	p := sym.Bytes("p", 8)
	state := sym.Pick("a", 5)
	var w *snapws.ConnWriter
	if state > 0 {
		w, _ = a.NextWriter(nil, 1)
		w.Write(p[:4])
	}
	switch state {
	case 2:
		w.Flush()
	case 3:
		w.Close()
	case 4:
		ca.StallAt = 1
		go w.Flush()
		sym.Idle()
	}
	fail := state != 4 && sym.Pick("fail", 2) == 1
	if fail {
		ca.WriteFailAt = 1
	}
	k := sym.Pick("abuse", 7)
	if sym.Tier() == 0 {
		sym.Assume(k < 3 || k == 6 || !fail && (k == 4 || state == 0))
	}
	early, wait := sym.Pick("early", 2) == 1, sym.Pick("wait", 2) == 1
	if sym.Tier() == 0 {
		// B connecting before or after makes no difference once A is closed
		sym.Assume(!(wait && early))
		sym.Assume(early || state != 0)
	}
	if !wait {
		sym.Explore(1 + sym.Tier())
	} else {
		sym.Explore(sym.Tier())
	}
	var b *snapws.Conn
	cb := fake.NewConn()
	if early {
		b = dialOn(u, cb)
	}
	closing := make(chan bool)
	go func() {
		a.CloseWithCode(4000, "bye")
		close(closing)
	}()
	if wait {
		<-closing
	}
	if !early {
		b = dialOn(u, cb)
	}
	// B opens a message while A is misused
	x, y := sym.Bytes("x", 6), sym.Bytes("y", 11)
	wb, err := b.NextWriter(nil, 2)
	if err != nil {
		sym.Fail("other connection cannot send: " + err.Error())
	}
	wb.Write(x)
	abuse := make(chan bool)
	go func() {
		switch k {
		case 0:
			a.SendBytes(nil, p)
		case 1:
			if w != nil && state != 4 {
				w.Write(p)
				w.Flush()
			}
		case 2:
			if w != nil && state != 4 {
				w.Close()
			}
			a.Close()
		case 3:
			a.SendJSON(nil, "zzzzzz")
		case 4:
			m.BroadcastString(nil, p)
			sym.Idle()
		case 5:
			a.Ping()
		case 6:
			if wa, err := a.NextWriter(nil, 1); err == nil {
				wa.Write(p)
				wa.Close()
			}
		}
		close(abuse)
	}()
	sym.Assert(wb.Flush() == nil, "other connection: Flush failed")
	wb.Write(y)
	sym.Assert(wb.Close() == nil, "other connection: Close failed")
	z := sym.Bytes("z", 3)
	cb.Feed(fake.Client(true, 2, []byte{5, 6, 7, 8}, z))
	_, got, err := b.ReadMessage()
	sym.Assert(err == nil && eq(got, z), "other connection: incoming message changed")
	<-abuse
	<-closing
	sym.Idle()
	sent(cb, []msg{{2, append(append([]byte(nil), x...), y...)}})
	// A's own output contains only A's bytes
	_, _, _, bad := assembleTo(ca)
	sym.Assert(bad == "", "closed connection's output malformed")
	// and a third connection, which may get A's buffer, together with B
	cc := fake.NewConn()
	cn := dialOn(u, cc)
	wc, err := cn.NextWriter(nil, 1)
	sym.Assert(err == nil, "third connection cannot send")
	wc.Write(z)
	sym.Assert(b.SendBytes(nil, x) == nil, "other connection cannot send")
	if w != nil {
		w.Write(p)
		w.Close()
	}
	a.SendBytes(nil, p)
	sym.Assert(wc.Close() == nil, "third connection: Close failed")
	sent(cc, []msg{{1, z}})
	sent(cb, []msg{{2, append(append([]byte(nil), x...), y...)}, {2, x}})
	sym.Cover("done")
}

// C16Race: a send on a connection at any point of its close, while a new connection
// takes over the buffer and fills it.
func C16Race() {
	o := noUTF8(small())
	o.WriteBufferSize = 24
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[string](u)
	ca := fake.NewConn()
	ma, err := m.Connect("a", fake.NewResponse(ca, 256, 64), fake.Request())
	if err != nil {
		sym.Fail("connect failed")
	}
	a := ma.Conn
	p, x := sym.Bytes("p", 8), sym.Bytes("x", 7)
	api, how := sym.Pick("api", 6), sym.Pick("how", 3)
	if sym.Tier() == 0 {
		sym.Assume((api == 0 || api == 3 || api == 5) && how != 1)
	}
	if how == 1 {
		ca.WriteFailAt = 1
	}
	sym.Explore(2 + sym.Tier())
	done := make(chan bool)
	go func() {
		switch api {
		case 0:
			a.SendBytes(nil, p)
		case 1:
			a.SendJSON(context.Background(), "zzzzzz")
		case 2, 3:
			w, err := a.NextWriter(nil, 1)
			if err != nil {
				break
			}
			w.Write(p[:5])
			w.Flush()
			w.Write(p[5:])
			if api == 2 {
				w.Close()
			}
			w.Write(p[:2])
		case 4:
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			a.SendString(ctx, p)
			cancel()
		case 5:
			m.BroadcastBytes(nil, p)
			sym.Idle()
		}
		done <- true
	}()
	if how == 2 {
		ca.EOF()
		a.ReadMessage()
	} else {
		a.CloseWithCode(4000, "bye")
	}
	cb := fake.NewConn()
	b := dialOn(u, cb)
	w, err := b.NextWriter(nil, 2)
	if err != nil {
		sym.Fail("other connection cannot send: " + err.Error())
	}
	w.Write(x)
	<-done
	sym.Assert(w.Close() == nil, "other connection: Close failed")
	sent(cb, []msg{{2, x}})
	_, _, _, bad := assembleTo(ca)
	sym.Assert(bad == "", "closed connection's output malformed")
	sym.Cover("done")
}

func assembleTo(c *fake.Conn) ([]fake.Msg, []fake.Frame, int, string) {
	fs, _, bad := fake.Decode(stripped(c.Out()))
	if bad != "" {
		return nil, nil, 0, bad
	}
	return fake.Assemble(fs)
}

// stripped removes a handshake response.
func stripped(b []byte) []byte {
	if len(b) > 4 && string(b[:4]) == "HTTP" {
		for i := 0; i+4 <= len(b); i++ {
			if string(b[i:i+4]) == "\r\n\r\n" {
				return b[i+4:]
			}
		}
	}
	return b
}

// ---- C30 ----

// C30Seq: sequences of operations with transport faults; every result obeys
// the error contract.
func C30Seq() {
	o := lifeOpts()
	o.PingEvery = time.Hour
	o.ReadWait = 2 * time.Second
	batch := sym.Pick("batch", 2) == 1
	u := snapws.NewUpgrader(o)
	u.Limiter = snapws.NewRateLimiter(1, 3)
	if batch {
		u.EnablePrefixBatching(nil, time.Hour)
	}
	conn, c := dial(u)
	fault := sym.Pick("fault", 5)
	at := 0
	if fault > 0 {
		at = 1 + sym.Pick("at", 2+sym.Tier())
	}
	switch fault {
	case 1:
		c.WriteFailAt = at
		c.WritePartial = -sym.Pick("short", 2) // nothing, or all but one byte
	case 2:
		c.WdlFailAt = at
	case 3:
		c.RdlFailAt = at
	case 4:
		c.StallAt = at
	}
	key := []byte{1, 2, 3, 4}
	stop := func(err error, what string, send bool) bool {
		errState(c, err, what)
		if err == nil {
			return false
		}
		if fatal(err) {
			sym.Cover("fatal")
			dead(conn, c)
			return true
		}
		sym.Cover("non-fatal")
		return false
	}
	messages := func() int {
		ms, _, _, bad := assembleTo(c)
		sym.Assert(bad == "", "server output malformed")
		return len(ms)
	}
	for i := 0; i < 2+sym.Tier(); i++ {
		n := messages()
		sends := 0
		var err error
		op := sym.Pick("op", 18)
		switch op {
		case 17:
			if sym.Pick("api", 2) == 1 {
				_, err = conn.NextWriter(nil, 9)
			} else {
				err = conn.SendMessage(nil, 0, []byte("x"))
			}
			sym.Assert(err != nil, "send with an opcode that is not a data opcode succeeds")
		case 0:
			err, sends = conn.SendString(nil, []byte("0123456789")), 1
		case 1:
			err, sends = conn.SendBytes(cancelledNow(), []byte("0123456789")), 1
		case 2:
			err, sends = conn.SendJSON(nil, "abc"), 1
		case 3:
			err = conn.SendJSON(nil, badJSON{})
			sym.Assert(err != nil, "SendJSON of a value that cannot be encoded succeeds")
		case 4:
			err = conn.Ping()
		case 5:
			c.Feed(fake.Client(true, 1, key, []byte("{}")))
			_, err = conn.ReadBinary()
			sym.Assert(err != nil, "ReadBinary of a text message succeeds")
		case 6:
			c.Feed(fake.Client(true, 1, key, []byte("{")))
			var v jval
			err = conn.ReadJSON(&v)
			sym.Assert(err != nil, "ReadJSON of malformed JSON succeeds")
		case 7:
			c.Feed(fake.Client(true, 2, key, []byte("ab")))
			_, err = conn.ReadBinary()
		case 8:
			c.Feed(fake.Client(true, 2, key, []byte("ab")))
			r, _, e := conn.NextReader()
			err = e
			if e == nil {
				_, e = r.Read(make([]byte, 1))
				err = e
			}
		case 9:
			_, _, err = conn.NextReader() // silence
			sym.Assert(err != nil, "read of nothing succeeds")
		case 10:
			c.Feed(fake.Client(true, 9, key, []byte("p")))
			c.Feed(fake.Client(true, 2, key, []byte("ab")))
			_, _, err = conn.ReadMessage()
		case 11:
			err = conn.Batch([]byte("abc"))
			sym.Assert(batch || err != nil, "Batch without batching succeeds")
		case 12:
			w, e := conn.NextWriter(nil, 2)
			err = e
			if e == nil {
				_, err = w.Write([]byte("0123456789"))
				if e := w.Flush(); err == nil {
					err = e
				}
				if e := w.Close(); err == nil {
					err = e
				}
				sends = 1
			}
		case 13:
			c.Feed(fake.Client(true, 3, key, nil))
			if sym.Pick("json", 2) == 1 {
				var v jval
				err = conn.ReadJSON(&v)
			} else {
				_, err = conn.ReadString()
			}
			sym.Assert(fatal(err), "malformed frame is not fatal")
		case 14:
			// nothing, a part of a header, a header, a part of the payload, or a
			// message without its end
			json := sym.Pick("json", 2)
			f := fake.Client(sym.Pick("fin", 2) == 1, byte(2-json), key, []byte("[1"))
			c.Feed(f[:pickT("mid", []int{0, 1, 6, 7}, []int{0, 1, 2, 5, 6, 7})])
			c.EOF()
			if json == 1 {
				var v jval
				err = conn.ReadJSON(&v)
			} else {
				_, _, err = conn.ReadMessage()
			}
			sym.Assert(fatal(err), "end of stream is not fatal")
		case 15:
			if batch {
				u.Flusher.Close()
				err = conn.Batch([]byte("x"))
				sym.Assert(err != nil, "Batch after the flusher closed succeeds")
				batch = false
			}
		case 16:
			conn.Close()
			err = conn.SendMessage(nil, 2, []byte("q"))
			sym.Assert(fatal(err), "send on a closed connection is not fatal")
		}
		if err == nil && sends > 0 {
			sym.Assert(messages() == n+sends, "send reported success but its frames were not handed to the transport")
		}
		if stop(err, "operation", sends > 0) {
			return
		}
	}
	// still usable
	c.WriteFailAt, c.WdlFailAt, c.RdlFailAt, c.StallAt = 0, 0, 0, 0
	sym.Idle()
	n := messages()
	if err := conn.SendString(nil, []byte("0123456789")); err != nil {
		sym.Fail("send on a connection whose errors were all non-fatal failed: " + err.Error())
	}
	sym.Assert(messages() == n+1, "send reported success but its frames were not handed to the transport")
	time.Sleep(4 * time.Second)
	c.Feed(fake.Client(true, 2, key, []byte("zz")))
	_, data, err := conn.ReadMessage()
	if err != nil {
		sym.Fail("read on a connection whose errors were all non-fatal failed: " + err.Error())
	}
	sym.Assert(eq(data, []byte("zz")), "message changed after non-fatal errors")
	sym.Cover("usable")
}

// C30Limit: what a rate-limited read returns tells whether the connection is open.
func C30Limit() {
	u := snapws.NewUpgrader(noUTF8(small()))
	u.Limiter = snapws.NewRateLimiter(1, 1)
	hook := sym.Pick("hook", 4)
	if hook > 0 {
		u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error {
			switch hook {
			case 2:
				return errors.New("stop")
			case 3:
				c.Close()
				return errors.New("stop")
			}
			return nil
		}
	}
	conn, c := dial(u)
	s := kf(nil, true, 2, []byte("a"))
	f := fragments(nil, byte(1+sym.Pick("op", 2)), []byte("[1]"), 1+sym.Pick("frames", 2))
	cut := len(f)
	if sym.Pick("whole", 2) == 0 {
		cut = sym.Pick("cut", len(f))
	}
	c.Feed(append(s, f[:cut]...))
	expect(conn, c, []msg{{2, []byte("a")}})
	if cut < len(f) {
		c.EOF()
	}
	var err error
	var v any
	switch sym.Pick("api", 4) {
	case 0:
		_, _, err = conn.ReadMessage()
	case 1:
		_, _, err = conn.NextReader()
	case 2:
		err = conn.ReadJSON(&v)
	case 3:
		_, err = conn.ReadBinary()
	}
	sym.Assert(err != nil, "limited message delivered")
	errState(c, err, "limited read")
	if fatal(err) {
		deadNow(conn, c)
		sym.Cover("fatal")
		return
	}
	sym.Assert(conn.SendString(nil, []byte("x")) == nil, "send after a limited read failed")
	time.Sleep(time.Second)
	if cut == len(f) {
		c.Feed(kf(nil, true, 2, []byte("zz")))
		expect(conn, c, []msg{{2, []byte("zz")}})
	}
	sym.Cover("usable")
}

func cancelledNow() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}

// C30Slow: a slow transport makes operations wait for each other's locks longer than
// WriteWait; what they return still tells whether the connection is open.
func C30Slow() {
	o := lifeOpts()
	o.PingEvery, o.ReadWait = time.Hour, time.Hour
	o.WriteWait = 5 * time.Second
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[string](u)
	c := fake.NewConn()
	mc, err := m.Connect("k", fake.NewResponse(c, 256, 64), fake.Request())
	if err != nil {
		sym.Fail("connect failed")
	}
	stripResp(c)
	conn := mc.Conn
	c.SlowWrite = pickDur("slow", 3*time.Second, 4*time.Second+900*time.Millisecond)
	done := make(chan bool, 4)
	bad := false
	check := func(err error, what string) {
		if fatal(err) {
			bad = true
		}
		done <- true
	}
	ops := []int{sym.Pick("a", 4), sym.Pick("b", 4), 4 + sym.Pick("c", 2)}
	sym.Explore(1)
	for _, op := range ops {
		go func() {
			switch op {
			case 0:
				check(conn.SendString(nil, []byte("0123456789")), "SendString")
			case 1:
				check(conn.Ping(), "Ping")
			case 2:
				check(conn.SendBytes(cancelled(time.Second), []byte("abc")), "SendBytes")
			case 3:
				_, err := m.BroadcastString(nil, []byte("abc"))
				check(err, "Broadcast")
			case 4:
				c.Feed(fake.Client(true, 9, []byte{1, 2, 3, 4}, []byte("p")))
				c.Feed(fake.Client(true, 2, []byte{1, 2, 3, 4}, []byte("m")))
				_, _, err := conn.ReadMessage()
				check(err, "ReadMessage")
			case 5:
				w, err := conn.NextWriter(nil, 2)
				if err == nil {
					w.Write([]byte("abc"))
					if err = w.Flush(); err == nil {
						w.Write([]byte("d"))
						err = w.Close()
					}
				}
				check(err, "writer")
			}
		}()
	}
	for range ops {
		<-done
	}
	time.Sleep(30 * time.Second)
	sym.Idle()
	if !c.IsClosed() {
		c.SlowWrite = 0
		sym.Assert(!bad, "fatal error but the connection is still open")
		sym.Assert(conn.SendString(nil, []byte("x")) == nil, "open connection unusable")
		sym.Cover("open")
	} else {
		sym.Assert(bad, "connection closed but no operation returned a fatal error")
		c.SlowWrite = 0
		dead(conn, c)
		sym.Cover("closed")
	}
}

// ---- C31 ----

// watch fails on a write without a deadline that is close enough.
func watch(c *fake.Conn, wait time.Duration) {
	c.BeforeWrite = func(dl time.Time) {
		sym.Assert(!dl.IsZero(), "write without a write deadline")
		sym.Assert(dl.After(time.Now()), "write under a deadline that has already passed")
		sym.Assert(!dl.After(time.Now().Add(wait)), "write under a deadline later than WriteWait")
	}
}

// C31Write: every write of every operation has its deadline, also after
// pauses, with slow writes and with contention.
func C31Write() {
	o := lifeOpts()
	o.ReadWait = time.Hour
	o.PingEvery = 2 * time.Second
	u := snapws.NewUpgrader(o)
	u.EnablePrefixBatching(nil, 500*time.Millisecond)
	m := snapws.NewManager[string](u)
	c := fake.NewConn()
	watch(c, o.WriteWait)
	mc, err := m.Connect("k", fake.NewResponse(c, 256, 64), fake.Request())
	if err != nil {
		sym.Fail("connect failed")
	}
	conn := mc.Conn
	if sym.Pick("slow", 2) == 1 {
		c.SlowWrite = 700 * time.Millisecond
	}
	c.OnWrite = func(b []byte) {
		if b[0] == 0x89 {
			c.Feed(fake.Client(true, 10, []byte{1, 2, 3, 4}, nil))
		}
	}
	go func() {
		for {
			if _, _, err := conn.ReadMessage(); err != nil {
				return
			}
		}
	}()
	far, cancel := context.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	do := func(k int) {
		switch k {
		case 0:
			conn.SendString(nil, []byte("0123456789"))
		case 1:
			w, err := conn.NextWriter(nil, 2)
			if err == nil {
				w.Write([]byte("abc"))
				w.Flush()
				time.Sleep(1500 * time.Millisecond)
				w.Write([]byte("de"))
				w.Close()
			}
		case 2:
			m.BroadcastString(far, []byte("abc"))
		case 3:
			conn.Batch([]byte("abc"))
		case 4:
			c.Feed(fake.Client(true, 9, []byte{1, 2, 3, 4}, []byte("p")))
		case 5:
			time.Sleep(3 * time.Second) // keep-alive ping
		case 6:
			conn.SendJSON(far, "0123456789")
		case 7:
			conn.Close()
		}
	}
	sym.Explore(1)
	done := make(chan bool)
	i, j := sym.Pick("a", 8), sym.Pick("b", 8)
	sym.Assume(i <= j)
	go func() { do(i); done <- true }()
	go func() { do(j); done <- true }()
	<-done
	<-done
	time.Sleep(3 * time.Second)
	do(sym.Pick("c", 2) * 7)
	if c.SlowWrite == 0 && i != 7 && j != 7 {
		sym.Assert(len(c.Writes) > 1, "nothing written")
	}
	sym.Cover("done")
}

// C31Stall: a peer that stops reading is disconnected.
func C31Stall() {
	o := lifeOpts()
	o.ReadWait = time.Hour
	o.PingEvery = pickDur("ping", 3*time.Second, time.Hour)
	u := snapws.NewUpgrader(o)
	u.EnablePrefixBatching(nil, 500*time.Millisecond)
	m := snapws.NewManager[string](u)
	c := fake.NewConn()
	hooks := 0
	o.OnDisconnect = func(*snapws.Conn) { hooks++ }
	mc, err := m.Connect("k", fake.NewResponse(c, 256, 64), fake.Request())
	if err != nil {
		sym.Fail("connect failed")
	}
	conn := mc.Conn
	watch(c, o.WriteWait)
	c.StallAt = 1 + sym.Pick("at", 3)
	op := sym.Pick("op", 6)
	start := time.Now()
	far, cancel := context.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	sym.Explore(1)
	go func() { // a reader, so that pings of the peer are seen
		for {
			if _, _, err := conn.ReadMessage(); err != nil {
				return
			}
		}
	}()
	for i := 0; i < 4; i++ {
		switch op {
		case 0:
			go conn.SendString(nil, []byte("0123456789"))
		case 1:
			go conn.SendJSON(cancelledLater(100*time.Millisecond), "0123456789")
		case 2:
			m.BroadcastString(far, []byte("abc"))
		case 3:
			conn.Batch([]byte("abc"))
		case 4:
			c.Feed(fake.Client(true, 9, []byte{1, 2, 3, 4}, []byte("p")))
		case 5:
			go conn.Close()
		}
		time.Sleep(600 * time.Millisecond)
	}
	time.Sleep(5 * time.Second)
	sym.Idle()
	if c.Stalled0.IsZero() {
		sym.Cover("not stalled")
		return
	}
	sym.Assert(c.IsClosed(), "peer that stopped reading is still connected")
	sym.Assert(!c.ClosedAt.After(c.Stalled0.Add(2*o.WriteWait+10*time.Millisecond)), "peer that stopped reading was disconnected too late")
	sym.Assert(hooks == 1, "disconnect hook did not run once")
	_ = start
	sym.Cover("disconnected")
}

func cancelledLater(d time.Duration) context.Context { return cancelled(d) }

func pickDur(name string, l ...time.Duration) time.Duration { return l[sym.Pick(name, len(l))] }

// C31Silent: a peer that goes silent at any point, or dribbles.
func C31Silent() {
	o := lifeOpts()
	o.PingEvery = pickDur("ping", time.Hour, 3*time.Second)
	o.ReadWait = 5 * time.Second
	conn, c := dial(snapws.NewUpgrader(o))
	hooks := 0
	o.OnDisconnect = func(*snapws.Conn) { hooks++ }
	var s []byte
	s = append(s, fake.Client(false, 2, []byte{1, 2, 3, 4}, []byte{1, 2})...)
	s = append(s, fake.Client(true, 9, []byte{1, 2, 3, 4}, []byte{9})...)
	s = append(s, fake.Client(true, 0, []byte{1, 2, 3, 4}, []byte{3, 4})...)
	k := sym.Pick("cut", len(s))
	mode := sym.Pick("mode", 3)
	time.Sleep(pickDur("idle", 0, 2*time.Second))
	base := time.Now()
	pongAt := base
	switch mode {
	case 0: // then nothing
		c.Feed(s[:k])
	case 1: // one byte a second, and unsolicited pongs
		go func() {
			for i := 0; i < k; i++ {
				c.Feed(s[i : i+1])
				time.Sleep(900 * time.Millisecond)
			}
		}()
	case 2: // control frames for ever, never the message
		go func() {
			for i := 0; i < 30; i++ {
				c.Feed(fake.Client(true, byte(9+sym.Pick("ctl", 1)), []byte{1, 2, 3, 4}, []byte{9}))
				time.Sleep(900 * time.Millisecond)
			}
		}()
		sym.Assume(k == 0)
	}
	if o.PingEvery < time.Hour && sym.Pick("pong", 2) == 1 && mode == 0 && k == 0 {
		n := 0
		c.OnWrite = func(b []byte) {
			if b[0] == 0x89 && n < 1 {
				n++
				pongAt = time.Now()
				c.Feed(fake.Client(true, 10, []byte{1, 2, 3, 4}, nil))
			}
		}
	}
	var err error
	switch sym.Pick("stream", 3) {
	case 0:
		_, _, err = conn.ReadMessage()
	case 1:
		_, _, err = stream(conn, func() int { return 1 })
	case 2: // a message is begun and abandoned
		_, _, err = conn.NextReader()
		if err == nil {
			time.Sleep(pickDur("pause", 0, time.Second))
			pongAt = time.Now()
			_, _, err = conn.ReadMessage()
		}
	}
	sym.Assert(fatal(err), "read from a silent peer does not fail fatally")
	sym.Assert(!time.Now().After(pongAt.Add(o.ReadWait+10*time.Millisecond)), "silent peer disconnected too late")
	sym.Assert(c.IsClosed(), "silent peer still connected")
	sym.Assert(hooks == 1, "disconnect hook did not run once")
	sym.Cover("disconnected")
}
