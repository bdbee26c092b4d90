package h

import (
	"context"
	"errors"
	"io"
	"net/http"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// ---- C38 ----

// nilCtx is a context that never ends: none at all or the background one.
func nilCtx() context.Context {
	if sym.Pick("nilctx", 2) == 0 {
		return nil
	}
	return context.Background()
}

// C38Ctx: a nil context means the same as one that never ends, when the call
// can go ahead, has to wait, and fails.
func C38Ctx() {
	ctx := nilCtx()
	o := noUTF8(small())
	o.BroadcastBackpressure = snapws.BackpressureWait
	o.BroadcastChannelsSize = 1
	u := snapws.NewUpgrader(o)
	switch sym.Pick("flusher", 3) {
	case 0:
		u.EnableJSONBatching(ctx, 0)
	case 1:
		u.EnablePrefixBatching(ctx, 0)
	case 2:
		u.EnableBatching(ctx, 0, func(x context.Context, c *snapws.Conn, ms [][]byte) error {
			for _, p := range ms {
				if err := c.SendBytes(x, p); err != nil {
					return err
				}
			}
			return nil
		})
	}
	m := snapws.NewManager[string](u)
	r := snapws.NewRoomManager[string](u).Add("r")
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	r.Add(mc.Conn)
	state := sym.Pick("state", 4)
	switch state {
	case 1: // someone holds the writer for a second
		w, err := mc.NextWriter(nil, 2)
		sym.Assert(err == nil, "NextWriter failed")
		go func() {
			time.Sleep(time.Second)
			w.Close()
		}()
	case 2: // the transport is slow
		c.SlowWrite = time.Second
		go mc.SendBytes(nil, nil)
		sym.Idle()
	case 3:
		mc.Close()
		c.ResetOut()
	}
	api := sym.Pick("api", 9)
	n := 0
	var start, took time.Duration
	t0 := time.Now()
	within(time.Minute, "a call with a context that never ends", func() {
		switch api {
		case 0:
			err = mc.SendBytes(ctx, []byte("m"))
		case 1:
			err = mc.SendString(ctx, []byte("m"))
		case 2:
			err = mc.SendMessage(ctx, 2, []byte("m"))
		case 3:
			err = mc.SendJSON(ctx, 7)
		case 4:
			var w *snapws.ConnWriter
			w, err = mc.NextWriter(ctx, 2)
			if err == nil {
				_, err = w.Write([]byte("m"))
				if err == nil {
					err = w.Close()
				}
			}
		case 5:
			n, err = m.BroadcastBytes(ctx, []byte("m"))
		case 6:
			n, err = r.BroadcastString(ctx, []byte("m"))
		case 7:
			n, err = m.BatchBroadcast(ctx, []byte("7"))
		case 8:
			n, err = r.BroadcastJSON(ctx, 7)
		}
	})
	took = time.Since(t0) - start
	if state == 3 {
		if api < 5 {
			sym.Assert(fatal(err), "send on a closed connection: not fatal")
		} else {
			sym.Assert(err == nil && n == 0, "broadcast counts a closed connection")
		}
		sym.Assert(len(c.Out()) == 0, "bytes written after close")
		sym.Cover("done")
		return
	}
	sym.Assert(err == nil, "a call with a context that never ends failed")
	sym.Assert(api < 5 || n == 1, "broadcast count differs")
	if api < 5 {
		want := time.Duration(0)
		switch state {
		case 1:
			want = time.Second
		case 2:
			want = 2 * time.Second
		}
		sym.Assert(took == want, "a call with a context that never ends took the wrong time")
	}
	time.Sleep(10 * time.Second)
	sym.Idle()
	ms, _, open := wire(c)
	sym.Assert(open == 0, "unfinished message on the wire")
	k := 1
	if state == 1 || state == 2 {
		k = 2
		sym.Assert(len(ms) > 0 && len(ms[0].Data) == 0, "first message differs")
	}
	sym.Assert(len(ms) == k, "message lost or repeated")
	sym.Assert(len(ms[k-1].Data) > 0, "message lost")
	sym.Assert(!c.IsClosed(), "connection closed")
	sym.Cover("done")
}

// C38Args: empty, zero and unknown arguments.
func C38Args() {
	bare := sym.Pick("bare", 2) == 1
	var u *snapws.Upgrader
	if !bare {
		u = snapws.NewUpgrader(noUTF8(small()))
	}
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	sym.Assert(m.Upgrader != nil && rm.Upgrader != nil, "no default upgrader")
	sym.Assert(u == nil || m.Upgrader == u && rm.Upgrader == u, "another upgrader used")
	hooks := 0
	rm.DefaultOnJoin = func(*snapws.Room[string], *snapws.Conn, ...any) { hooks++ }
	rm.DefaultOnLeave = func(*snapws.Room[string], *snapws.Conn, ...any) { hooks++ }
	if sym.Pick("norooms", 2) == 1 {
		rm.DefaultOnJoin, rm.DefaultOnLeave = nil, nil
	}
	r := rm.Add("r")
	out := fake.NewConn() // in no room, in no manager
	loner := dialOn(m.Upgrader, out)
	c := fake.NewConn()
	mc, err := m.Connect("", fake.NewResponse(c, 256, 64), fake.Request()) // the zero key is a key
	sym.Assert(err == nil && m.Get("") == mc, "zero key not found")
	stripResp(c)
	r.Add(mc.Conn)
	if rm.DefaultOnJoin != nil {
		sym.Assert(hooks == 1, "hook not called")
	}
	hooks = 0
	var want []msg
	op := sym.Pick("op", 28)
	switch op {
	case 0:
		sym.Assert(m.Get("x") == nil && rm.Get("x") == nil, "unknown key found")
	case 1:
		n, err := m.BroadcastBytes(nil, nil, "x", "y")
		sym.Assert(err == nil && n == 1, "broadcast excluding unknown keys")
		want = append(want, msg{2, nil})
	case 2:
		n, err := m.BroadcastString(nil, nil, "")
		sym.Assert(err == nil && n == 0, "broadcast excluding everyone")
	case 3:
		n, err := r.BroadcastBytes(nil, nil, loner, nil)
		sym.Assert(err == nil && n == 1, "broadcast excluding strangers")
		want = append(want, msg{2, nil})
	case 4:
		n, err := r.BroadcastString(nil, []byte{}, mc.Conn)
		sym.Assert(err == nil && n == 0, "broadcast excluding everyone")
	case 5:
		n, err := rm.Add("empty").BroadcastJSON(nil, nil)
		sym.Assert(err == nil && n == 0, "broadcast to nobody")
		n, err = snapws.NewManager[string](nil).BroadcastBytes(nil, []byte("x"))
		sym.Assert(err == nil && n == 0, "broadcast to nobody")
	case 6:
		sym.Assert(mc.SendBytes(nil, nil) == nil, "empty send failed")
		sym.Assert(mc.SendString(nil, []byte{}) == nil, "empty send failed")
		want = append(want, msg{2, nil}, msg{1, nil})
	case 7:
		w, err := mc.NextWriter(nil, 1)
		sym.Assert(err == nil, "NextWriter failed")
		n, err := w.Write(nil)
		sym.Assert(n == 0 && err == nil, "empty write failed")
		sym.Assert(w.Close() == nil, "Close failed")
		want = append(want, msg{1, nil})
	case 8:
		sym.Assert(mc.SendJSON(nil, nil) == nil, "SendJSON(nil) failed")
		n, err := m.BroadcastJSON(nil, nil)
		sym.Assert(n == 1 && err == nil, "BroadcastJSON(nil) failed")
		sym.Idle()
		for _, x := range wireMsgs(c) {
			sym.Assert(x.Op == 1 && string(trimNL(x.Data)) == "null", "JSON of nil differs")
		}
		sym.Assert(len(wireMsgs(c)) == 2, "JSON of nil not sent")
		c.ResetOut()
	case 9:
		r.Remove(loner)
		r.Remove(mc.Conn)
		n := hooks
		r.Remove(mc.Conn)
		sym.Assert(hooks == n && n <= 1, "removal of a non-member ran a hook")
		hooks = 0
	case 10:
		rm.Add("e").RemoveAll()
		e := rm.Add("e")
		e.Close()
		e.Close()
		sym.Assert(rm.Get("e") == nil, "closed room found")
	case 26, 27: // a room that loses its members
		r.Add(loner)
		if op == 26 {
			r.RemoveAll()
			r.RemoveAll()
		} else {
			r.Close()
			r.Close()
		}
		sym.Assert(len(r.GetAllConns()) == 0 && (rm.Get("r") == nil) == (op == 27), "room emptied or closed")
		sym.Assert(hooks == 0 || hooks == 3 && rm.DefaultOnLeave != nil, "hooks did not run once per change")
		hooks = 0
	case 11:
		r.Move(mc.Conn, "nowhere")
		sym.Assert(len(r.GetAllConns()) == 0 && rm.Get("nowhere") == nil, "move to an unknown room")
		sym.Assert(hooks <= 1, "move to an unknown room ran a hook too many")
		hooks = 0
	case 12:
		sym.Assert(len(rm.Add("e").GetAllConns()) == 0 && len(snapws.NewManager[int](nil).GetAllConns()) == 0, "members of an empty group")
		sym.Assert(len(snapws.NewManager[int](nil).GetAllConnsAsConn(1)) == 0 && len(snapws.NewRoomManager[int](nil).GetRoomKeys()) == 0, "members of an empty group")
		sym.Assert(len(m.GetAllConns("x")) == 1 && len(m.GetAllConns("")) == 0 && len(r.GetAllConns(loner, nil)) == 1, "exclusion of unknown keys")
	case 13:
		within(time.Second, "Shutdown of an empty manager", func() {
			e := snapws.NewManager[string](nil)
			e.Shutdown()
			f := snapws.NewRoomManager[string](nil)
			f.Add("a")
			f.Shutdown()
			snapws.NewRoomManager[string](nil).Shutdown()
		})
	case 14:
		sym.Assert(errors.Is(mc.Batch(nil), snapws.ErrBatchingUninitialized), "Batch without a flusher")
		sym.Assert(errors.Is(mc.BatchJSON(nil), snapws.ErrBatchingUninitialized), "BatchJSON without a flusher")
		n, err := m.BatchBroadcast(nil, nil)
		sym.Assert(n == 0 && errors.Is(err, snapws.ErrBatchingUninitialized), "BatchBroadcast without a flusher")
		n, err = r.BatchBroadcastJSON(nil, nil)
		sym.Assert(n == 0 && errors.Is(err, snapws.ErrBatchingUninitialized), "BatchBroadcastJSON without a flusher")
		n, err = r.BatchBroadcast(nil, nil, mc.Conn)
		sym.Assert(n == 0 && errors.Is(err, snapws.ErrBatchingUninitialized), "BatchBroadcast without a flusher")
	case 15: // a custom strategy without a function sends nothing
		v := snapws.NewUpgrader(nil)
		v.EnableBatching(nil, 0, nil)
		sym.Assert(v.Flusher != nil && !v.Flusher.IsClosed(), "no flusher")
		x, xc := dial(v)
		sym.Assert(x.Batch([]byte("a")) == nil && x.Batch(nil) == nil, "Batch failed")
		time.Sleep(200 * time.Millisecond)
		sym.Idle()
		sym.Assert(len(xc.Out()) == 0 && !xc.IsClosed(), "a custom strategy without a function wrote something")
		v.Flusher.Close()
		sym.Assert(errors.Is(x.Batch(nil), snapws.ErrFlusherClosed), "Batch after the flusher's close")
		v.Flusher.Close()
	case 16:
		i := sym.Pick("index", 8) - 3
		args := []any{5, nil}[:sym.Pick("nargs", 3)]
		a, ok := snapws.GetArg[int](args, i)
		sym.Assert(ok == (i == 0 && len(args) > 0) && (a == 5) == ok, "GetArg: wrong result")
		e, ok := snapws.GetArg[error](args, i)
		sym.Assert(!ok && e == nil, "GetArg: wrong result")
		_, ok = snapws.GetArg[int](nil, i)
		sym.Assert(!ok, "GetArg: wrong result")
	case 17:
		sym.Assert(!snapws.IsFatalErr(nil) && !snapws.IsFatalErr(io.EOF), "IsFatalErr: wrong result")
		e, ok := snapws.AsMiddlewareErr(nil)
		sym.Assert(e == nil && !ok, "AsMiddlewareErr: wrong result")
		e, ok = snapws.AsMiddlewareErr(io.EOF)
		sym.Assert(e == nil && !ok, "AsMiddlewareErr: wrong result")
		x := snapws.NewMiddlewareErr(418, "t")
		e, ok = snapws.AsMiddlewareErr(x)
		sym.Assert(e == x && ok && x.Code == 418, "AsMiddlewareErr: wrong result")
	case 18: // reading into nothing
		c.Feed(kf(nil, true, 2, []byte("ab")))
		rd, _, err := mc.NextReader()
		sym.Assert(err == nil, "NextReader failed")
		n, err := rd.Read(nil)
		sym.Assert(n == 0 && err == nil, "empty read failed")
		n, err = rd.Read([]byte{})
		sym.Assert(n == 0 && err == nil, "empty read failed")
		b := make([]byte, 2)
		n, _ = rd.Read(b)
		sym.Assert(n == 2 && string(b) == "ab", "an empty read lost data")
	case 19: // an empty message is a message
		c.Feed(kf(kf(nil, true, 2, nil), true, 1, nil))
		d, err := mc.ReadBinary()
		sym.Assert(err == nil && len(d) == 0, "empty message refused")
		d, err = mc.ReadString()
		sym.Assert(err == nil && len(d) == 0, "empty message refused")
	case 20: // an empty ping
		c.Feed(kf(kf(nil, true, 9, nil), true, 2, nil))
		_, err := mc.ReadBinary()
		sym.Assert(err == nil, "read failed")
		sym.Assert(string(c.Out()) == "\x8a\x00", "empty ping not answered")
		c.ResetOut()
	case 21: // an empty key list, and a batch of nothing
		v := snapws.NewUpgrader(nil)
		v.EnableJSONBatching(nil, time.Millisecond)
		mv := snapws.NewManager[string](v)
		n, err := mv.BatchBroadcast(nil, nil)
		sym.Assert(n == 0 && err == nil, "batch broadcast to nobody")
		_, xc := dial(v)
		time.Sleep(10 * time.Millisecond)
		sym.Idle()
		sym.Assert(len(xc.Out()) == 0, "an empty batch was sent")
		v.Flusher.Close()
	case 22:
		mc.CloseWithCode(1000, "")
		mc.CloseWithCode(1001, "again")
		mc.Close()
		sym.Idle()
		sym.Assert(string(c.Out()) == "\x88\x02\x03\xe8", "close frame differs")
		sym.Assert(m.Get("") == nil && len(r.GetAllConns()) == 0, "closed connection found")
		n, err := r.BroadcastBytes(nil, []byte("x"))
		sym.Assert(n == 0 && err == nil, "broadcast to a closed connection")
		r.Add(mc.Conn)
		sym.Assert(len(r.GetAllConns()) == 0, "closed connection added")
		sym.Assert(loner.SendBytes(nil, nil) == nil, "another connection is unusable")
		sym.Cover("done")
		return
	case 23: // join twice
		r.Add(mc.Conn)
		r.Add(mc.Conn, 1, nil)
		sym.Assert(hooks == 0 && len(r.GetAllConns()) == 1, "joining twice")
	case 24: // no arguments at all
		w, err := mc.NextWriter(nil, 2)
		sym.Assert(err == nil, "NextWriter failed")
		sym.Assert(w.Flush() == nil, "empty Flush failed")
		sym.Assert(w.Close() == nil, "Close failed")
		sym.Assert(!fatal(w.Close()), "second Close is fatal")
		n, err := w.Write([]byte("x"))
		sym.Assert(n == 0 && err != nil, "Write after Close succeeded")
		sym.Assert(w.Flush() != nil, "Flush after Close succeeded")
		want = append(want, msg{2, nil})
	case 25: // options that list nothing
		v := snapws.NewUpgrader(&snapws.Options{SubProtocols: []string{}, RejectRaw: false})
		v.Use(func(http.ResponseWriter, *http.Request) error { return nil })
		x, xc := dial(v)
		sym.Assert(x.SubProtocol == "", "subprotocol out of nothing")
		sym.Assert(x.SendBytes(nil, nil) == nil && string(xc.Out()) == "\x82\x00", "send failed")
	}
	sym.Idle()
	sym.Assert(hooks == 0, "a hook ran")
	sent(c, want)
	sym.Assert(len(out.Out()) == 0, "a stranger got something")
	sym.Assert(!c.IsClosed() && !out.IsClosed(), "a connection was closed")
	sym.Assert(mc.SendBytes(nil, []byte("z")) == nil && loner.SendBytes(nil, nil) == nil, "a connection is unusable")
	sym.Cover("done")
}

func wireMsgs(c *fake.Conn) []fake.Msg {
	ms, _, _ := wire(c)
	return ms
}

func trimNL(b []byte) []byte {
	for len(b) > 0 && b[len(b)-1] == '\n' {
		b = b[:len(b)-1]
	}
	return b
}

// C37Flood: a client that sends and never reads makes the server hold no more
// goroutines or memory.
func C37Flood() {
	o := noUTF8(small())
	o.ReadWait, o.PingEvery = time.Minute, 50*time.Second
	u := snapws.NewUpgrader(o)
	limit := sym.Pick("limited", 2) == 1
	if limit {
		u.Limiter = snapws.NewRateLimiter(1, 1)
		u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { return nil }
	}
	conn, c := dial(u)
	base := sym.Goroutines()
	kind := sym.Pick("kind", 6)
	stall := sym.Pick("stall", 2) == 1
	if stall {
		c.StallAt = 1
	}
	const n = 40
	var s []byte
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			s = kf(s, true, 9, []byte("ping"))
		case 1:
			s = kf(s, true, 10, []byte("pong"))
		case 2:
			s = kf(s, true, 2, []byte("m"))
		case 3:
			op := byte(2)
			if i > 0 {
				op = 0
			}
			s = kf(s, false, op, nil)
		case 4:
			s = kf(s, true, byte(8+i%3), []byte{3, 232})
		case 5:
			s = kf(kf(s, false, 2, []byte("m")), true, 9, nil)
			s = kf(s, true, 0, nil)
		}
	}
	end := false
	go func() {
		for {
			if _, _, err := conn.ReadMessage(); fatal(err) {
				break
			}
		}
		end = true
	}()
	sym.Idle()
	sym.Budget(1 << 19)
	for at := 0; at < len(s); at += 64 {
		c.Feed(s[at:min(len(s), at+64)])
		sym.Idle()
		sym.Assert(sym.Goroutines() <= base+2, "frames received leave goroutines behind")
	}
	if kind == 3 {
		c.EOF()
	}
	time.Sleep(10 * time.Minute) // silent
	sym.Idle()
	sym.Budget(0)
	sym.Assert(end && c.IsClosed(), "silent connection left open")
	sym.Assert(sym.Goroutines() < base+1, "closed connection leaves goroutines behind")
	sym.Cover("done")
}
