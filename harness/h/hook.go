package h

import (
	"context"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// ---- C33 ----

// hookWorld is a manager with connections x and b, rooms r and s, and one hook that
// runs act once, on x.
type hookWorld struct {
	u          *snapws.Upgrader
	m          *snapws.Manager[string]
	rm         *snapws.RoomManager[string]
	r, s       *snapws.Room[string]
	x, b       *snapws.ManagedConn[string]
	cx, cb, cn *fake.Conn
	ran        int
	armed      bool
	act        func(x *snapws.Conn)
}

const nHooks = 15

// newHookWorld sets everything up to the point where trigger makes the hook run.
func newHookWorld(hook int) (*hookWorld, func()) {
	w := &hookWorld{cx: fake.NewConn(), cb: fake.NewConn(), cn: fake.NewConn()}
	o := noUTF8(small())
	o.ReadWait, o.PingEvery = 2*time.Hour, time.Hour
	run := func(c *snapws.Conn) {
		if !w.armed || w.ran > 0 || w.b != nil && c == w.b.Conn {
			return
		}
		w.ran++
		w.act(c)
	}
	if hook == 1 {
		o.OnDisconnect = run
	}
	if hook == 0 {
		o.OnConnect = run
	}
	u := snapws.NewUpgrader(o)
	w.u = u
	switch hook {
	case 10:
		u.EnableBatching(nil, flushEvery, func(_ context.Context, c *snapws.Conn, ms [][]byte) error {
			run(c)
			for _, p := range ms {
				if err := c.SendBytes(nil, p); err != nil {
					return err
				}
			}
			return nil
		})
	case 9:
		u.EnablePrefixBatching(nil, flushEvery)
		u.Flusher.BatchSuffixFunc = func(c *snapws.Conn, _ [][]byte) []byte { run(c); return nil }
	default:
		u.EnableJSONBatching(nil, flushEvery)
		if hook == 8 {
			u.Flusher.BatchPrefixFunc = func(c *snapws.Conn, _ [][]byte) []byte { run(c); return nil }
		}
	}
	u.Limiter = snapws.NewRateLimiter(1, 1)
	if hook == 7 {
		u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error { run(c); return nil }
	}
	w.m = snapws.NewManager[string](u)
	if hook == 2 {
		w.m.OnRegister = func(mc *snapws.ManagedConn[string]) { run(mc.Conn) }
	}
	if hook == 3 || hook == 13 {
		w.m.OnUnregister = func(mc *snapws.ManagedConn[string]) { run(mc.Conn) }
	}
	w.rm = snapws.NewRoomManager[string](u)
	if hook == 4 {
		w.rm.DefaultOnJoin = func(_ *snapws.Room[string], c *snapws.Conn, _ ...any) { run(c) }
	}
	if hook == 5 || hook == 6 || hook == 11 || hook == 12 || hook == 14 {
		w.rm.DefaultOnLeave = func(_ *snapws.Room[string], c *snapws.Conn, _ ...any) { run(c) }
	}
	w.r, w.s = w.rm.Add("r"), w.rm.Add("s")
	connect := func(k string, c *fake.Conn) *snapws.ManagedConn[string] {
		mc, err := w.m.Connect(k, fake.NewResponse(c, 256, 64), fake.Request())
		if err != nil {
			sym.Fail("connect failed")
		}
		return mc
	}
	w.b = connect("b", w.cb)
	stripResp(w.cb)
	w.r.Add(w.b.Conn)
	if hook != 0 && hook != 2 {
		w.x = connect("x", w.cx)
		if hook != 4 {
			w.r.Add(w.x.Conn)
		}
	}
	return w, func() {
		w.armed = true
		switch hook {
		case 0, 2:
			w.x = connect("x", w.cx)
		case 1, 3, 6:
			w.x.Close()
		case 4:
			w.r.Add(w.x.Conn)
		case 5:
			w.r.Remove(w.x.Conn)
		case 7:
			w.cx.Feed(kf(kf(nil, true, 2, []byte("a")), true, 2, []byte("b")))
			w.x.ReadMessage()
			_, _, err := w.x.ReadMessage()
			sym.Assert(err != nil && !fatal(err), "limited message: want a non-fatal error")
		case 8, 9, 10:
			sym.Assert(w.x.Batch([]byte("1")) == nil, "Batch failed")
			time.Sleep(3 * flushEvery)
		case 11:
			w.r.RemoveAll()
		case 12:
			w.r.Close()
		case 13: // replaced
			c := fake.NewConn()
			connect("x", c)
		case 14:
			w.r.Move(w.x.Conn, "s")
		}
		sym.Idle()
	}
}

// C33Call: any call made from any hook completes and has its usual effect.
func C33Call() {
	hook := sym.Pick("hook", nHooks)
	op := sym.Pick("op", 16)
	w, trigger := newHookWorld(hook)
	closed := hook == 1 || hook == 3 || hook == 6 || hook == 13 // x is closed in the hook
	gone := op == 11 || op == 12                                // b is closed by the hook
	ctx := context.Background()
	all := func() int { // members that can be sent to, besides the new one
		if closed {
			return 1
		}
		return 2
	}
	hi := 0     // messages "hi" b must have got
	var n int   // result of a broadcast
	var bat int // batched messages for b
	own := 0    // messages for x itself
	w.act = func(x *snapws.Conn) {
		switch op {
		case 0:
			err := x.SendString(ctx, []byte("hi"))
			sym.Assert((err == nil) == !closed, "send from a hook: wrong result")
			sym.Assert(err == nil || fatal(err), "send from a hook on a closed connection: not fatal")
		case 1:
			sym.Assert(w.b.SendString(ctx, []byte("hi")) == nil, "send from a hook failed")
			hi++
		case 2:
			k, err := w.m.BroadcastString(ctx, []byte("hi"))
			sym.Assert(err == nil, "broadcast from a hook failed")
			n = k
			hi++
		case 3:
			k, err := w.r.BroadcastString(ctx, []byte("hi"), x)
			sym.Assert(err == nil, "broadcast from a hook failed")
			n = k
			if hook != 12 && hook != 11 {
				hi++
				sym.Assert(n == 1, "room broadcast from a hook: wrong count")
			} else {
				hi += n
			}
		case 4:
			err := x.Ping()
			sym.Assert((err == nil) == !closed, "ping from a hook: wrong result")
		case 5:
			sym.Assert(w.b.Batch([]byte("7")) == nil, "Batch from a hook failed")
			bat++
		case 6:
			_, err := w.m.BatchBroadcast(ctx, []byte("7"))
			sym.Assert(err == nil, "batch broadcast from a hook failed")
			bat++
		case 7:
			w.s.Add(w.b.Conn, 1)
			sym.Assert(isMember(w.s, w.b.Conn), "room add from a hook has no effect")
		case 8:
			w.r.Remove(w.b.Conn)
			sym.Assert(!isMember(w.r, w.b.Conn), "room removal from a hook has no effect")
		case 9:
			w.r.Move(w.b.Conn, "s")
			sym.Assert(isMember(w.s, w.b.Conn) && !isMember(w.r, w.b.Conn), "room move from a hook has no effect")
		case 10, 11:
			k := "n"
			if op == 11 {
				k = "b"
			}
			mc, err := w.m.Connect(k, fake.NewResponse(w.cn, 256, 64), fake.Request())
			sym.Assert(err == nil && w.m.Get(k) == mc, "connecting from a hook failed")
		case 12:
			w.b.Close()
			sym.Assert(w.m.Get("b") == nil && w.cb.IsClosed(), "close from a hook has no effect")
		case 13:
			r := w.rm.Add("new")
			r.Add(w.b.Conn)
			sym.Assert(w.rm.Get("new") == r && isMember(r, w.b.Conn), "room creation from a hook has no effect")
			r.Close()
			sym.Assert(w.rm.Get("new") == nil, "room close from a hook has no effect")
		case 15: // its own batch
			err := x.Batch([]byte("9"))
			sym.Assert((err == nil) == !closed, "Batch from a hook: wrong result")
			sym.Assert(err == nil || fatal(err), "Batch from a hook on a closed connection: not fatal")
			if err == nil {
				own++
			}
		case 14:
			w.s.Close()
			w.r.RemoveAll()
			sym.Assert(len(w.r.GetAllConns()) == 0 && w.rm.Get("s") == nil, "room operations from a hook have no effect")
		}
	}
	sym.Explore(1 + sym.Tier())
	within(60*time.Second, "a call from a hook", trigger)
	sym.Assert(w.ran == 1, "hook did not run exactly once")
	time.Sleep(2 * flushEvery)
	sym.Idle()
	sym.Assert(w.cx.IsClosed() == closed, "the connection whose hook ran is in the wrong state")
	sym.Assert(w.cb.IsClosed() == gone, "another connection is in the wrong state")
	if op == 2 {
		sym.Assert(n == all() || n == all()-1 && (hook == 0 || hook == 2) || n == 2 && closed, "broadcast from a hook: wrong count")
	}
	ms, _, open := wire(w.cb)
	sym.Assert(open == 0, "unfinished message on the wire")
	got, gotBat := 0, 0
	for _, m := range ms {
		switch {
		case m.Op == 1 && string(m.Data) == "hi":
			got++
		case m.Op == 2 && string(m.Data) == "[7]", m.Op == 2 && string(m.Data) == "7", m.Op == 2 && string(m.Data) == "\x00\x00\x00\x017":
			gotBat++
		default:
			sym.Fail("unexpected message")
		}
	}
	sym.Assert(got == hi, "messages sent from a hook lost or repeated")
	sym.Assert(gotBat == bat, "messages batched from a hook lost or repeated")
	if hook >= 8 && hook <= 10 || own > 0 {
		ms, _, _, bad := assembleTo(w.cx)
		sym.Assert(bad == "", "server output malformed")
		k := 0
		for _, m := range ms {
			if m.Op == 2 {
				k++
			}
		}
		if hook >= 8 && hook <= 10 {
			own++
		}
		sym.Assert(k == own || op == 6 && k == own+1, "the batch whose hook ran was not sent exactly once")
	}
	sym.Cover("done")
}
