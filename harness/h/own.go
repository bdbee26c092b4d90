package h

import (
	"context"
	"io"
	"net/http"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// ---- C36 ----

// junk overwrites everything b could reach.
func junk(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

// C36Send: what a call is given stays the caller's, during the call and after it.
func C36Send() {
	o := noUTF8(small())
	o.WriteBufferSize = pickLen("wbuf", 64, 18, 400)
	o.DisableWriteBuffersPooling = sym.Pick("nopool", 2) == 1
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	r := rm.Add("r")
	var cs []*fake.Conn
	var conns []*snapws.Conn
	for _, k := range []string{"a", "b"} {
		c := fake.NewConn()
		mc, err := m.Connect(k, fake.NewResponse(c, 256, 64), fake.Request())
		sym.Assert(err == nil, "connect failed")
		stripResp(c)
		r.Add(mc.Conn)
		cs, conns = append(cs, c), append(conns, mc.Conn)
	}
	if sym.Pick("slow", 2) == 1 { // what is queued is written later
		for _, c := range cs {
			c.SlowWrite = 10 * time.Millisecond
		}
	}
	var ctx context.Context
	if sym.Pick("ctx", 2) == 1 {
		ctx = context.Background()
	}
	var want []msg
	api := sym.Pick("api", 8)
	for i := 0; i < 2; i++ {
		n := 3
		if i == 0 {
			n = pickT("len", []int{0, 1, 5, 130}, []int{0, 1, 4, 5, 50, 51, 125, 126, 127, 130, 400})
		}
		p, all, keep := guarded("p", n)
		data := append([]byte(nil), p...)
		op := byte(2)
		var err error
		switch api {
		case 0:
			err = conns[0].SendBytes(ctx, p)
		case 1:
			op = 1
			err = conns[0].SendString(ctx, p)
		case 2:
			err = conns[0].SendMessage(ctx, 2, p)
		case 3, 4: // overwritten between the writes
			w, e := conns[0].NextWriter(ctx, 2)
			sym.Assert(e == nil, "NextWriter failed")
			k := n / 2
			_, e1 := w.Write(p[:k])
			sym.Assert(eq(all, keep), "Write changed memory of the caller")
			junk(p[:k:k])
			if api == 4 {
				sym.Assert(w.Flush() == nil, "Flush failed")
			}
			_, e2 := w.Write(p[k:])
			sym.Assert(e1 == nil && e2 == nil, "Write failed")
			junk(p[:k:k])
			sym.Assert(eq(all, keep), "Write changed memory of the caller")
			junk(p)
			err = w.Close()
			junk(p)
		case 5:
			_, err = m.BroadcastBytes(ctx, p)
		case 6:
			op = 1
			_, err = r.BroadcastString(ctx, p)
		case 7:
			_, err = r.BroadcastBytes(ctx, p, conns[1])
		}
		sym.Assert(err == nil, "call failed")
		sym.Assert(eq(all, keep), "the call changed memory of the caller")
		junk(p)
		keep = append([]byte(nil), all...)
		want = append(want, msg{op, data})
		sym.Idle()
		sym.Assert(eq(all, keep), "memory of the caller changed after the call returned")
	}
	time.Sleep(time.Second)
	sym.Idle()
	sent(cs[0], want)
	if api == 5 || api == 6 {
		sent(cs[1], want)
	}
	sym.Cover("done")
}

// C36Recv: what a read returned stays as it is, whatever happens next, and
// overwriting it changes nothing else.
func C36Recv() {
	o := noUTF8(small())
	o.ReadBufferSize = pickLen("rbuf", 256, 64)
	c := fake.NewConn()
	conn := dialBuf(snapws.NewUpgrader(o), c, pickLen("hbuf", 256, 32), 64)
	over := sym.Pick("over", 2) == 1
	api := sym.Pick("api", 3)
	var ms []msg
	var s []byte
	for i := 0; i < 3; i++ {
		n := 4
		if i == 0 {
			n = pickT("len", []int{1, 5, 40}, []int{0, 1, 5, 30, 40, 126, 300})
		}
		op := byte(2)
		if api == 2 {
			op = 1
		}
		d := sym.Bytes("d", n)
		if sym.Pick("nf", 2) == 1 {
			s = cf(s, false, op, d[:n/2])
			s = cf(s, true, 0, d[n/2:])
		} else {
			s = cf(s, true, op, d)
		}
		ms = append(ms, msg{op, d})
		s = kf(s, true, 9, []byte{'p', byte('0' + i)})
	}
	fed := make(chan bool)
	if sym.Pick("late", 2) == 0 {
		c.Feed(s)
		close(fed)
	} else {
		go func() {
			for at := 0; at < len(s); at += 11 {
				c.Feed(s[at:min(at+11, len(s))])
				time.Sleep(time.Millisecond)
			}
			close(fed)
		}()
	}
	var got, keep [][]byte
	for i := range ms {
		var d []byte
		var err error
		switch api {
		case 0:
			_, d, err = conn.ReadMessage()
		case 1:
			d, err = conn.ReadBinary()
		case 2:
			d, err = conn.ReadString()
		}
		sym.Assert(err == nil, "read failed")
		sym.Assert(eq(d, ms[i].data), "message differs from the one received")
		if over {
			junk(d)
			d = append(d, 1, 2, 3)
		}
		got = append(got, d)
		keep = append(keep, append([]byte(nil), d...))
		for j := range got {
			sym.Assert(eq(got[j], keep[j]), "a message already returned changed")
		}
		if i == 1 {
			sym.Assert(conn.SendBytes(nil, []byte("out")) == nil, "send failed")
		}
	}
	<-fed
	c.Feed(kf(nil, true, 8, []byte{3, 232}))
	conn.ReadMessage()
	conn.Close()
	sym.Idle()
	for j := range got {
		sym.Assert(eq(got[j], keep[j]), "a message already returned changed")
	}
	_, ctl, _ := wire(c)
	n := 0
	for _, f := range ctl {
		if f.Op == 10 {
			sym.Assert(len(f.Payload) == 2 && f.Payload[0] == 'p' && f.Payload[1] == byte('0'+n), "pong differs from its ping")
			n++
		}
	}
	sym.Assert(n == 3, "pings unanswered")
	sym.Cover("done")
}

// C36Snap: lists that were returned are snapshots the caller owns.
func C36Snap() {
	u := snapws.NewUpgrader(small())
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	r := rm.Add("r")
	var mcs []*snapws.ManagedConn[string]
	var cs []*fake.Conn
	add := func(k string) {
		c := fake.NewConn()
		mc, err := m.Connect(k, fake.NewResponse(c, 256, 64), fake.Request())
		sym.Assert(err == nil, "connect failed")
		stripResp(c)
		r.Add(mc.Conn)
		mcs, cs = append(mcs, mc), append(cs, c)
	}
	for i := 0; i <= sym.Pick("n", 3); i++ {
		add("k" + dec(i))
	}
	rm.Add("s")
	kx := []string{"k0", "none", "k0", "none2"}
	rx := []*snapws.Conn{mcs[0].Conn, nil, mcs[0].Conn, nil}
	ne := sym.Pick("exclude", 6)
	if ne >= 4 { // a stranger first, or a repetition
		ne -= 2
		kx, rx = []string{"none", "k0", "k0", "x"}, []*snapws.Conn{nil, mcs[0].Conn, mcs[0].Conn, nil}
	}
	kx0, rx0 := append([]string(nil), kx...), append([]*snapws.Conn(nil), rx...)
	mex := func() ([]*snapws.ManagedConn[string], []*snapws.Conn, []*snapws.Conn, []string) {
		return m.GetAllConns(kx[:ne]...), m.GetAllConnsAsConn(kx[:ne]...), r.GetAllConns(rx[:ne]...), rm.GetRoomKeys()
	}
	a, b, c, k := mex()
	la, lb, lc, lk := len(a), len(b), len(c), len(k)
	want := len(mcs)
	if ne > 0 {
		want--
	}
	sym.Assert(la == want && lb == want && lc == want && lk == 2, "wrong number of members")
	for i := range kx {
		sym.Assert(kx[i] == kx0[i] && rx[i] == rx0[i], "exclusions changed")
	}
	switch sym.Pick("then", 5) {
	case 0: // the lists are overwritten
		for i := range a[:cap(a)] {
			a[:cap(a)][i] = nil
		}
		for i := range b[:cap(b)] {
			b[:cap(b)][i] = nil
		}
		for i := range c[:cap(c)] {
			c[:cap(c)][i] = nil
		}
		for i := range k[:cap(k)] {
			k[:cap(k)][i] = "?"
		}
	case 1: // membership changes
		a0 := append([]*snapws.ManagedConn[string](nil), a...)
		b0 := append([]*snapws.Conn(nil), b...)
		c0 := append([]*snapws.Conn(nil), c...)
		k0 := append([]string(nil), k...)
		x := fake.NewConn()
		mc, err := m.Connect("new", fake.NewResponse(x, 256, 64), fake.Request())
		sym.Assert(err == nil, "connect failed")
		r.Add(mc.Conn)
		rm.Add("t")
		mex()
		mc.Close()
		mcs[len(mcs)-1].Close()
		rm.Get("t").Close()
		for i := range a0 {
			sym.Assert(a[i] == a0[i] && b[i] == b0[i] && c[i] == c0[i], "a list already returned changed")
		}
		for i := range k0 {
			sym.Assert(k[i] == k0[i], "a list already returned changed")
		}
		sym.Cover("done")
		return
	case 2: // appended to
		_ = append(a, nil)
		_ = append(b, nil)
		_ = append(c, nil)
		_ = append(k, "?")
	case 3:
		for i := range a {
			a[i], b[i], c[i] = nil, nil, nil
		}
	case 4: // entries repeated
		for i := range a {
			a[i], b[i], c[i] = a[0], b[0], c[0]
		}
		k[0] = k[1]
	}
	a, b, c, k = mex()
	sym.Assert(len(a) == la && len(b) == lb && len(c) == lc && len(k) == lk, "number of members changed")
	for i := range a {
		sym.Assert(a[i] != nil && b[i] != nil && c[i] != nil, "a member is gone")
		for j := range a[:i] {
			sym.Assert(a[i] != a[j] && b[i] != b[j] && c[i] != c[j], "a member is listed twice")
		}
	}
	sym.Assert((k[0] == "r" && k[1] == "s") || (k[0] == "s" && k[1] == "r"), "room keys changed")
	n, err := m.BroadcastBytes(nil, []byte("x"))
	sym.Assert(err == nil && n == len(mcs), "broadcast count differs")
	n, err = r.BroadcastBytes(nil, []byte("y"), rx[:ne]...)
	sym.Assert(err == nil && n == want, "broadcast count differs")
	sym.Idle()
	for i, x := range cs {
		l := []msg{{2, []byte("x")}, {2, []byte("y")}}
		if i == 0 && ne > 0 {
			l = l[:1]
		}
		sent(x, l)
	}
	sym.Cover("done")
}

// ---- C37 ----

// C37Alloc: a length announced is no reason to allocate; the bytes received are.
func C37Alloc() {
	o := noUTF8(small())
	if sym.Pick("max", 2) == 1 {
		o.MaxMessageSize = -1
	}
	limited := sym.Pick("limited", 2) == 1
	u := snapws.NewUpgrader(o)
	if limited {
		u.Limiter = snapws.NewRateLimiter(1, 1)
		u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { return nil }
	}
	conn, c := dial(u)
	if limited {
		c.Feed(kf(nil, true, 2, []byte("a")))
		conn.ReadMessage()
	}
	op := byte(1 + sym.Pick("op", 2))
	key := []byte{1, 2, 3, 4}
	have := pickLen("have", 0, 3)
	body := sym.Bytes("b", have)
	if op == 1 || sym.Pick("json", 2) == 1 {
		for i := range body {
			body[i] = '1'
			body[i] ^= key[i%4]
		}
	}
	n := sym.Uint64("n")
	sym.Assume(n >= 1<<24 && n <= 1<<29 || n >= 1<<62)
	var s []byte
	switch sym.Pick("place", 3) {
	case 0:
		s = append(hdr(true, op, 2, n, key), body...)
	case 1:
		s = append(hdr(false, op, 2, n, key), body...)
	case 2: // the second frame announces it
		s = kf(nil, false, op, []byte("1"))
		s = append(s, hdr(true, 0, 2, n, key)...)
		s = append(s, body...)
	}
	c.Feed(s)
	if sym.Pick("silent", 2) == 0 {
		c.EOF()
	}
	api := sym.Pick("api", 5)
	sym.Budget(1 << 20)
	within(3*time.Hour, "read of a message cut off", func() {
		var err error
		got := 0
		switch api {
		case 0:
			_, _, err = conn.ReadMessage()
		case 1:
			_, err = conn.ReadBinary()
		case 2:
			_, err = conn.ReadString()
		case 3:
			var v any
			err = conn.ReadJSON(&v)
		case 4:
			var r io.Reader
			r, _, err = conn.NextReader()
			b := make([]byte, 8)
			for err == nil && got < 64 {
				var k int
				k, err = r.Read(b)
				got += k
			}
			sym.Assert(got <= have+1, "more bytes read than received")
		}
		sym.Assert(err != nil && err != io.EOF, "message cut off read as complete")
	})
	conn.Close()
	sym.Budget(0)
	sym.Cover("done")
}

// C37Bytes: whatever bytes arrive, reads return, nothing panics, and what was
// not received is not delivered.
func C37Bytes() {
	o := small()
	o.MaxMessageSize = pickLen("max", 0, 3)
	conn, c := dial(snapws.NewUpgrader(o))
	n := 6 + sym.Tier()
	c.Feed(sym.Bytes("in", n))
	c.EOF()
	api := sym.Pick("api", 4)
	total := 0
	sym.Budget(1 << 20)
	within(3*time.Hour, "reading arbitrary bytes", func() {
		for i := 0; ; i++ {
			sym.Assert(i <= n, "reads never end")
			var d []byte
			var err error
			switch api {
			case 0:
				_, d, err = conn.ReadMessage()
			case 1:
				_, d, err = stream(conn, func() int { return 2 })
			case 2:
				var v any
				err = conn.ReadJSON(&v)
			case 3:
				d, err = conn.ReadString()
			}
			total += len(d)
			if fatal(err) {
				break
			}
			if err != nil && err != io.EOF && api == 3 {
				continue
			}
		}
	})
	sym.Budget(0)
	sym.Assert(total <= n, "more bytes delivered than received")
	sym.Assert(c.IsClosed(), "connection left open after a fatal error")
	sym.Cover("done")
}

// C36Args: the arguments of joins and leaves are passed on as they are, and the
// caller's array behind them stays as it is.
func C36Args() {
	u := snapws.NewUpgrader(noUTF8(small()))
	rm := snapws.NewRoomManager[string](u)
	n := sym.Pick("n", 4)
	all := [6]any{1, "two", nil, 4, "five", 6}
	same := func(args []any, k int) {
		sym.Assert(len(args) == k, "wrong number of arguments")
		for i, a := range args {
			sym.Assert(a == all[i], "arguments differ")
		}
	}
	joins, leaves, nl := 0, 0, 0
	rm.DefaultOnJoin = func(_ *snapws.Room[string], _ *snapws.Conn, args ...any) {
		joins++
		same(args, n)
	}
	rm.DefaultOnLeave = func(_ *snapws.Room[string], _ *snapws.Conn, args ...any) {
		leaves++
		same(args, nl)
	}
	in := all
	var conn *snapws.Conn
	var r *snapws.Room[string]
	c := fake.NewConn()
	if sym.Pick("connect", 2) == 1 {
		var err error
		conn, r, err = rm.Connect(fake.NewResponse(c, 256, 64), fake.Request(), "r", in[:n]...)
		sym.Assert(err == nil, "connect failed")
	} else {
		conn, r = dialOn(u, c), rm.Add("r")
		r.Add(conn, in[:n]...)
	}
	sym.Assert(joins == 1 && in == all, "the caller's arguments changed")
	switch sym.Pick("leave", 6) {
	case 0:
		nl = n
		conn.Close()
	case 1:
		nl = sym.Pick("nl", 3)
		r.Remove(conn, in[:nl]...)
	case 2:
		r.RemoveAll()
	case 3:
		r.Close()
	case 4:
		r.Move(conn, "nowhere")
	case 5:
		nl = n
		c.EOF()
		conn.ReadMessage()
	}
	sym.Idle()
	sym.Assert(leaves == 1 && in == all, "the caller's arguments changed")
	sym.Cover("done")
}

// C36Use: upgraders whose options were made from one list of middlewares each
// run that list and what was added to them, nothing else.
func C36Use() {
	var ran []int
	mw := func(i int) snapws.Middlware {
		return func(http.ResponseWriter, *http.Request) error {
			ran = append(ran, i)
			return nil
		}
	}
	base := make([]snapws.Middlware, 1+sym.Pick("spare", 3))
	for i := range base {
		base[i] = mw(100 + i)
	}
	k := sym.Pick("n", len(base)+1)
	var us []*snapws.Upgrader
	want := make([][]int, 2)
	for i := range want {
		us = append(us, snapws.NewUpgrader(&snapws.Options{Middlwares: base[:k]}))
		for j := 0; j < k; j++ {
			want[i] = append(want[i], 100+j)
		}
	}
	for i := 0; i < 3; i++ {
		x := sym.Pick("which", 2)
		us[x].Use(mw(i))
		want[x] = append(want[x], i)
	}
	check := func(l []int) {
		sym.Assert(len(ran) == len(l), "wrong number of middlewares ran")
		for i := range l {
			sym.Assert(ran[i] == l[i], "another upgrader's middleware ran")
		}
	}
	for i, u := range us {
		ran = nil
		dial(u)
		check(want[i])
	}
	ran = nil
	for i := range base { // the list itself is what it was
		base[i](nil, nil)
		sym.Assert(len(ran) == i+1 && ran[i] == 100+i, "the caller's list changed")
	}
	sym.Cover("done")
}
