package h

import (
	"context"
	"io"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// Long histories and large groups: what holds for the first few holds for the
// three-hundredth, too.

// pat is a payload of n bytes that differs from its neighbours'.
func pat(i, n int) []byte {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(i*31 + j*7 + i>>8)
	}
	return b
}

// C01Soak: hundreds of messages over one connection, with one symbolic byte each
// tenth message, whole or fragmented, pings between, read with every API.
func C01Soak() {
	n := 300 + 300*sym.Tier()
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	api := sym.Pick("api", 4)
	c.OnWrite = func(b []byte) {
		if len(b) > 0 && b[0] == 0x89 {
			c.Feed(kf(nil, true, 10, nil))
		}
	}
	pings := 0
	for i := 0; i < n; i++ {
		p := pat(i, i%7+i/40)
		if i%10 == 3 && len(p) > 0 {
			p[len(p)-1] = sym.Byte("b")
		}
		op := byte(1 + i%2)
		var s []byte
		switch k := len(p) / 2; i % 3 {
		case 0:
			s = kf(s, true, op, p)
		case 1:
			s = kf(kf(s, false, op, p[:k]), true, 0, p[k:])
		case 2:
			s = kf(kf(kf(s, false, op, nil), false, 0, p[:k]), true, 0, p[k:])
		}
		if i%4 == 1 {
			s = kf(s, true, 9, []byte{byte(i)})
			pings++
		}
		c.Feed(s)
		if i%50 == 49 {
			sym.Assert(conn.Ping() == nil, "Ping failed")
		}
		var got []byte
		var o byte
		var err error
		switch {
		case api == 1:
			o, got, err = stream(conn, func() int { return 1 + i%5 })
		case api == 2 && op == 2:
			got, err = conn.ReadBinary()
			o = 2
		case api == 2 || api == 3 && op == 1:
			got, err = conn.ReadString()
			o = 1
		default:
			o, got, err = conn.ReadMessage()
		}
		sym.Assert(err == nil, "read failed")
		sym.Assert(o == op, "message type differs")
		sym.Assert(eq(got, p), "message differs from the one sent")
	}
	c.Feed(kf(nil, true, 2, nil))
	_, _, err := conn.ReadMessage()
	sym.Assert(err == nil, "read failed")
	_, ctl, _ := wire(c)
	k := 0
	for _, f := range ctl {
		if f.Op == 10 {
			sym.Assert(len(f.Payload) == 1 && f.Payload[0] == byte(4*k+1), "pong differs from its ping")
			k++
		}
	}
	sym.Assert(k == pings, "number of pongs differs")
	sym.Cover("done")
}

// C10Soak: hundreds of messages sent over one connection by every API.
func C10Soak() {
	n := 300 + 300*sym.Tier()
	o := small()
	o.WriteBufferSize = pickLen("wbuf", 64, 20)
	o.DisableWriteBuffersPooling = sym.Pick("nopool", 2) == 1
	conn, c := dialW(o, 64)
	var want []msg
	for i := 0; i < n; i++ {
		p := pat(i, i%9+i/20)
		if i%10 == 3 && len(p) > 0 {
			p[0] = sym.Byte("b")
		}
		op := byte(1 + i%2)
		var err error
		switch {
		case i%4 == 3:
			w, e := conn.NextWriter(nil, op)
			sym.Assert(e == nil, "NextWriter failed")
			_, e = w.Write(p[:len(p)/2])
			sym.Assert(e == nil, "Write failed")
			if i%8 == 3 {
				sym.Assert(w.Flush() == nil, "Flush failed")
			}
			_, e = w.Write(p[len(p)/2:])
			sym.Assert(e == nil, "Write failed")
			err = w.Close()
		case i%4 == 2:
			err = conn.SendMessage(context.Background(), op, p)
		case op == 1:
			err = conn.SendString(nil, p)
		default:
			err = conn.SendBytes(nil, p)
		}
		sym.Assert(err == nil, "send failed")
		want = append(want, msg{op, p})
	}
	sent(c, want)
	sym.Cover("done")
}

// C09Soak: hundreds of keep-alive periods.
func C09Soak() {
	n := 280 + 300*sym.Tier()
	o := small()
	o.PingEvery, o.ReadWait = 10*time.Second, 25*time.Second
	conn, c := dial(snapws.NewUpgrader(o))
	pings := 0
	late := pickDur("late", 0, time.Second, 9999*time.Millisecond)
	c.OnWrite = func(b []byte) {
		if len(b) > 0 && b[0] == 0x89 {
			pings++
			if late == 0 {
				c.Feed(kf(nil, true, 10, nil))
				return
			}
			go func() {
				time.Sleep(late)
				c.Feed(kf(nil, true, 10, nil))
			}()
		}
	}
	end := false
	go func() { conn.ReadMessage(); end = true }()
	t0 := time.Now()
	for i := 1; i <= n; i++ {
		time.Sleep(10 * time.Second)
		sym.Idle()
		sym.Assert(pings == i, "not one ping every PingEvery")
		sym.Assert(!end && !c.IsClosed(), "a peer that answers every ping was disconnected")
	}
	sym.Assert(time.Since(t0) == time.Duration(n)*10*time.Second, "clock")
	conn.Close()
	sym.Cover("done")
}

// C26Soak: hundreds of messages at a steady pace against the allowance.
func C26Soak() {
	mps := pickLen("mps", 1, 10)
	burst := pickLen("burst", 1, 20)
	u := snapws.NewUpgrader(noUTF8(small()))
	u.Limiter = snapws.NewRateLimiter(mps, burst)
	conn, c := dial(u)
	const per = int64(time.Second)
	tokens := int64(burst) * per
	last := time.Now()
	gap := pickDur("gap", 50*time.Millisecond, 100*time.Millisecond, 1250*time.Millisecond)
	for i := 0; i < 300; i++ {
		now := time.Now()
		tokens = min(tokens+int64(now.Sub(last))*int64(mps), int64(burst)*per)
		last = now
		ok := tokens >= per
		if ok {
			tokens -= per
		}
		c.Feed(kf(nil, true, 2, []byte{byte(i)}))
		_, d, err := conn.ReadMessage()
		// rounding inside the limiter may shift a decision that is exactly due
		if near := tokens + per*int64(b2i(ok)) - per; near > -1000 && near < 1000 && !ok != (err != nil) {
			if ok {
				tokens += per
			} else {
				tokens -= per
			}
			continue
		}
		sym.Assert((err == nil) == ok, "allowance differs after many messages")
		sym.Assert(err != nil || len(d) == 1 && d[0] == byte(i), "message changed")
		sym.Assert(err == nil || !fatal(err), "limited message ends the connection")
		if i%60 == 59 {
			time.Sleep(7 * time.Second)
		} else if i%3 != 0 {
			time.Sleep(gap)
		}
	}
	sym.Cover("done")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C18Soak: many keys, each replaced now and then.
func C18Soak() {
	g := newRegistry()
	n := 40 + 60*sym.Tier()
	cur := map[int]*member{}
	key := func(i int) string { return "k" + dec(i) }
	for i := 0; i < n; i++ {
		cur[i] = g.connect(key(i))
	}
	for i := 0; i < n; i += 3 {
		cur[i] = g.connect(key(i))
	}
	for i := 1; i < n; i += 3 {
		cur[i].conn.Close()
		delete(cur, i)
	}
	for i := 4; i < n; i += 6 {
		cur[i] = g.connect(key(i))
	}
	sym.Idle()
	live := 0
	for i := 0; i < n; i++ {
		mc := g.m.Get(key(i))
		if b := cur[i]; b == nil {
			sym.Assert(mc == nil, "closed connection found")
		} else {
			sym.Assert(mc != nil && mc == b.mc && mc.Key == key(i), "another connection found")
			live++
		}
	}
	sym.Assert(len(g.m.GetAllConns()) == live && len(g.m.GetAllConnsAsConn()) == live, "number of connections differs")
	for _, b := range g.ms {
		in := 0
		for _, x := range cur {
			in += b2i(x == b)
		}
		sym.Assert(b.reg == 1 && b.unreg == 1-in && b.discon == 1-in, "hooks did not run exactly once")
		sym.Assert(b.c.IsClosed() == (in == 0), "connection in the wrong state")
	}
	var ex []string
	for i := 0; i < n; i += 2 {
		ex = append(ex, key(i))
	}
	want := 0
	for i := range cur {
		want += i % 2
	}
	for _, b := range g.ms {
		b.c.ResetOut()
	}
	k, err := g.m.BroadcastBytes(nil, []byte("m"), ex...)
	sym.Assert(err == nil && k == want, "broadcast count differs")
	sym.Idle()
	for i, b := range cur {
		if i%2 == 1 {
			sent(b.c, []msg{{2, []byte("m")}})
		} else {
			sent(b.c, nil)
		}
	}
	within(time.Minute, "Shutdown", g.m.Shutdown)
	for _, b := range g.ms {
		sym.Assert(b.unreg == 1 && b.discon == 1 && b.c.IsClosed(), "Shutdown left something")
	}
	sym.Assert(len(g.m.GetAllConns()) == 0, "Shutdown left something")
	sym.Cover("done")
}

// C21Many: a large group, several broadcasts, many exclusions.
func C21Many() {
	n := 40 + 60*sym.Tier()
	o := noUTF8(small())
	o.BroadcastBackpressure = snapws.BackpressureStrategy(sym.Pick("strategy", 3))
	u := snapws.NewUpgrader(o)
	room := sym.Pick("room", 2) == 1
	m := snapws.NewManager[int](u)
	rm := snapws.NewRoomManager[string](u)
	join, leave := map[*snapws.Conn]int{}, map[*snapws.Conn]int{}
	rm.DefaultOnJoin = func(_ *snapws.Room[string], c *snapws.Conn, _ ...any) { join[c]++ }
	rm.DefaultOnLeave = func(_ *snapws.Room[string], c *snapws.Conn, _ ...any) { leave[c]++ }
	r, s := rm.Add("r"), rm.Add("s")
	var cs []*fake.Conn
	var conns []*snapws.Conn
	for i := 0; i < n; i++ {
		c := fake.NewConn()
		mc, err := m.Connect(i, fake.NewResponse(c, 256, 64), fake.Request())
		sym.Assert(err == nil, "connect failed")
		stripResp(c)
		if i%5 == 4 {
			s.Add(mc.Conn)
		}
		r.Add(mc.Conn)
		cs, conns = append(cs, c), append(conns, mc.Conn)
	}
	out := map[int]bool{}
	for i := 2; i < n; i += 7 {
		out[i] = true
		if i%2 == 0 {
			conns[i].Close()
			cs[i].ResetOut()
		} else if room {
			r.Remove(conns[i])
		} else {
			out[i] = false
		}
	}
	sym.Idle()
	var want = make([][]msg, n)
	for k := 0; k < 12; k++ {
		p := append(pat(k, k*9), sym.Byte("b"))
		var exk []int
		var exc []*snapws.Conn
		cnt := 0
		for i := range conns {
			if k > 0 && i%(k+1) == 0 {
				exk = append(exk, i)
				exc = append(exc, conns[i])
			} else if !out[i] {
				cnt++
				want[i] = append(want[i], msg{2, p})
			}
		}
		var got int
		var err error
		if room {
			got, err = r.BroadcastBytes(nil, p, exc...)
		} else {
			got, err = m.BroadcastBytes(nil, p, exk...)
		}
		sym.Assert(err == nil && got == cnt, "broadcast count differs")
		sym.Idle()
	}
	for i := range conns {
		if out[i] && cs[i].IsClosed() {
			sym.Assert(len(cs[i].Out()) == 0, "bytes written after close")
			continue
		}
		sent(cs[i], want[i])
	}
	// everybody leaves
	if sym.Pick("end", 2) == 0 {
		r.RemoveAll()
		for i, c := range conns {
			two := b2i(i%5 == 4)
			x := b2i(cs[i].IsClosed()) * two
			sym.Assert(join[c] == 1+two && leave[c] == 1+x, "join or leave hooks did not run exactly once")
		}
		sym.Assert(len(r.GetAllConns()) == 0, "member left after RemoveAll")
	} else {
		within(time.Minute, "Shutdown", rm.Shutdown)
		for i, c := range conns {
			two := b2i(i%5 == 4)
			sym.Assert(join[c] == 1+two, "join hooks did not run exactly once")
			if room && out[i] && !(two == 1) {
				continue // closed or removed before
			}
			sym.Assert(cs[i].IsClosed() && leave[c] == 1+two, "Shutdown left a member")
		}
	}
	sym.Cover("done")
}

// C24Many: one batch of hundreds of messages, and many batches.
func C24Many() {
	n := 120 + 180*sym.Tier()
	o := noUTF8(small())
	o.WriteBufferSize = pickLen("wbuf", 64, 4096)
	o.MaxBatchSize = pickLen("limit", 0, 700, 9)
	slow := pickDur("slow", 0, 3*flushEvery)
	closing := sym.Pick("closing", 2) == 1
	u := snapws.NewUpgrader(o)
	kind := sym.Pick("strategy", 3)
	var got [][]byte
	switch kind {
	case 0:
		u.EnableJSONBatching(nil, flushEvery)
	case 1:
		u.EnablePrefixBatching(nil, flushEvery)
	case 2:
		u.EnableBatching(nil, flushEvery, func(_ context.Context, _ *snapws.Conn, ms [][]byte) error {
			time.Sleep(slow)
			got = append(got, ms...)
			return nil
		})
	}
	conn, c := dial(u)
	c.SlowWrite = slow
	var want [][]byte
	for i := 0; i < n; i++ {
		p := []byte("1" + dec(i))
		if i%30 == 7 {
			p = append(p, '0'+sym.Byte("b")&7)
		}
		want = append(want, p)
		sym.Assert(conn.Batch(p) == nil, "Batch failed")
		if i%97 == 96 {
			time.Sleep(2 * flushEvery)
		}
	}
	if closing {
		u.Flusher.Close()
	}
	time.Sleep(2*flushEvery + time.Duration(4*n)*slow)
	sym.Idle()
	if kind < 2 {
		for _, m := range wireMsgs(c) {
			sym.Assert(m.Op == 2, "batch of another type")
			if kind == 0 {
				l, ok := split(m.Data)
				sym.Assert(ok, "batch is not an array")
				got = append(got, l...)
			} else {
				got = append(got, unbatch(m.Data)...)
			}
		}
	}
	sym.Assert(len(got) == n, "batched messages lost or repeated")
	for i := range want {
		sym.Assert(eq(got[i], want[i]), "batched messages out of order or changed")
	}
	sym.Cover("done")
}

// split takes a JSON array of numbers apart.
func split(b []byte) (l [][]byte, ok bool) {
	if len(b) < 2 || b[0] != '[' || b[len(b)-1] != ']' {
		return nil, false
	}
	at := 1
	for i := 1; i < len(b); i++ {
		if i == len(b)-1 || b[i] == ',' {
			l = append(l, b[at:i])
			at = i + 1
		}
	}
	return l, true
}

// C15Soak: hundreds of connections opened and closed leave nothing behind.
func C15Soak() {
	n := 120 + 180*sym.Tier()
	o := noUTF8(lifeOpts())
	u := snapws.NewUpgrader(o)
	u.Limiter = snapws.NewRateLimiter(5, 5)
	u.EnableJSONBatching(nil, flushEvery)
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	base := 0
	how := sym.Pick("how", 4)
	for i := 0; i < n; i++ {
		c := fake.NewConn()
		mc, err := m.Connect("k"+dec(i%3), fake.NewResponse(c, 256, 64), fake.Request())
		sym.Assert(err == nil, "connect failed")
		rm.Add("r" + dec(i%4)).Add(mc.Conn)
		if i%2 == 0 {
			m.BroadcastBytes(nil, []byte("x"))
			mc.Batch([]byte("1"))
			sym.Idle()
		}
		switch how {
		case 0:
			mc.Close()
		case 1:
			c.EOF()
			mc.ReadMessage()
		case 2: // replaced
			c = fake.NewConn()
			mc, err = m.Connect(mc.Key, fake.NewResponse(c, 256, 64), fake.Request())
			sym.Assert(err == nil, "connect failed")
			mc.Close()
		case 3:
			c.Feed(kf(nil, true, 8, []byte{3, 232}))
			mc.ReadMessage()
		}
		if i%20 == 5 {
			time.Sleep(3 * flushEvery)
			sym.Idle()
			if base == 0 {
				base = sym.Goroutines()
			}
			sym.Assert(sym.Goroutines() == base, "goroutines left behind by closed connections")
			sym.Assert(len(m.GetAllConns()) == 0, "closed connection found")
			for j := 0; j < 4; j++ {
				if r := rm.Get("r" + dec(j)); r != nil {
					sym.Assert(len(r.GetAllConns()) == 0, "closed connection is a member")
				}
			}
		}
	}
	u.Flusher.Close()
	sym.Cover("done")
}

// C06Long: a message of many fragments, skipped or read in part.
func C06Long() {
	n := []int{2, 20, 70}[sym.Pick("n", 3)]
	if sym.Tier() > 0 {
		n *= 5
	}
	u := snapws.NewUpgrader(noUTF8(small()))
	kind := sym.Pick("kind", 5)
	if kind == 3 {
		u.Limiter = snapws.NewRateLimiter(1, 1)
	}
	conn, c := dial(u)
	if kind == 3 {
		c.Feed(kf(nil, true, 2, []byte("m")))
		_, _, err := conn.ReadMessage()
		sym.Assert(err == nil, "first message limited")
	}
	size := pickLen("size", 0, 1, 9)
	op := byte(2)
	if kind == 4 {
		op = 1
	}
	ping := sym.Pick("pings", 2) == 1
	key := sym.Bytes("key", 4)
	var s []byte
	for i := 0; i < n; i++ {
		p := pat(i, size)
		if kind == 4 && size > 0 {
			p = []byte("[")
		}
		if i > 0 {
			op = 0
		}
		s = append(s, fake.Client(i == n-1, op, key, p)...)
		if ping && i%4 == 1 {
			s = kf(s, true, 9, nil)
		}
	}
	last := sym.Bytes("last", 3)
	s = append(s, fake.Client(true, 2, key, last)...)
	c.Feed(s)
	switch kind {
	case 0: // not read at all
		_, _, err := conn.NextReader()
		sym.Assert(err == nil, "NextReader failed")
	case 1: // a little
		r, _, err := conn.NextReader()
		sym.Assert(err == nil, "NextReader failed")
		b := make([]byte, 3)
		_, err = r.Read(b)
		sym.Assert(!fatal(err), "Read failed")
	case 2: // read whole as the wrong type
		_, err := conn.ReadString()
		sym.Assert(err != nil && !fatal(err), "type mismatch: want a non-fatal error")
	case 3:
		_, _, err := conn.ReadMessage()
		sym.Assert(err != nil && !fatal(err), "limited message: want a non-fatal error")
		time.Sleep(time.Second)
	case 4: // no JSON
		var v int
		err := conn.ReadJSON(&v)
		sym.Assert(err != nil && (size == 0 || !fatal(err)), "not JSON: want an error")
	}
	op, d, err := conn.ReadMessage()
	sym.Assert(err == nil && op == 2 && eq(d, last), "the message after an abandoned one differs")
	k := 0
	for _, b := range c.Out() {
		k += b2i(b == 0x8a)
	}
	want := 0
	for i := 1; i < n; i += 4 {
		want += b2i(ping)
	}
	sym.Assert(k == want, "pings inside an abandoned message not answered")
	sym.Cover("done")
}

// C26Many: each of many connections has an allowance of its own, for as long as it is open.
func C26Many() {
	n := 100 + 200*sym.Tier()
	u := snapws.NewUpgrader(noUTF8(small()))
	burst := 1 + sym.Pick("burst", 2)
	u.Limiter = snapws.NewRateLimiter(1, burst)
	hits := map[*snapws.Conn]int{}
	u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error { hits[c]++; return nil }
	var conns []*snapws.Conn
	var cs []*fake.Conn
	for i := 0; i < n; i++ {
		conn, c := dial(u)
		conns, cs = append(conns, conn), append(cs, c)
		if i%6 == 5 {
			conns[i-1].Close()
		}
	}
	for i, conn := range conns {
		if cs[i].IsClosed() {
			continue
		}
		for k := 0; k < burst+2; k++ {
			cs[i].Feed(kf(nil, true, 2, []byte("m")))
			_, _, err := conn.ReadMessage()
			sym.Assert((err == nil) == (k < burst), "allowance differs with many connections")
		}
		sym.Assert(hits[conn] == 2, "hook did not run once per limited message")
	}
	sym.Cover("done")
}

// C34Frags: with ReaderMaxFragments unset a message may have any number of frames.
func C34Frags() {
	n := []int{1, 65, 130}[sym.Pick("n", 3)]
	if sym.Tier() > 0 {
		n *= 8
	}
	o := &snapws.Options{SkipUTF8Validation: true}
	if sym.Pick("max", 2) == 1 {
		o.MaxMessageSize = -1
	}
	if sym.Pick("frags", 2) == 1 {
		o.ReaderMaxFragments = n
	}
	conn, c := dial(snapws.NewUpgrader(o))
	b := sym.Byte("b")
	var s, want []byte
	for i := 0; i < n; i++ {
		op := byte(0)
		if i == 0 {
			op = 2
		}
		p := []byte{byte(i), b}[:i%3]
		want = append(want, p...)
		s = kf(s, i == n-1, op, p)
	}
	c.Feed(s)
	_, d, err := conn.ReadMessage()
	sym.Assert(err == nil, "message of many frames refused")
	sym.Assert(eq(d, want), "message of many frames differs")
	sym.Cover("done")
}

// C03Big: limits far above what a few small frames can reach, hit by the sum of several.
func C03Big() {
	limits := []int{300, 70000}
	if sym.Tier() > 0 {
		limits = []int{300, 70000, 140000, -1, 0}
	}
	limit := limits[sym.Pick("limit", len(limits))]
	o := noUTF8(small())
	o.ReadBufferSize = 4096
	o.MaxMessageSize = limit
	if limit == 0 {
		limit = 1 << 20
	}
	over := sym.Pick("over", 3)
	total := limit - 1 + over // one less, exact, one more
	if limit < 0 {
		total = 200000 + over
	}
	n := []int{2, 3, 20}[sym.Pick("n", 3)]
	conn, c := dial(snapws.NewUpgrader(o))
	c.Feed(kf(nil, true, 2, make([]byte, 9))) // an earlier message doesn't count
	_, d, err := conn.ReadMessage()
	sym.Assert(err == nil && len(d) == 9, "first message differs")
	var s []byte
	left := total
	for i := 0; i < n; i++ {
		k := total / n
		if i == n-1 {
			k = left
		}
		left -= k
		op := byte(0)
		if i == 0 {
			op = 2
		}
		s = kf(s, i == n-1, op, make([]byte, k))
	}
	c.Feed(s)
	got := 0
	if sym.Pick("stream", 2) == 1 {
		r, _, e := conn.NextReader()
		sym.Assert(e == nil, "NextReader failed")
		b := make([]byte, 1<<15)
		for e == nil {
			var k int
			k, e = r.Read(b)
			got += k
		}
		if e != io.EOF {
			err = e
		}
	} else {
		_, d, err = conn.ReadMessage()
		got = len(d)
	}
	if limit >= 0 && total > limit {
		sym.Assert(fatal(err) && c.IsClosed(), "message over the limit accepted")
	} else {
		sym.Assert(err == nil && got == total, "message within the limit refused")
	}
	sym.Cover("done")
}

// bigs are lengths around those of the encoder's, the batch's and the frame's buffers.
func bigs() int {
	l := []int{0, 1, 123, 124, 5000, 70000}
	if sym.Tier() > 0 {
		l = append(l, 130, 253, 254, 255, 4093, 4094, 4095, 65533, 65534, 200000)
	}
	return l[sym.Pick("size", len(l))]
}

// text is a string of n bytes that JSON doesn't escape.
func text(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte((i*7+i>>8)%26)
	}
	return string(b)
}

// C10JSONBig: SendJSON and JSON broadcasts of values of any size.
func C10JSONBig() {
	o := noUTF8(small())
	o.WriteBufferSize = pickLen("wbuf", 64, 4096)
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	r := rm.Add("r")
	r.Add(mc.Conn)
	v := text(bigs())
	api := sym.Pick("api", 3)
	ctx := ctxOf()
	for i := 0; i < 2; i++ {
		n := 1
		switch api {
		case 0:
			err = mc.SendJSON(ctx, v)
		case 1:
			n, err = m.BroadcastJSON(ctx, v)
		case 2:
			n, err = r.BroadcastJSON(ctx, v)
		}
		sym.Assert(n == 1 && err == nil, "sending failed")
		v += "z"
	}
	sym.Idle()
	ms := wireMsgs(c)
	sym.Assert(len(ms) == 2, "not one message per value")
	for i := range ms {
		want := v[:len(v)-2+i]
		sym.Assert(ms[i].Op == 1 && eq(trimNL(ms[i].Data), []byte(`"`+want+`"`)), "value sent differs")
	}
	sym.Cover("done")
}

// C23JSONBig: the values of BatchJSON and JSON batch broadcasts may have any size.
func C23JSONBig() {
	o := noUTF8(small())
	u := snapws.NewUpgrader(o)
	json := sym.Pick("strategy", 2) == 0
	if json {
		u.EnableJSONBatching(nil, flushEvery)
	} else {
		u.EnablePrefixBatching(nil, flushEvery)
	}
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	r := rm.Add("r")
	r.Add(mc.Conn)
	v := text(bigs())
	api := sym.Pick("api", 3)
	var l [][]byte
	for i := 0; i < 2; i++ {
		n := 1
		switch api {
		case 0:
			err = mc.BatchJSON(v)
		case 1:
			n, err = m.BatchBroadcastJSON(ctxOf(), v)
		case 2:
			n, err = r.BatchBroadcastJSON(ctxOf(), v)
		}
		sym.Assert(n == 1 && err == nil, "batching failed")
		l = append(l, []byte(`"`+v+`"`))
		v += "z"
		sym.Idle()
	}
	time.Sleep(2 * flushEvery)
	sym.Idle()
	if json {
		sent(c, []msg{{2, jsonBatch(nil, l, nil)}})
	} else {
		sent(c, []msg{{2, prefixBatch(nil, l, nil)}})
	}
	sym.Cover("done")
}

// C01JSONBig: ReadJSON of values of any size, in one frame or more.
func C01JSONBig() {
	o := noUTF8(small())
	o.MaxMessageSize = -1
	o.ReadBufferSize = pickLen("rbuf", 64, 4096)
	conn, c := dial(snapws.NewUpgrader(o))
	v := text(bigs())
	p := []byte(`"` + v + `"`)
	if sym.Pick("blank", 2) == 1 { // as the encoder ends them
		p = append(p, '\n')
	}
	var s []byte
	switch sym.Pick("frames", 3) {
	case 0:
		s = kf(nil, true, 1, p)
	case 1:
		s = kf(kf(kf(nil, false, 1, p[:1]), true, 9, nil), true, 0, p[1:])
	case 2:
		k := len(p) - 1
		s = kf(kf(kf(nil, false, 1, p[:k]), false, 0, p[k:]), true, 0, nil)
	}
	c.Feed(kf(s, true, 1, []byte("[1,2]")))
	var got string
	err := conn.ReadJSON(&got)
	sym.Assert(err == nil && got == v, "value read differs")
	var l []int
	err = conn.ReadJSON(&l)
	sym.Assert(err == nil && len(l) == 2 && l[0] == 1 && l[1] == 2, "second value read differs")
	sym.Cover("done")
}

// C26Turn: an allowance is a connection's own from its start to its end: what
// others used up before or beside it doesn't count.
func C26Turn() {
	u := snapws.NewUpgrader(noUTF8(small()))
	burst := 1 + sym.Pick("burst", 3)
	u.Limiter = snapws.NewRateLimiter(1, burst)
	type cn struct {
		conn *snapws.Conn
		c    *fake.Conn
		used int
	}
	var l []*cn
	for i := 0; i < 6+2*sym.Tier(); i++ {
		op := sym.Pick("op", 3)
		if len(l) == 0 {
			op = 0
		}
		switch op {
		case 0: // another one comes
			conn, c := dial(u)
			l = append(l, &cn{conn: conn, c: c})
		case 1: // the first one leaves
			l[0].conn.Close()
			sym.Idle()
			l = l[1:]
		case 2: // the last one sends all it may and one more
			x := l[len(l)-1]
			for x.used <= burst {
				x.c.Feed(kf(nil, true, 2, []byte("m")))
				_, _, err := x.conn.ReadMessage()
				sym.Assert((err == nil) == (x.used < burst), "allowance differs")
				x.used++
			}
		}
	}
	for _, x := range l {
		for x.used <= burst {
			x.c.Feed(kf(nil, true, 2, []byte("m")))
			_, _, err := x.conn.ReadMessage()
			sym.Assert((err == nil) == (x.used < burst), "allowance differs")
			x.used++
		}
	}
	sym.Cover("done")
}

// C25Turn: connections come and go between the ticks of the flusher, and every
// one that is open gets its batches in time.
func C25Turn() {
	u := snapws.NewUpgrader(noUTF8(small()))
	u.EnablePrefixBatching(nil, flushEvery)
	sym.Idle()
	type cn struct {
		conn *snapws.Conn
		c    *fake.Conn
		sent int
	}
	var l []*cn
	for i := 0; i < 4+2*sym.Tier(); i++ {
		op := sym.Pick("op", 4)
		if len(l) == 0 {
			op = 0
		}
		switch op {
		case 0:
			conn, c := dial(u)
			l = append(l, &cn{conn: conn, c: c})
		case 1:
			l[0].conn.Close()
			l = l[1:]
		case 2:
			l[0].conn.Close()
			conn, c := dial(u)
			l = append(l[1:], &cn{conn: conn, c: c})
		}
		for _, x := range l {
			sym.Assert(x.conn.Batch([]byte{byte(i)}) == nil, "Batch failed")
			x.sent++
		}
		if sym.Pick("tick", 2) == 1 {
			time.Sleep(flushEvery + 1)
			sym.Idle()
			for _, x := range l {
				n := 0
				for _, m := range wireMsgs(x.c) {
					n += len(unbatch(m.Data))
				}
				sym.Assert(n == x.sent, "batch not sent within one flush interval")
			}
		}
	}
	sym.Cover("done")
}
