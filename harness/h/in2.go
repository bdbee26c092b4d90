package h

import (
	"errors"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// split cuts data into nf fragments at picked places and interleaves a ping.
func fragments(s []byte, op byte, data []byte, nf int) []byte {
	at := 0
	for i := 0; i < nf; i++ {
		n := len(data) - at
		if i < nf-1 {
			// empty, one byte, or half of what is left
			switch sym.Pick("cutkind", 3) {
			case 0:
				n = 0
			case 1:
				if n > 1 {
					n = 1
				}
			case 2:
				n = n / 2
			}
		}
		o := op
		if i > 0 {
			o = 0
		}
		s = cf(s, i == nf-1, o, data[at:at+n])
		at += n
		if i < nf-1 && sym.Pick("ctl", 2) == 1 {
			s = cf(s, true, 9, []byte("zz"))
		}
	}
	return s
}

type jval struct {
	A int
	B string
}

// C06Sync: after any non-fatal read outcome the next message is intact.
func C06Sync() {
	u := snapws.NewUpgrader(small())
	kind := sym.Pick("kind", 10)
	if kind == 8 {
		u.Limiter = snapws.NewRateLimiter(1, 1)
	}
	conn, c := dial(u)
	nf := 1 + sym.Pick("frames", 3)
	var s []byte
	op := byte(1)
	data := []byte("abcdefgh")
	switch kind {
	case 0, 2:
		op = 2
	case 3:
		// malformed at the start (only part of the message is read) or later
		data = []byte([]string{`{"A":x}`, `x"A":1,}`, `{x"A":1}`}[sym.Pick("bad", 3)])
	case 4:
		data = []byte(`{"A":1`)
	case 5:
		data = []byte(`{"A":1} {"A":2}`)
		if sym.Pick("long", 2) == 1 { // more than the JSON decoder reads ahead
			for len(data) < 1300 {
				data = append(data, " \x82\x05{}"...)
			}
		}
	case 9:
		data = []byte(`{"A":"str"}`)
	}
	if kind == 8 {
		// uses up the only token
		s = cf(s, true, 2, nil)
	}
	s = fragments(s, op, data, nf)
	q := sym.Bytes("q", pickLen("qlen", 0, 3))
	nq := len(q)
	if nq == 3 && sym.Pick("qfrag", 2) == 1 {
		s = cf(s, false, 2, q[:1])
		s = cf(s, true, 0, q[1:])
	} else {
		s = cf(s, true, 2, q)
	}
	c.Feed(s)
	var err error
	var v jval
	switch kind {
	case 0:
		_, err = conn.ReadString()
		sym.Assert(errors.Is(err, snapws.ErrMessageTypeMismatch), "ReadString of a binary message: want a type mismatch")
	case 1:
		_, err = conn.ReadBinary()
		sym.Assert(errors.Is(err, snapws.ErrMessageTypeMismatch), "ReadBinary of a text message: want a type mismatch")
	case 2:
		err = conn.ReadJSON(&v)
		sym.Assert(errors.Is(err, snapws.ErrMessageTypeMismatch), "ReadJSON of a binary message: want a type mismatch")
	case 3, 4, 9:
		err = conn.ReadJSON(&v)
		sym.Assert(err != nil, "ReadJSON of malformed JSON succeeds")
		sym.Assert(!snapws.IsFatalErr(err), "ReadJSON of malformed JSON is fatal")
	case 5:
		err = conn.ReadJSON(&v)
		sym.Assert(err == nil && v.A == 1, "ReadJSON of JSON followed by more data")
	case 6:
		r, _, e := conn.NextReader()
		err = e
		if e == nil {
			k := pickLen("partial", 1, 4, 8)
			buf := make([]byte, k)
			n, e2 := r.Read(buf)
			if e2 != nil {
				sym.Assert(!snapws.IsFatalErr(e2), "partial read failed")
			}
			sym.Assert(eq(buf[:n], data[:n]), "partial read bytes differ")
		}
	case 7:
		_, _, err = conn.NextReader()
	case 8:
		expect(conn, c, []msg{{2, nil}})
		switch sym.Pick("api", 3) {
		case 0:
			_, _, err = conn.ReadMessage()
		case 1:
			_, err = conn.ReadString()
		case 2:
			_, _, err = conn.NextReader()
		}
		sym.Assert(err != nil, "rate-limited message delivered")
		sym.Assert(!snapws.IsFatalErr(err), "rate-limited message is a fatal error")
		// refill the allowance
		time.Sleep(3 * time.Second)
	}
	errState(c, err, "non-fatal outcome")
	sym.Cover("skipped")
	gop, got, err := conn.ReadMessage()
	if err != nil {
		sym.Fail("next message lost after a non-fatal outcome: " + err.Error())
	}
	sym.Assert(gop == 2, "next message has the wrong type")
	sym.Assert(len(got) == nq, "next message has the wrong length")
	sym.Assert(eq(got, q), "next message has the wrong bytes")
	expectEnd(conn, c)
}

// C06Two: several abandoned messages in a row, with any payload bytes.
func C06Two() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	var s []byte
	nm := 2 + sym.Tier()
	for i := 0; i < nm; i++ {
		p := sym.Bytes("p", pickLen("len", 2, 9))
		s = fragments(s, 2, p, 1+sym.Pick("frames", 2))
	}
	q := sym.Bytes("q", 2)
	s = cf(s, true, 1, q)
	c.Feed(s)
	for i := 0; i < nm; i++ {
		r, _, err := conn.NextReader()
		if err != nil {
			sym.Fail("NextReader after an abandoned message: " + err.Error())
		}
		if k := pickLen("read", 0, 1, 2); k > 0 {
			_, err = r.Read(make([]byte, k))
			sym.Assert(err == nil || !snapws.IsFatalErr(err), "read failed")
		}
	}
	expect(conn, c, []msg{{1, q}})
	sym.Cover("done")
	expectEnd(conn, c)
}

// ---- C26 ----

// C26Seq: a schedule of arrivals with any gaps against the token bucket.
func C26Seq() {
	mps := pickLen("mps", 0, 1, 2, 5)
	burst := pickLen("burst", 0, 1, 2, 3)
	u := snapws.NewUpgrader(noUTF8(small()))
	u.Limiter = snapws.NewRateLimiter(mps, burst)
	hooks := 0
	hooked := sym.Pick("hook", 2)
	if hooked == 1 {
		u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { hooks++; return nil }
	}
	conn, c := dial(u)
	other, oc := dial(u)
	third, tc := dial(u)
	// the reference bucket, in ns of a rate of 1
	const per = int64(time.Second)
	tokens := int64(burst) * per
	last := time.Now()
	delivered := 0
	for i := 0; i < 5; i++ {
		if i == 0 { // the bucket is full
		} else if d := sym.Pick("gap", 4); d > 0 {
			time.Sleep([]time.Duration{0, 150 * time.Millisecond, 600 * time.Millisecond, 2500 * time.Millisecond}[d])
		}
		now := time.Now()
		tokens += int64(now.Sub(last)) * int64(mps)
		last = now
		if tokens > int64(burst)*per {
			tokens = int64(burst) * per
		}
		allowed := tokens >= per
		if allowed {
			tokens -= per
		}
		p := []byte{byte(i), sym.Byte("p")}
		var s []byte
		if i == 2 {
			s = cf(s, false, 2, p[:1])
			s = cf(s, true, 9, nil)
			s = cf(s, true, 0, p[1:])
		} else {
			s = cf(s, true, 2, p)
		}
		c.Feed(s)
		h := hooks
		op, data, err := conn.ReadMessage()
		if allowed {
			delivered++
			sym.Cover("allowed")
			if err != nil {
				sym.Fail("message within the allowance refused: " + err.Error())
			}
			sym.Assert(op == 2 && len(data) == 2 && eq(data, p), "message changed")
			sym.Assert(hooks == h, "hook ran for an allowed message")
		} else {
			sym.Cover("limited")
			sym.Assert(err != nil, "message beyond the allowance delivered")
			sym.Assert(!snapws.IsFatalErr(err) && !c.IsClosed(), "limited message ends the connection")
			sym.Assert(hooks == h+hooked, "hook did not run exactly once for a limited message")
		}
	}
	// another connection has its own allowance
	for i := 0; i < burst; i++ {
		oc.Feed(cf(nil, true, 1, []byte("o")))
		_, _, err := other.ReadMessage()
		sym.Assert(err == nil, "connections share allowance")
	}
	for i := 0; i < burst; i++ {
		tc.Feed(cf(nil, true, 1, []byte("t")))
		_, _, err := third.ReadMessage()
		sym.Assert(err == nil, "connections share allowance")
	}
	sym.Assert(hooks == hooked*(5-delivered), "hook did not run exactly once for a limited message")
}

// C26Hook: a hook that returns an error.
func C26Hook() {
	u := snapws.NewUpgrader(noUTF8(small()))
	u.Limiter = snapws.NewRateLimiter(1, 1)
	stop := errors.New("stop")
	hooks := 0
	closeIt := sym.Pick("close", 2) == 1
	u.Limiter.OnRateLimitHit = func(cn *snapws.Conn) error {
		hooks++
		if closeIt {
			cn.Close()
		}
		return stop
	}
	conn, c := dial(u)
	s := cf(nil, true, 2, []byte("a"))
	s = fragments(s, 1, []byte("bcd"), 1+sym.Pick("frames", 2))
	c.Feed(s)
	expect(conn, c, []msg{{2, []byte("a")}})
	_, _, err := conn.ReadMessage()
	if err == nil {
		sym.Fail("limited message delivered")
	}
	sym.Assert(snapws.IsFatalErr(err), "hook error not returned as fatal")
	fe, ok := err.(*snapws.FatalError)
	sym.Assert(ok && fe.Err == stop, "fatal error does not carry the hook's error")
	sym.Assert(hooks == 1, "hook ran more than once")
	errState(c, err, "hook error")
	sym.Cover("hook")
}

// C26Skip: a limited message is skipped whole whatever its shape.
func C26Skip() {
	u := snapws.NewUpgrader(noUTF8(small()))
	u.Limiter = snapws.NewRateLimiter(1, 1)
	n := 0
	hook := sym.Pick("hook", 2)
	if hook == 1 {
		u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { n++; return nil }
	}
	conn, c := dial(u)
	s := cf(nil, true, 2, []byte("a"))
	p := sym.Bytes("p", pickLen("len", 0, 2, 300))
	s = fragments(s, byte(1+sym.Pick("op", 2)), p, 1+sym.Pick("frames", 3))
	q := sym.Bytes("q", 2)
	s = cf(s, true, 1, q)
	c.Feed(s)
	expect(conn, c, []msg{{2, []byte("a")}})
	_, _, err := conn.ReadMessage()
	sym.Assert(err != nil && !snapws.IsFatalErr(err) && !c.IsClosed(), "limited message: want a non-fatal error")
	time.Sleep(1100 * time.Millisecond)
	expect(conn, c, []msg{{1, q}})
	sym.Assert(n == hook, "hook did not run exactly once for the limited message")
	sym.Cover("done")
}

// C26Control: control frames never count.
func C26Control() {
	u := snapws.NewUpgrader(noUTF8(small()))
	u.Limiter = snapws.NewRateLimiter(1, 2)
	conn, c := dial(u)
	var s []byte
	for i := 0; i < 3; i++ {
		s = cf(s, true, byte(9+sym.Pick("ctl", 2)), sym.Bytes("c", pickLen("len", 0, 1, 125)))
	}
	s = cf(s, true, 2, []byte("a"))
	s = cf(s, true, 9, nil)
	s = cf(s, false, 2, []byte("b"))
	s = cf(s, true, 9, nil)
	s = cf(s, false, 0, []byte("c"))
	s = cf(s, true, 0, nil)
	c.Feed(s)
	expect(conn, c, []msg{{2, []byte("a")}, {2, []byte("bc")}})
	sym.Cover("done")
	_ = fake.Key
}
