package h

import (
	"context"
	"time"
	"unicode/utf8"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// ---- C34 ----

// C34Wait: the three durations, any of them set or not.
func C34Wait() {
	o := &snapws.Options{}
	ww, rw, pe := 5*time.Second, time.Minute, 50*time.Second
	if d := pickDur("ww", 0, 3*time.Second, 2*time.Millisecond, 10*time.Minute); d > 0 {
		ww = d
		o.WriteWait = ww
	}
	if d := pickDur("rw", 0, 90*time.Second, 61*time.Second, 10*time.Minute); d > 0 {
		rw = d
		o.ReadWait = rw
	}
	if d := pickDur("pe", 0, 20*time.Second, time.Second, 59*time.Second); d > 0 {
		pe = d
		o.PingEvery = pe
	}
	var u *snapws.Upgrader
	if o.WriteWait == 0 && o.ReadWait == 0 && o.PingEvery == 0 && sym.Pick("nil", 2) == 1 {
		u = snapws.NewUpgrader(nil)
	} else {
		u = snapws.NewUpgrader(o)
	}
	conn, c := dial(u)
	t0 := time.Now()
	var pings []time.Duration
	c.BeforeWrite = func(dl time.Time) {
		sym.Assert(!dl.IsZero() && !dl.After(time.Now().Add(ww)) && dl.After(time.Now().Add(ww-time.Millisecond)), "write deadline differs from WriteWait")
	}
	answer := true
	c.OnWrite = func(b []byte) {
		if b[0] == 0x89 {
			pings = append(pings, time.Since(t0))
			if answer {
				c.Feed(kf(nil, true, 10, nil))
			}
		}
	}
	var end time.Duration
	var err error
	done := make(chan bool)
	go func() {
		_, _, err = conn.ReadMessage()
		end = time.Since(t0)
		close(done)
	}()
	sym.Assert(conn.SendString(nil, []byte("x")) == nil, "send failed")
	time.Sleep(3*pe + pe/2)
	sym.Idle()
	if rw < pe { // cannot be: the defaults and the values above
		sym.Fail("ReadWait below PingEvery")
	}
	sym.Assert(len(pings) == 3, "number of keep-alive pings differs from PingEvery")
	for i, p := range pings {
		sym.Assert(p == time.Duration(i+1)*pe, "keep-alive pings are not PingEvery apart")
	}
	// the peer goes silent: the read ends ReadWait after the last pong
	answer = false
	time.Sleep(rw)
	sym.Idle()
	<-done
	sym.Assert(fatal(err) && c.IsClosed(), "silent peer not disconnected")
	sym.Assert(end <= 3*pe+rw+ww, "silent peer disconnected later than ReadWait")
	sym.Assert(end >= 3*pe+rw-time.Second, "silent peer disconnected earlier than ReadWait")
	sym.Cover("done")
}

// C34Queue: queue size, backpressure and batch limits, set or not.
func C34Queue() {
	o := &snapws.Options{WriteWait: time.Minute, PingEvery: time.Hour, ReadWait: 2 * time.Hour}
	size := 8
	if sym.Pick("queue", 2) == 1 {
		size = 1 + sym.Pick("size", 3)
		o.BroadcastChannelsSize = size
	}
	// the default strategy drops
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[string](u)
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	c.StallAt = 1
	ok := 0
	for i := 0; i < size+4; i++ {
		n, err := m.BroadcastBytes(nil, []byte{byte(i)})
		sym.Assert(err == nil, "broadcast failed")
		ok += n
		sym.Idle()
	}
	// one message is being written, the queue holds the next
	sym.Assert(ok == size+1, "queue length differs from BroadcastChannelsSize")
	sym.Assert(!c.IsClosed(), "default backpressure closed the connection")
	mc.Close()
	sym.Cover("done")
}

// C34Batch: MaxBatchSize and the flush interval, set or not.
func C34Batch() {
	o := noUTF8(small())
	o.WriteBufferSize = 1 << 16
	limit := 1 << 20
	if sym.Pick("limit", 2) == 1 {
		limit = 300
		o.MaxBatchSize = limit
	}
	o.MaxMessageSize = pickLen("read", 0, 100, -1, 1<<21) // must not matter
	iv := 50 * time.Millisecond
	var every time.Duration
	if every = pickDur("interval", 0, 80*time.Millisecond, 7*time.Millisecond); every > 0 {
		iv = every
	}
	u := snapws.NewUpgrader(o)
	var got [][]int
	var at []time.Time
	var ctx context.Context
	if sym.Pick("ctx", 2) == 1 {
		ctx = context.Background()
	}
	note := func(ms [][]byte) {
		var l []int
		for _, p := range ms {
			l = append(l, len(p))
		}
		got = append(got, l)
		at = append(at, time.Now())
	}
	switch sym.Pick("strategy", 3) {
	case 0:
		u.EnableBatching(ctx, every, func(_ context.Context, _ *snapws.Conn, ms [][]byte) error { note(ms); return nil })
	case 1:
		u.EnableJSONBatching(ctx, every)
		u.Flusher.BatchPrefixFunc = func(_ *snapws.Conn, ms [][]byte) []byte { note(ms); return nil }
	case 2:
		u.EnablePrefixBatching(ctx, every)
		u.Flusher.BatchSuffixFunc = func(_ *snapws.Conn, ms [][]byte) []byte { note(ms); return nil }
	}
	sym.Idle()
	t0 := time.Now()
	conn, _ := dial(u)
	extra := sym.Pick("extra", 2)
	p := make([]byte, limit/2)
	sym.Assert(conn.Batch(p) == nil && conn.Batch(p[:limit-limit/2-1+extra]) == nil, "Batch failed")
	sym.Idle()
	sym.Assert(len(got) == 0, "batch within MaxBatchSize sent early")
	sym.Assert(conn.Batch(p[:1]) == nil, "Batch failed")
	sym.Idle()
	if extra == 1 {
		sym.Assert(len(got) == 1 && len(got[0]) == 2, "batch beyond MaxBatchSize")
	} else {
		sym.Assert(len(got) == 0, "batch within MaxBatchSize sent early")
	}
	time.Sleep(iv)
	sym.Idle()
	time.Sleep(time.Millisecond)
	sym.Idle()
	sym.Assert(len(got) == 1+extra, "batch not sent within one flush interval")
	sym.Assert(at[extra].Sub(t0) == iv, "flush interval differs from the one configured")
	sym.Cover("done")
}

// C34Text: validation is on unless SkipUTF8Validation is set, whatever else is.
func C34Text() {
	o := small()
	set := sym.Pick("set", 8)
	switch set {
	case 1:
		o.MaxMessageSize = -1
	case 2:
		o.ReaderMaxFragments = 2
	case 3:
		o.DisableWriteBuffersPooling = true
	case 4:
		o.ReadBufferSize = 0
	case 5:
		o.SubProtocols = []string{"a"}
	case 6:
		o.MaxMessageSize = 4
		o.WriteBufferSize = 1
	case 7:
		o.BroadcastBackpressure = snapws.BackpressureWait
		o.BroadcastChannelsSize = 1
	}
	skip := sym.Pick("skip", 2) == 1
	o.SkipUTF8Validation = skip
	conn, c := dial(snapws.NewUpgrader(o))
	p := sym.Bytes("p", 2)
	c.Feed(cf(nil, true, 1, p))
	data, err := conn.ReadString()
	if !skip && !utf8.Valid(p) {
		sym.Assert(fatal(err) && lastClose(c) == 1007, "invalid text accepted by default")
		sym.Cover("invalid")
		return
	}
	sym.Assert(err == nil && eq(data, p), "text refused")
	sym.Cover("valid")
}

// ---- C35 ----

type roomKey struct {
	a int
	b string
}

// C35Seq: sequences of room operations against the key model.
func C35Seq() {
	u := snapws.NewUpgrader(noUTF8(small()))
	rm := snapws.NewRoomManager[roomKey](u)
	joins := map[*snapws.Room[roomKey]]int{}
	rm.DefaultOnJoin = func(r *snapws.Room[roomKey], _ *snapws.Conn, _ ...any) { joins[r]++ }
	keys := []roomKey{{0, ""}, {0, "a"}, {1, ""}}
	cur := make([]*snapws.Room[roomKey], len(keys))
	var all, old []*snapws.Room[roomKey]
	members := map[*snapws.Room[roomKey]][]*snapws.Conn{}
	want := map[*snapws.Room[roomKey]]int{}
	var conns []*fake.Conn
	made := func(k int, r *snapws.Room[roomKey]) {
		sym.Assert(r != nil, "no room")
		if cur[k] != nil {
			sym.Assert(r == cur[k], "existing room not returned for its key")
			return
		}
		for _, x := range all {
			sym.Assert(x != r, "closed room, or the room of another key, returned")
		}
		sym.Assert(r.Key == keys[k], "room has another key")
		cur[k] = r
		all = append(all, r)
	}
	free, cf := dial(u)
	conns = append(conns, cf)
	at := -1
	steps := 4 + sym.Tier()
	for i := 0; i < steps; i++ {
		op := sym.Pick("op", 7)
		k := 0
		if i > 0 && op < 4 {
			k = sym.Pick("key", len(keys))
		}
		switch op {
		case 0:
			made(k, rm.Add(keys[k]))
		case 1:
			c := fake.NewConn()
			conn, r, err := rm.Connect(fake.NewResponse(c, 256, 64), fake.Request(), keys[k])
			sym.Assert(err == nil && conn != nil, "connect failed")
			made(k, r)
			members[r] = append(members[r], conn)
			want[r]++
			conns = append(conns, c)
		case 2:
			sym.Assume(cur[k] != nil)
			r := cur[k]
			r.Close()
			members[r] = nil
			old = append(old, r)
			cur[k] = nil
			if at == k {
				at = -1
			}
		case 3: // the free connection goes to the room, if there is one
			if at >= 0 {
				from := cur[at]
				from.Move(free, keys[k])
				var l []*snapws.Conn
				for _, x := range members[from] {
					if x != free {
						l = append(l, x)
					}
				}
				members[from] = l
				at = -1
			} else if cur[k] != nil {
				rm.Get(keys[k]).Add(free)
			}
			if r := cur[k]; r != nil {
				members[r] = append(members[r], free)
				want[r]++
				at = k
			}
		case 4: // closing a closed room again changes nothing
			sym.Assume(len(old) > 0)
			old[0].Close()
		case 5: // a room without members goes on
			for _, r := range cur {
				if r != nil {
					r.RemoveAll()
					members[r] = nil
				}
			}
			at = -1
		case 6: // a failed handshake makes no room
			q := fake.Request()
			q.Header.Del("Upgrade")
			conn, r, err := rm.Connect(fake.NewResponse(fake.NewConn(), 256, 64), q, roomKey{7, "bad"})
			sym.Assert(err != nil && conn == nil && r == nil, "failed handshake returns a connection or room")
			sym.Assert(rm.Get(roomKey{7, "bad"}) == nil, "failed handshake created a room")
		}
		n := 0
		for k, r := range cur {
			sym.Assert(rm.Get(keys[k]) == r, "Get differs from the rooms created and closed")
			if r != nil {
				n++
			}
		}
		l := rm.GetRoomKeys()
		sym.Assert(len(l) == n, "GetRoomKeys differs from the rooms created and closed")
		for i, x := range l {
			sym.Assert(rm.Get(x) != nil, "GetRoomKeys lists a room that does not exist")
			for _, y := range l[:i] {
				sym.Assert(x != y, "GetRoomKeys lists a room twice")
			}
		}
		for _, r := range all {
			got := r.GetAllConns()
			sym.Assert(len(got) == len(members[r]), "member list differs from joins and leaves")
			for _, c := range members[r] {
				f := false
				for _, d := range got {
					f = f || c == d
				}
				sym.Assert(f, "member list differs from joins and leaves")
			}
			sym.Assert(joins[r] == want[r], "OnJoin count differs from actual joins")
		}
		for _, c := range conns {
			sym.Assert(!c.IsClosed(), "room operation closed a connection")
		}
	}
	sym.Cover("done")
}
