package h

import (
	"context"
	"io"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// arena is everything the library has: a manager with two connections that
// are also in rooms, a limiter and a flusher.
type arena struct {
	u     *snapws.Upgrader
	m     *snapws.Manager[string]
	rm    *snapws.RoomManager[string]
	r, r2 *snapws.Room[string]
	a, b  *snapws.ManagedConn[string]
	ca    *fake.Conn
	cb    *fake.Conn
}

// newArena: hooks that store something order goroutines, so they are optional.
func newArena(flusher int, hooks bool) *arena {
	x := &arena{}
	o := &snapws.Options{WriteBufferSize: 20, ReadBufferSize: 256, PingEvery: 10 * time.Second, ReadWait: 25 * time.Second, WriteWait: 5 * time.Second, BroadcastChannelsSize: 1}
	o.BroadcastBackpressure = snapws.BackpressureClose
	o.MaxBatchSize = 5
	if hooks {
		o.OnDisconnect = func(c *snapws.Conn) { c.MetaData.Store("gone", true) }
		o.OnConnect = func(c *snapws.Conn) { c.MetaData.Store("k", 1) }
	}
	x.u = snapws.NewUpgrader(o)
	x.u.Limiter = snapws.NewRateLimiter(2, 3)
	x.u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error { return nil }
	switch flusher {
	case 0:
		x.u.EnablePrefixBatching(nil, flushEvery)
	case 1:
		x.u.EnableJSONBatching(nil, flushEvery)
	}
	x.m = snapws.NewManager[string](x.u)
	if hooks {
		x.m.OnRegister = func(mc *snapws.ManagedConn[string]) { mc.MetaData.Store("reg", mc.Key) }
		x.m.OnUnregister = func(mc *snapws.ManagedConn[string]) { mc.MetaData.Delete("reg") }
	}
	x.rm = snapws.NewRoomManager[string](x.u)
	if hooks {
		x.rm.DefaultOnJoin = func(r *snapws.Room[string], c *snapws.Conn, args ...any) { c.MetaData.Store(r.Key, args) }
		x.rm.DefaultOnLeave = func(r *snapws.Room[string], c *snapws.Conn, args ...any) { c.MetaData.Delete(r.Key) }
	}
	x.a, x.ca = x.connect("a")
	x.b, x.cb = x.connect("b")
	x.r = x.rm.Add("r")
	x.r.Add(x.a.Conn, 1)
	x.r.Add(x.b.Conn, 2)
	x.r2 = x.rm.Add("s")
	return x
}

func (x *arena) connect(k string) (*snapws.ManagedConn[string], *fake.Conn) {
	c := fake.NewConn()
	mc, err := x.m.Connect(k, fake.NewResponse(c, 256, 64), fake.Request())
	if err != nil {
		sym.Fail("connect failed")
	}
	stripResp(c)
	return mc, c
}

// kf appends a frame with a fixed key.
func kf(s []byte, fin bool, op byte, p []byte) []byte {
	return append(s, fake.Client(fin, op, []byte{1, 2, 3, 4}, p)...)
}

// scribble overwrites a slice the library was given and must not use any more.
func scribble(b []byte) {
	for i := range b {
		b[i] = 'x'
	}
}

const (
	rSend = iota
	rStream
	rJSON
	rBroadcast
	rRoomBcast
	rPing
	rBatch
	rBatchBcast
	rClose
	rCloseOther
	rRooms
	rMove
	rReplace
	rNew
	rGet
	rMeta
	rCancel
	rFlushClose
	rShutdown
	rRoomClose
	rRoomsDown
	rFresh
	rRead // from here on: readers
	rReadStream
	rReadEOF
	rReadClose
	rReadLimit
	rTime
	nRace
)

func (x *arena) run(k int) {
	switch k {
	case rSend:
		p := []byte("abc")
		x.a.SendString(context.Background(), p)
		scribble(p)
		p = []byte("0123456789")
		x.a.SendBytes(nil, p)
		scribble(p)
	case rStream:
		w, err := x.a.NextWriter(nil, 2)
		if err != nil {
			return
		}
		p := []byte("abcdefgh")
		w.Write(p[:5])
		w.Flush()
		w.Write(p[5:])
		w.Close()
		scribble(p)
	case rJSON:
		x.a.SendJSON(nil, []int{1, 2, 3, 4, 5, 6, 7, 8})
	case rBroadcast:
		p := []byte("bcast")
		x.m.BroadcastBytes(nil, p)
		scribble(p)
		x.m.BroadcastJSON(context.Background(), 5, "b")
	case rRoomBcast:
		p := []byte("rcast")
		x.r.BroadcastString(nil, p, x.b.Conn)
		scribble(p)
		x.r.BroadcastJSON(nil, 6)
	case rPing:
		x.a.Ping()
		x.a.Ping()
	case rBatch:
		x.a.Batch(nil)
		x.a.Batch([]byte("123"))
		x.a.BatchJSON(456)
	case rBatchBcast:
		x.m.BatchBroadcast(nil, []byte("789"))
		x.r.BatchBroadcastJSON(nil, 12)
	case rClose:
		x.a.CloseWithCode(4000, "bye")
	case rCloseOther:
		x.b.Close()
	case rRooms:
		x.r.Remove(x.a.Conn)
		x.r2.Add(x.a.Conn, 3)
		x.r.Add(x.a.Conn)
	case rMove:
		x.r.Move(x.a.Conn, "s")
		x.r2.RemoveAll()
	case rReplace:
		x.connect("a")
	case rNew:
		c := fake.NewConn()
		conn, _, err := x.rm.Connect(fake.NewResponse(c, 256, 64), fake.Request(), "r", 9)
		if err == nil {
			conn.SendBytes(nil, []byte("n"))
		}
	case rGet:
		x.m.Get("a")
		x.m.GetAllConns("b")
		x.rm.Get("r")
		x.rm.GetRoomKeys()
		x.r.GetAllConns()
		x.rm.Add("r")
		x.u.Flusher.IsClosed()
	case rMeta:
		x.a.MetaData.Store("k", 2)
		x.a.MetaData.Load("gone")
		x.a.NetConn()
		_ = x.a.SubProtocol
	case rCancel:
		ctx, cancel := context.WithCancel(context.Background())
		go cancel()
		p := []byte("cancelled message")
		x.a.SendBytes(ctx, p)
		scribble(p)
	case rFlushClose:
		x.u.Flusher.Close()
	case rShutdown:
		x.m.Shutdown()
	case rRoomClose:
		x.r.Close()
	case rRoomsDown:
		x.rm.Shutdown()
	case rFresh:
		// a connection that is new to everything
		c := fake.NewConn()
		conn, err := x.u.Upgrade(fake.NewResponse(c, 256, 64), fake.Request())
		if err != nil {
			return
		}
		done := make(chan bool)
		go func() { x.r.Add(conn, 1); done <- true }()
		go func() { x.r2.Add(conn, 1); done <- true }()
		x.r.Add(conn, 1)
		<-done
		conn.Close()
		<-done
		// joined before its close, but nothing tells the closer
		conn, err = x.u.Upgrade(fake.NewResponse(fake.NewConn(), 256, 64), fake.Request())
		if err != nil {
			return
		}
		go func() { x.r.Add(conn, 1); done <- true }()
		time.Sleep(time.Millisecond)
		conn.Close()
		<-done
	case rRead:
		var s []byte
		s = kf(s, true, 9, []byte("p1"))
		s = kf(s, false, 1, []byte{'a'})
		s = kf(s, true, 9, []byte("longer"))
		s = kf(s, true, 0, []byte{'b'})
		s = kf(s, true, 10, nil)
		s = kf(s, true, 2, []byte("second"))
		x.ca.Feed(s)
		x.a.ReadMessage()
		x.a.ReadMessage()
	case rReadStream:
		var s []byte
		s = kf(s, false, 2, []byte("abcdef"))
		s = kf(s, true, 9, []byte("p1"))
		s = kf(s, true, 0, []byte("gh"))
		s = kf(s, true, 1, []byte(`{"a":1}`))
		x.ca.Feed(s)
		rd, _, err := x.a.NextReader()
		if err == nil {
			b := make([]byte, 3)
			for {
				if _, err := rd.Read(b); err == io.EOF || err != nil {
					break
				}
			}
		}
		var v any
		x.a.ReadJSON(&v)
	case rReadEOF:
		x.ca.EOF()
		x.a.ReadMessage()
		x.a.ReadMessage()
	case rReadClose:
		x.ca.Feed(kf(nil, true, 8, []byte{3, 232, 'b', 'y', 'e'}))
		x.a.ReadMessage()
	case rReadLimit:
		var s []byte
		for i := 0; i < 5; i++ {
			s = kf(s, true, 1, []byte("m"))
		}
		x.ca.Feed(s)
		for i := 0; i < 5; i++ {
			x.a.ReadString()
		}
	case rTime: // ping ticks, timeouts
		time.Sleep(40 * time.Second)
	}
}

func (x *arena) start(ks ...int) {
	done := make(chan bool)
	for _, k := range ks {
		go func() {
			x.run(k)
			done <- true
		}()
	}
	for range ks {
		<-done
	}
	time.Sleep(2 * flushEvery)
	sym.Idle()
	// after everything, and while it ends
	x.a.Close()
	x.b.Close()
	sym.Idle()
}

func hot(k int) bool { return k == rSend || k == rStream || k == rBroadcast || k == rBatch }
func ends(k int) bool {
	return k == rClose || k == rReplace || k == rFlushClose || k == rReadEOF || k == rReadClose
}

// C32Pair: every pair of programs.
func C32Pair() {
	i := sym.Pick("first", nRace)
	j := sym.Pick("second", nRace)
	sym.Assume(!(i >= rRead && i < rTime && j >= rRead && j < rTime))
	dev := 0
	if sym.Tier() > 0 || hot(i) && ends(j) {
		sym.Assume(i <= j)
		dev = 1
	}
	sym.Race()
	hooks := sym.Pick("hooks", 2) == 1
	if sym.Tier() == 0 {
		sym.Assume(dev == 0 || !hooks)
	}
	x := newArena(sym.Pick("flusher", 1+sym.Tier()), hooks)
	sym.Explore(dev)
	x.start(i, j)
	sym.Cover("done")
}

// C32Three: triples, without schedule deviations: the happens-before order
// decides.
func C32Three() {
	i := sym.Pick("first", nRace)
	j := sym.Pick("second", nRace)
	k := sym.Pick("third", nRace)
	sym.Assume(i < j && j < k && !(j >= rRead && k < rTime) && !(i >= rRead))
	sym.Race()
	x := newArena(0, sym.Pick("hooks", 2) == 1)
	sym.Explore(sym.Tier())
	x.start(i, j, k)
	sym.Cover("done")
}

// C32Fail: transport faults while programs run.
func C32Fail() {
	i := sym.Pick("first", nRace)
	j := sym.Pick("second", nRace)
	sym.Assume(i <= j && !(i >= rRead && j < rTime))
	if sym.Tier() == 0 {
		sym.Assume(i != j)
	}
	sym.Race()
	x := newArena(0, sym.Pick("hooks", 1+sym.Tier()) == 1)
	switch sym.Pick("fault", 4) {
	case 0:
		x.ca.WriteFailAt = 1
	case 1:
		x.ca.WriteFailAt = 2
		x.ca.WritePartial = 1
	case 2:
		x.ca.StallAt = 1
	case 3:
		x.ca.WdlFailAt = 1
	}
	sym.Explore(sym.Tier())
	x.start(i, j)
	sym.Cover("done")
}
