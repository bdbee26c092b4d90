package h

import (
	"context"
	"slices"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// ---- C18 ----

// member is one connection of a manager or room harness.
type member struct {
	mc     *snapws.ManagedConn[string]
	conn   *snapws.Conn
	c      *fake.Conn
	key    string
	reg    int
	unreg  int
	discon int
}

type registry struct {
	u  *snapws.Upgrader
	m  *snapws.Manager[string]
	ms []*member
	// inHook is called by every OnRegister and OnUnregister
	inHook func(b *member, joining bool)
}

func newRegistry() *registry {
	o := noUTF8(small())
	g := &registry{}
	o.OnDisconnect = func(c *snapws.Conn) {
		for _, b := range g.ms {
			if c.NetConn() == b.c {
				b.discon++
			}
		}
	}
	g.u = snapws.NewUpgrader(o)
	g.m = snapws.NewManager[string](g.u)
	g.m.OnRegister = func(mc *snapws.ManagedConn[string]) {
		b := g.of(mc)
		b.reg++
		sym.Assert(b.unreg == 0, "OnUnregister ran before OnRegister")
		if g.inHook != nil {
			g.inHook(b, true)
		}
	}
	g.m.OnUnregister = func(mc *snapws.ManagedConn[string]) {
		b := g.of(mc)
		sym.Assert(b.reg == 1, "OnUnregister of a connection that OnRegister has not reported")
		b.unreg++
		if g.inHook != nil {
			g.inHook(b, false)
		}
	}
	return g
}

// of finds the member of mc; during Connect it is recognised by its transport.
func (g *registry) of(mc *snapws.ManagedConn[string]) *member {
	for _, b := range g.ms {
		if b.mc == mc || b.mc == nil && mc.NetConn() == b.c {
			b.mc = mc
			b.conn = mc.Conn
			return b
		}
	}
	sym.Fail("hook called with an unknown connection")
	return nil
}

func (g *registry) connect(key string) *member {
	b := &member{c: fake.NewConn(), key: key}
	g.ms = append(g.ms, b)
	mc, err := g.m.Connect(key, fake.NewResponse(b.c, 256, 64), fake.Request())
	if err != nil {
		sym.Fail("connect failed")
	}
	b.mc, b.conn = mc, mc.Conn
	return b
}

// settled checks the registry when nothing is running.
func (g *registry) settled(cur map[string]*member) {
	n := 0
	for _, k := range []string{"a", "b"} {
		got := g.m.Get(k)
		want := cur[k]
		if want == nil {
			sym.Assert(got == nil, "Get returns a connection for a free key")
			continue
		}
		n++
		sym.Assert(got != nil && got == want.mc, "Get does not return the current connection")
		sym.Assert(!want.c.IsClosed(), "current connection is closed")
	}
	all := g.m.GetAllConns()
	sym.Assert(len(all) == n, "GetAllConns has the wrong number of connections")
	sym.Assert(len(g.m.GetAllConnsAsConn()) == n, "GetAllConnsAsConn has the wrong number of connections")
	for _, mc := range all {
		sym.Assert(cur[mc.Key] != nil && cur[mc.Key].mc == mc, "GetAllConns returns a connection that is not current")
	}
	for _, ex := range [][]string{{"a"}, {"b"}, {"x", "a"}, {"a", "b"}, {"b", "x", "a"}} {
		k := 0
		for _, mc := range all {
			if !slices.Contains(ex, mc.Key) {
				k++
			}
		}
		l, l2 := g.m.GetAllConns(ex...), g.m.GetAllConnsAsConn(ex...)
		sym.Assert(len(l) == k && len(l2) == k, "wrong number of connections that are not excluded")
		for i, mc := range l {
			sym.Assert(!slices.Contains(ex, mc.Key), "GetAllConns returns an excluded key")
			for _, x := range ex {
				sym.Assert(cur[x] == nil || cur[x].conn != l2[i], "GetAllConnsAsConn returns an excluded key")
			}
		}
	}
	for _, b := range g.ms {
		sym.Assert(b.reg == 1, "OnRegister did not run exactly once")
		if cur[b.key] == b {
			sym.Assert(b.unreg == 0, "OnUnregister ran for a registered connection")
		} else {
			sym.Assert(b.unreg == 1, "OnUnregister did not run exactly once for a connection that is gone")
			sym.Assert(b.c.IsClosed(), "connection that is not registered any more is open")
			sym.Assert(b.discon == 1, "disconnect hook did not run exactly once")
		}
	}
}

// C18Seq: any sequence of connects, replacements and closes on two keys.
func C18Seq() {
	g := newRegistry()
	cur := map[string]*member{}
	for i := 0; i < 4+sym.Tier(); i++ {
		switch sym.Pick("op", 5) {
		case 0, 1:
			k := []string{"a", "b"}[sym.Pick("key", 2)]
			prev := cur[k]
			cur[k] = g.connect(k)
			if prev != nil {
				sym.Assert(prev.c.IsClosed(), "replaced connection is not closed")
				sym.Cover("replaced")
			}
		case 2: // close any connection so far, again maybe
			if len(g.ms) == 0 {
				continue
			}
			b := g.ms[sym.Pick("which", len(g.ms))]
			b.conn.Close()
			if cur[b.key] == b {
				delete(cur, b.key)
			}
		case 3: // the peer goes away
			if len(g.ms) == 0 {
				continue
			}
			b := g.ms[sym.Pick("which", len(g.ms))]
			b.c.EOF()
			b.conn.ReadMessage()
			if cur[b.key] == b {
				delete(cur, b.key)
			}
		case 4: // register again: a current connection stays, a closed one stays out
			if len(g.ms) == 0 {
				continue
			}
			b := g.ms[sym.Pick("which", len(g.ms))]
			g.m.Register(b.key, b.mc)
		}
		sym.Idle()
		g.settled(cur)
	}
	sym.Cover("done")
}

// C18Manual: connections registered by hand: their own, under another key than Connect gave them
// or that they carry, and under several.
func C18Manual() {
	g := newRegistry()
	keys := []string{"a", "b"}
	cur := map[string]*member{}
	drop := func(b *member) {
		for _, k := range keys {
			if cur[k] == b {
				delete(cur, k)
			}
		}
	}
	for i := 0; i < 3+sym.Tier(); i++ {
		k := keys[sym.Pick("key", 2)]
		var b *member
		switch sym.Pick("op", 4) {
		case 0:
			b = &member{c: fake.NewConn()}
			g.ms = append(g.ms, b)
			c, err := g.u.Upgrade(fake.NewResponse(b.c, 256, 64), fake.Request())
			if err != nil {
				sym.Fail("upgrade failed")
			}
			b.conn = c
			b.mc = &snapws.ManagedConn[string]{Conn: c, Key: keys[sym.Pick("own", 2)], Manager: g.m}
			g.m.Register(k, b.mc)
			sym.Cover("made")
		case 1:
			b = &member{c: fake.NewConn()}
			g.ms = append(g.ms, b)
			mc, err := g.m.Connect(k, fake.NewResponse(b.c, 256, 64), fake.Request())
			if err != nil {
				sym.Fail("connect failed")
			}
			b.mc, b.conn = mc, mc.Conn
		case 2:
			if len(g.ms) == 0 {
				continue
			}
			x := g.ms[sym.Pick("which", len(g.ms))]
			x.conn.Close()
			drop(x)
		case 3:
			if len(g.ms) == 0 {
				continue
			}
			b = g.ms[sym.Pick("which", len(g.ms))]
			g.m.Register(k, b.mc)
			if b.c.IsClosed() {
				b = nil
			}
			sym.Cover("again")
		}
		if b != nil {
			if prev := cur[k]; prev != nil && prev != b {
				drop(prev)
			}
			cur[k] = b
		}
		sym.Idle()
		n := 0
		for _, k := range keys {
			if cur[k] == nil {
				sym.Assert(g.m.Get(k) == nil, "Get returns a connection that is not current")
				continue
			}
			n++
			sym.Assert(g.m.Get(k) == cur[k].mc, "Get does not return the current connection")
		}
		sym.Assert(len(g.m.GetAllConns()) == n && len(g.m.GetAllConnsAsConn()) == n, "GetAllConns has the wrong number of connections")
		for _, x := range g.ms {
			in := cur["a"] == x || cur["b"] == x
			sym.Assert(x.c.IsClosed() == !in, "connection is open iff it is registered")
			sym.Assert(x.reg == 1, "OnRegister did not run exactly once")
			want := 1
			if in {
				want = 0
			}
			sym.Assert(x.unreg == want, "OnUnregister did not run exactly once, on leaving")
		}
	}
	g.m.Shutdown()
	sym.Idle()
	for _, x := range g.ms {
		sym.Assert(x.c.IsClosed() && x.unreg == 1, "Shutdown left a connection")
	}
	sym.Assert(len(g.m.GetAllConns()) == 0, "Shutdown left a connection registered")
	sym.Cover("done")
}

// C18Race: connects to one key race with closes and with each other.
func C18Race() {
	g := newRegistry()
	hook := sym.Pick("hook", 3)
	switch hook {
	case 1: // hooks that use the manager
		g.inHook = func(b *member, joining bool) {
			g.m.Get("a")
			g.m.GetAllConns()
		}
	case 2: // a hook that refuses the connection
		g.inHook = func(b *member, joining bool) {
			if joining {
				b.conn.Close()
			}
		}
	}
	first := g.connect("a")
	var second, third *member
	shape := sym.Pick("shape", 6)
	if sym.Tier() > 0 || hook == 0 && (shape == 0 || shape == 3) {
		sym.Explore(2)
	} else {
		sym.Explore(1)
	}
	var runs []func()
	switch shape {
	case 0: // replacement races with the first one's close
		runs = append(runs, func() { second = g.connect("a") }, func() { first.conn.Close() })
	case 1: // two replacements
		runs = append(runs, func() { second = g.connect("a") }, func() { third = g.connect("a") })
	case 2: // replacement that is closed by its peer at once
		runs = append(runs, func() {
			second = g.connect("a")
			second.c.EOF()
			second.conn.ReadMessage()
		}, func() { first.conn.Close() })
	case 3: // closed from inside the connect hook's goroutine
		g.u.OnConnect = func(c *snapws.Conn) { go c.Close() }
		runs = append(runs, func() { second = g.connect("a") })
	case 4: // readers of the registry
		runs = append(runs, func() { second = g.connect("b") }, func() { g.m.GetAllConns("a"); g.m.Get("b") }, func() { first.conn.Close() })
	case 5: // the first one's peer vanishes while it is replaced twice
		runs = append(runs, func() { second = g.connect("a"); third = g.connect("a") }, func() {
			first.c.EOF()
			first.conn.ReadMessage()
		})
	}
	done := make(chan bool)
	for _, f := range runs {
		go func() {
			f()
			done <- true
		}()
	}
	for range runs {
		<-done
	}
	sym.Idle()
	open := map[string]*member{}
	for _, b := range g.ms {
		if !b.c.IsClosed() {
			sym.Assert(open[b.key] == nil, "two open connections under one key")
			open[b.key] = b
		}
	}
	for _, k := range []string{"a", "b"} {
		got := g.m.Get(k)
		if open[k] == nil {
			sym.Assert(got == nil, "closed connection still registered")
		} else {
			sym.Assert(got == open[k].mc, "open connection is not the registered one")
			sym.Cover("open")
		}
	}
	sym.Assert(len(g.m.GetAllConns()) == len(open), "GetAllConns differs from the open connections")
	for _, b := range g.ms {
		sym.Assert(b.reg <= 1 && b.unreg <= 1, "hook ran twice for a connection")
		if open[b.key] == b {
			sym.Assert(b.reg == 1 && b.unreg == 0, "hooks of an open connection")
		} else {
			sym.Assert(b.unreg == b.reg, "OnRegister without OnUnregister for a closed connection")
			sym.Assert(b.discon == 1, "disconnect hook did not run exactly once")
		}
	}
	switch {
	case hook == 2 || shape == 3:
	case shape == 0 || shape == 1 || shape == 5:
		sym.Assert(open["a"] != nil, "the replacement did not survive its predecessor")
	case shape == 4:
		sym.Assert(open["b"] != nil, "connection of another key closed")
	}
	sym.Cover("done")
	_, _ = second, third
}

// ---- C19 ----

type roomEnv struct {
	rm    *snapws.RoomManager[string]
	conns []*snapws.Conn
	cs    []*fake.Conn
	rooms []*snapws.Room[string]
	joins map[*snapws.Room[string]]map[*snapws.Conn]int
	leavs map[*snapws.Room[string]]map[*snapws.Conn]int
	jarg  map[*snapws.Conn]int // last argument of OnJoin
	larg  map[*snapws.Conn]int
	hook  func(r *snapws.Room[string], c *snapws.Conn)
}

func newRooms(nconn, nroom int) *roomEnv {
	e := &roomEnv{joins: map[*snapws.Room[string]]map[*snapws.Conn]int{}, leavs: map[*snapws.Room[string]]map[*snapws.Conn]int{}, jarg: map[*snapws.Conn]int{}, larg: map[*snapws.Conn]int{}}
	e.rm = snapws.NewRoomManager[string](snapws.NewUpgrader(noUTF8(small())))
	e.rm.DefaultOnJoin = func(r *snapws.Room[string], c *snapws.Conn, args ...any) {
		sym.Lock()
		count(e.joins, r, c)
		v, ok := snapws.GetArg[int](args, 0)
		if !ok {
			v = -1
		}
		e.jarg[c] = v
		sym.Unlock()
		if e.hook != nil {
			e.hook(r, c)
		}
	}
	e.rm.DefaultOnLeave = func(r *snapws.Room[string], c *snapws.Conn, args ...any) {
		sym.Lock()
		count(e.leavs, r, c)
		v, ok := snapws.GetArg[int](args, 0)
		if !ok {
			v = -1
		}
		e.larg[c] = v
		sym.Unlock()
		if e.hook != nil {
			e.hook(r, c)
		}
	}
	for i := 0; i < nroom; i++ {
		e.rooms = append(e.rooms, e.rm.Add(string([]byte{byte('r' + i)})))
	}
	for i := 0; i < nconn; i++ {
		conn, c := dial(e.rm.Upgrader)
		e.conns = append(e.conns, conn)
		e.cs = append(e.cs, c)
	}
	return e
}

func count(m map[*snapws.Room[string]]map[*snapws.Conn]int, r *snapws.Room[string], c *snapws.Conn) {
	if m[r] == nil {
		m[r] = map[*snapws.Conn]int{}
	}
	m[r][c]++
}

func isMember(r *snapws.Room[string], c *snapws.Conn) bool {
	n := 0
	for _, x := range r.GetAllConns() {
		if x == c {
			n++
		}
	}
	sym.Assert(n <= 1, "connection in the member list twice")
	return n == 1
}

// C19Seq: any sequence of membership operations.
func C19Seq() {
	e := newRooms(2, 2)
	// model: member[room][conn], and the argument it joined with
	var in [2][2]bool
	var arg [2][2]int
	var joins, leaves [2][2]int
	var gone, closed [2]bool // rooms closed, conns closed
	leave := func(r, c int) {
		if in[r][c] {
			in[r][c] = false
			leaves[r][c]++
		}
	}
	steps := 4 + sym.Tier()
	for s := 0; s < steps; s++ {
		op := sym.Pick("op", 7)
		r, c := 0, 0
		if s > 0 { // the first step is on the first of each: they are alike
			if op != 5 {
				r = sym.Pick("room", 2)
			}
			if op != 3 && op != 4 && op != 6 {
				c = sym.Pick("conn", 2)
			}
		}
		if op <= 4 && gone[r] {
			sym.Assume(false)
		}
		switch op {
		case 0: // add with an argument
			e.rooms[r].Add(e.conns[c], 100+s)
			if !in[r][c] && !closed[c] {
				in[r][c] = true
				joins[r][c]++
				arg[r][c] = 100 + s
				sym.Assert(e.jarg[e.conns[c]] == 100+s, "OnJoin did not get the arguments")
			}
		case 1:
			e.rooms[r].Remove(e.conns[c], 200+s)
			if in[r][c] {
				sym.Assert(e.larg[e.conns[c]] == 200+s, "OnLeave did not get the arguments")
			}
			leave(r, c)
		case 2: // move to the other room, or to the same
			sym.Assume(in[r][c] && !gone[1-r])
			same := sym.Pick("same", 2+s%2)
			if same == 2 { // to a room that does not exist
				e.rooms[r].Move(e.conns[c], "nowhere")
				leave(r, c)
				sym.Assert(e.rm.Get("nowhere") == nil, "moving created a room")
				break
			}
			if same == 1 {
				e.rooms[r].Move(e.conns[c], e.rooms[r].Key)
				leave(r, c)
				in[r][c] = true
				joins[r][c]++
				arg[r][c] = -1
				break
			}
			e.rooms[r].Move(e.conns[c], e.rooms[1-r].Key)
			leave(r, c)
			if !in[1-r][c] {
				in[1-r][c] = true
				joins[1-r][c]++
				arg[1-r][c] = -1
			}
		case 3:
			e.rooms[r].RemoveAll()
			leave(r, 0)
			leave(r, 1)
		case 4:
			e.rooms[r].Close()
			leave(r, 0)
			leave(r, 1)
			gone[r] = true
			sym.Assert(e.rm.Get(e.rooms[r].Key) == nil, "closed room still registered")
		case 5: // the connection closes
			e.conns[c].Close()
			n := 0
			for x := 0; x < 2; x++ {
				if in[x][c] {
					n++
				}
			}
			if n == 1 {
				for x := 0; x < 2; x++ {
					if in[x][c] {
						sym.Assert(e.larg[e.conns[c]] == arg[x][c], "OnLeave did not get the arguments given when joining")
					}
				}
			}
			leave(0, c)
			leave(1, c)
			closed[c] = true
		case 6: // the same key again is the same room, unless it was closed
			x := e.rm.Add(e.rooms[r].Key)
			if gone[r] {
				sym.Assert(x != e.rooms[r], "closed room returned for its key")
				old := e.rooms[r]
				old.Close()
				sym.Assert(e.rm.Get(old.Key) == x, "closing an old room removed its successor")
				e.rooms[r] = x
				gone[r] = false
				in[r], joins[r], leaves[r] = [2]bool{}, [2]int{}, [2]int{}
			} else {
				sym.Assert(x == e.rooms[r], "existing room not returned for its key")
			}
		}
		sym.Idle()
		for r := 0; r < 2; r++ {
			n := 0
			for c := 0; c < 2; c++ {
				sym.Assert(isMember(e.rooms[r], e.conns[c]) == in[r][c], "member list differs from joins, leaves and closes")
				sym.Assert(e.joins[e.rooms[r]][e.conns[c]] == joins[r][c], "OnJoin count differs from actual joins")
				sym.Assert(e.leavs[e.rooms[r]][e.conns[c]] == leaves[r][c], "OnLeave count differs from actual leaves")
				if in[r][c] {
					n++
				}
			}
			sym.Assert(len(e.rooms[r].GetAllConns()) == n, "member list has the wrong length")
			if in[r][0] {
				sym.Assert(len(e.rooms[r].GetAllConns(e.conns[0])) == n-1, "excluded member listed")
			}
		}
	}
	for c := range e.cs {
		sym.Assert(e.cs[c].IsClosed() == closed[c], "room operation closed a connection")
	}
	sym.Cover("done")
}

// C19Rejoin: leave hooks that put members back into the room they leave.
func C19Rejoin() {
	n := 1 + sym.Pick("n", 3)
	e := newRooms(n, 1)
	r := e.rooms[0]
	for _, x := range e.conns {
		r.Add(x, 1)
	}
	sym.MapOrder()
	op := sym.Pick("op", 4)
	who := sym.Pick("who", 3) // the first leaver puts back: itself, everybody, nobody but adds in parallel
	fired := false
	joined := map[*snapws.Conn]int{}
	add := func(x *snapws.Conn) {
		before := isMember(r, x)
		r.Add(x, 2)
		// a closing connection is not let in again
		if !before && !(op == 3 && x == e.conns[0]) {
			joined[x]++
		}
	}
	e.hook = func(_ *snapws.Room[string], c *snapws.Conn) {
		if fired {
			return
		}
		fired = true
		switch who {
		case 0:
			add(c)
		case 1:
			for _, x := range e.conns {
				add(x)
			}
		case 2:
			for _, x := range e.conns {
				done := make(chan bool)
				go func() { add(x); close(done) }()
				<-done
			}
		}
	}
	left := 0
	switch op {
	case 0:
		r.RemoveAll()
		left = n
	case 1:
		r.Remove(e.conns[0])
		left = 1
	case 2:
		r.Move(e.conns[0], r.Key)
		left = 1
	case 3:
		e.conns[0].Close()
		left = 1
	}
	for i, x := range e.conns {
		j, l := 1+joined[x], 0
		if i < left {
			l = 1
		}
		if op == 2 && i == 0 && j == 1 {
			j++ // not put back by the hook: by Move itself
		}
		sym.Assert(e.joins[r][x] == j, "OnJoin count differs from actual joins")
		sym.Assert(e.leavs[r][x] == l, "OnLeave count differs from actual leaves")
		sym.Assert(isMember(r, x) == (j > l), "member list differs from joins and leaves")
	}
	sym.Cover("done")
}

// C19Args: what GetArg gives the hooks is what was given when joining.
func C19Args() {
	rm := snapws.NewRoomManager[string](snapws.NewUpgrader(noUTF8(small())))
	num := int(sym.Byte("num"))
	ptr := &num
	kinds := make([]int, sym.Pick("args", 4))
	var args []any
	for i := range kinds {
		kinds[i] = sym.Pick("kind", 5)
		args = append(args, []any{num + i, "s" + dec(i), nil, ptr, int64(7)}[kinds[i]])
	}
	calls := 0
	check := func(args []any) {
		calls++
		sym.Assert(len(args) == len(kinds), "hook got another number of arguments")
		for i := 0; i < 5; i++ {
			k := -1
			if i < len(kinds) {
				k = kinds[i]
			}
			a, ok := snapws.GetArg[int](args, i)
			sym.Assert(ok == (k == 0), "GetArg[int]: wrong verdict")
			sym.Assert(k != 0 && a == 0 || k == 0 && a == num+i, "GetArg[int]: wrong value")
			b, ok := snapws.GetArg[string](args, i)
			sym.Assert(ok == (k == 1), "GetArg[string]: wrong verdict")
			sym.Assert(k != 1 && b == "" || k == 1 && b == "s"+dec(i), "GetArg[string]: wrong value")
			p, ok := snapws.GetArg[*int](args, i)
			sym.Assert(ok == (k == 3), "GetArg[*int]: wrong verdict")
			sym.Assert((p == ptr) == (k == 3), "GetArg[*int]: wrong value")
			c, ok := snapws.GetArg[int64](args, i)
			sym.Assert(ok == (k == 4) && (c == 7) == (k == 4), "GetArg[int64]: wrong result")
		}
	}
	rm.DefaultOnJoin = func(_ *snapws.Room[string], _ *snapws.Conn, args ...any) { check(args) }
	rm.DefaultOnLeave = rm.DefaultOnJoin
	r := rm.Add("r")
	conn, c := dial(rm.Upgrader)
	leave := sym.Pick("leave", 3)
	switch leave {
	case 2: // connecting joins as well
		c = fake.NewConn()
		x, _, err := rm.Connect(fake.NewResponse(c, 256, 64), fake.Request(), "r", args...)
		sym.Assert(err == nil, "connect failed")
		conn = x
	default:
		r.Add(conn, args...)
	}
	sym.Assert(calls == 1, "OnJoin did not run once")
	switch leave {
	case 0:
		conn.Close()
	case 1:
		r.Remove(conn, args...)
	case 2:
		c.EOF()
		conn.ReadMessage()
	}
	sym.Idle()
	sym.Assert(calls == 2, "OnLeave did not run once")
	sym.Cover("done")
}

// C19Two: rooms with the same key of two room managers, joined by one connection.
func C19Two() {
	e := newRooms(2, 1)
	x, c := e.conns[0], e.cs[0]
	rm2 := snapws.NewRoomManager[string](e.rm.Upgrader)
	rm2.DefaultOnJoin, rm2.DefaultOnLeave = e.rm.DefaultOnJoin, e.rm.DefaultOnLeave
	e.rooms = append(e.rooms, rm2.Add(e.rooms[0].Key))
	var in [2]bool
	var n [2]int
	gone := [2]bool{}
	for i := 0; i < 4; i++ {
		r := sym.Pick("room", 2)
		switch sym.Pick("op", 4) {
		case 0:
			sym.Assume(!gone[r])
			e.rooms[r].Add(x, 10+r)
			if !in[r] {
				in[r] = true
				n[r]++
			}
		case 1:
			e.rooms[r].Remove(x)
			in[r] = false
		case 2:
			e.rooms[r].RemoveAll()
			in[r] = false
		case 3:
			e.rooms[r].Close()
			gone[r], in[r] = true, false
		}
	}
	for r, room := range e.rooms {
		sym.Assert(isMember(room, x) == in[r], "member list differs from joins and leaves")
	}
	if sym.Pick("end", 2) == 0 {
		x.Close()
	} else {
		c.EOF()
		x.ReadMessage()
	}
	for r, room := range e.rooms {
		sym.Assert(!isMember(room, x), "closed connection is in a room")
		sym.Assert(e.joins[room][x] == n[r] && e.leavs[room][x] == n[r], "hook counts do not match the membership")
	}
	sym.Cover("done")
}

// C19Race: two or three membership operations at the same time.
func C19Race() {
	e := newRooms(1, 2)
	x, c := e.conns[0], e.cs[0]
	a, b := e.rooms[0], e.rooms[1]
	start := sym.Pick("start", 3)
	if start > 0 {
		a.Add(x, 1)
	}
	if start > 1 {
		b.Add(x, 2)
	}
	if sym.Pick("hook", 2) == 1 { // hooks may use the rooms
		e.hook = func(r *snapws.Room[string], c *snapws.Conn) {
			r.GetAllConns()
			e.rm.GetRoomKeys()
			b.Remove(c)
		}
	}
	hooks := e.hook != nil
	sym.Explore(1 + sym.Tier())
	n := 2
	if sym.Tier() > 0 && !hooks {
		n = 3
	}
	ops := []int{}
	last := 0
	for i := 0; i < n; i++ {
		k := sym.Pick("op", 9)
		sym.Assume(k >= last && !(k == 8 && last == 8)) // one reader
		last = k
		ops = append(ops, k)
	}
	closing := false
	done := make(chan bool)
	for _, k := range ops {
		if k >= 7 {
			closing = true
		}
		go func() {
			switch k {
			case 0:
				a.Add(x, 3)
			case 1:
				a.Remove(x)
			case 2:
				a.Move(x, b.Key)
			case 3:
				b.Move(x, a.Key)
			case 4:
				a.RemoveAll()
			case 5:
				b.Close()
			case 6:
				b.Add(x, 4)
			case 7:
				x.Close()
			case 8:
				c.EOF()
				x.ReadMessage()
			}
			done <- true
		}()
	}
	for range ops {
		<-done
	}
	sym.Idle()
	for _, r := range e.rooms {
		j, l := e.joins[r][x], e.leavs[r][x]
		m := isMember(r, x)
		if m {
			sym.Assert(j == l+1, "hook counts do not match the membership")
		} else {
			sym.Assert(j == l, "hook counts do not match the membership")
		}
		sym.Assert(!m || !closing, "closed connection is in a room")
	}
	sym.Assert(c.IsClosed() == closing, "room operation closed the connection")
	// both agree with later operations
	x.Close()
	sym.Idle()
	for _, r := range e.rooms {
		sym.Assert(!isMember(r, x), "closed connection is in a room")
		sym.Assert(e.joins[r][x] == e.leavs[r][x], "OnLeave missing after close")
	}
	sym.Cover("done")
}

// C19Connect: the room's own connect.
func C19Connect() {
	e := newRooms(0, 0)
	closeIn := sym.Pick("close", 3)
	c := fake.NewConn()
	if closeIn == 1 {
		e.rm.Upgrader.OnConnect = func(c *snapws.Conn) { c.Close() }
	}
	if closeIn == 2 {
		e.rm.Upgrader.OnConnect = func(c *snapws.Conn) { go c.Close() }
	}
	sym.Explore(2)
	conn, room, err := e.rm.Connect(fake.NewResponse(c, 256, 64), fake.Request(), "x", 7)
	if err != nil {
		sym.Fail("connect failed")
	}
	sym.Idle()
	sym.Assert(room != nil && e.rm.Get("x") == room && room.Key == "x", "Connect did not create the room")
	m := isMember(room, conn)
	sym.Assert(m == !c.IsClosed(), "member list differs after Connect")
	if m {
		sym.Assert(e.joins[room][conn] == 1 && e.jarg[conn] == 7, "OnJoin after Connect")
		c.EOF()
		conn.ReadMessage()
		sym.Assert(e.larg[conn] == 7, "OnLeave did not get the arguments given to Connect")
	}
	sym.Assert(!isMember(room, conn), "closed connection is in a room")
	sym.Assert(e.joins[room][conn] == e.leavs[room][conn], "hook counts do not match")
	sym.Cover("done")
}

// C19Rooms: a room key always stands for one room, however many goroutines
// create, look up, list and close it.
func C19Rooms() {
	e := newRooms(2, 1)
	x, y := e.conns[0], e.conns[1]
	old := e.rooms[0]
	key := "new"
	if sym.Pick("key", 2) == 1 {
		key = old.Key
		old.Add(x)
	}
	ops := []int{}
	last := 0
	n := 2 + sym.Tier()
	for i := 0; i < n; i++ {
		k := sym.Pick("op", 5)
		sym.Assume(k >= last)
		last = k
		ops = append(ops, k)
	}
	sym.Explore(1 + sym.Tier())
	var got [3]*snapws.Room[string]
	closes := 0
	done := make(chan bool)
	for i, k := range ops {
		if k == 3 {
			closes++
		}
		go func() {
			switch k {
			case 0:
				got[i] = e.rm.Add(key)
			case 1:
				conn, r, err := e.rm.Connect(fake.NewResponse(fake.NewConn(), 256, 64), fake.Request(), key)
				sym.Assert(err == nil, "connect failed")
				got[i] = r
				_ = conn
			case 2:
				r := e.rm.Add(key)
				r.Add(y)
				got[i] = r
			case 3:
				old.Close()
			case 4:
				e.rm.Get(key)
				e.rm.GetRoomKeys()
			}
			done <- true
		}()
	}
	for range ops {
		<-done
	}
	sym.Idle()
	cur := e.rm.Get(key)
	for _, r := range got {
		if r == nil {
			continue
		}
		sym.Assert(r.Key == key, "room has another key")
		if closes == 0 || key != old.Key {
			sym.Assert(r == cur, "two rooms for one key")
			if key == old.Key {
				sym.Assert(r == old, "existing room not returned for its key")
			}
		} else {
			sym.Assert(r == cur || r == old, "two rooms for one key")
		}
	}
	keys := e.rm.GetRoomKeys()
	cnt := 0
	for _, k := range keys {
		if k == key {
			cnt++
		}
	}
	sym.Assert(cnt <= 1 && (cnt == 1) == (cur != nil), "GetRoomKeys differs from Get")
	sym.Cover("done")
}

// ---- C20 ----

// C20Manager: shutting a connection manager down.
func C20Manager() {
	g := newRegistry()
	n := pickT("n", []int{0, 1, 2, 7}, []int{0, 1, 2, 3, 7, 13})
	hook := sym.Pick("hook", 3)
	switch hook {
	case 1:
		g.inHook = func(b *member, joining bool) { g.m.GetAllConns(); g.m.Get(b.key) }
	case 2:
		g.inHook = func(b *member, joining bool) {
			if !joining {
				time.Sleep(time.Second)
			}
		}
	}
	for i := 0; i < n; i++ {
		g.connect(string([]byte{byte('a' + i)}))
	}
	other := 0
	if n > 0 {
		other = sym.Pick("other", 5)
	}
	switch {
	case n <= 1 && hook == 0 || sym.Tier() > 0 && n <= 2:
		sym.Explore(2)
	case n <= 2 || sym.Tier() > 0:
		sym.Explore(1)
	}
	done := make(chan bool, 4)
	k := 1
	switch other {
	case 1:
		k++
		go func() { g.ms[0].conn.CloseWithCode(4000, "x"); done <- true }()
	case 2:
		k++
		go func() {
			g.ms[n-1].c.EOF()
			g.ms[n-1].conn.ReadMessage()
			done <- true
		}()
	case 3: // a peer that does not read
		g.ms[0].c.StallAt = 1
	case 4:
		k++
		go func() { g.m.Shutdown(); done <- true }()
	}
	within(time.Minute, "Shutdown", g.m.Shutdown)
	// at its return everything is done
	for i, b := range g.ms {
		sym.Assert(b.c.IsClosed(), "connection open after Shutdown")
		sym.Assert(b.discon == 1, "disconnect hook has not run when Shutdown returns")
		sym.Assert(b.unreg == 1, "OnUnregister has not run when Shutdown returns")
		if !(other == 1 && i == 0) && !(other == 2 && i == n-1) && !(other == 3 && i == 0) {
			code := closeCodeOf(b.c)
			sym.Assert(code == 1000, "Shutdown closed a connection with another code than 1000")
		}
	}
	sym.Assert(len(g.m.GetAllConns()) == 0, "connection registered after Shutdown")
	for i := 1; i < k; i++ {
		<-done
	}
	sym.Cover("done")
}

func closeCodeOf(c *fake.Conn) int {
	fs, rest, bad := fake.Decode(stripped(c.Out()))
	sym.Assert(bad == "" && rest == 0, "server output malformed")
	if len(fs) == 0 || fs[len(fs)-1].Op != 8 {
		return 0
	}
	return fake.CloseCode(fs[len(fs)-1])
}

// C20Rooms: shutting a room manager down.
func C20Rooms() {
	n := pickT("n", []int{0, 1, 2, 6}, []int{0, 1, 2, 3, 6, 12})
	e := newRooms(n, 2)
	hook := sym.Pick("hook", 3)
	for i, x := range e.conns {
		e.rooms[i%2].Add(x, i)
		if i == 1 {
			e.rooms[0].Add(x) // in both
		}
	}
	switch hook {
	case 1:
		e.hook = func(r *snapws.Room[string], c *snapws.Conn) {
			r.GetAllConns()
			e.rm.Get("r")
			e.rm.GetRoomKeys()
			r.Remove(c)
		}
	case 2:
		e.hook = func(r *snapws.Room[string], c *snapws.Conn) { time.Sleep(time.Second) }
	}
	discon := map[*snapws.Conn]int{}
	e.rm.Upgrader.OnDisconnect = func(c *snapws.Conn) {
		if hook == 2 {
			time.Sleep(time.Second)
		}
		sym.Lock()
		discon[c]++
		sym.Unlock()
	}
	other := 0
	if n > 0 {
		other = sym.Pick("other", 5)
	}
	switch {
	case n <= 1 && hook == 0 || sym.Tier() > 0 && n <= 2:
		sym.Explore(2)
	case n <= 2 || sym.Tier() > 0:
		sym.Explore(1)
	}
	done := make(chan bool, 4)
	k := 1
	switch other {
	case 1:
		k++
		go func() { e.conns[0].CloseWithCode(4000, "x"); done <- true }()
	case 2:
		k++
		go func() { e.rooms[0].Remove(e.conns[0]); done <- true }()
	case 3:
		e.cs[0].StallAt = 1
	case 4:
		k++
		go func() { e.rm.Shutdown(); done <- true }()
	}
	within(time.Minute, "Shutdown", e.rm.Shutdown)
	if other == 4 {
		<-done // of two, one may leave the work to the other
		k--
	}
	for i, x := range e.conns {
		if other == 2 && i == 0 {
			continue // may have left before
		}
		sym.Assert(e.cs[i].IsClosed(), "connection open after Shutdown")
		// (one that was being closed may have left the rooms already)
		sym.Assert(discon[x] == 1 || other == 1 && i == 0, "disconnect hook has not run when Shutdown returns")
		for _, r := range e.rooms {
			sym.Assert(!isMember(r, x), "member of a room after Shutdown")
			sym.Assert(e.joins[r][x] == e.leavs[r][x] || other == 1 && i == 0, "OnLeave has not run when Shutdown returns")
		}
		if !(other == 1 && i == 0) && !(other == 3 && i == 0) {
			sym.Assert(closeCodeOf(e.cs[i]) == 1001, "Shutdown closed a connection with another code than 1001")
		}
	}
	sym.Assert(len(e.rm.GetRoomKeys()) == 0 && e.rm.Get("r") == nil, "room registered after Shutdown")
	for i := 1; i < k; i++ {
		<-done
	}
	sym.Cover("done")
}

// ---- C21 ----

// C21Bcast: manager and room broadcasts with any exclusion.
func C21Bcast() {
	o := noUTF8(small())
	o.WriteBufferSize = 20
	u := snapws.NewUpgrader(o)
	room := sym.Pick("room", 2) == 1
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	keys := []string{"a", "b", "c"}
	var conns []*snapws.Conn
	var cs []*fake.Conn
	var r *snapws.Room[string]
	for i, k := range keys {
		c := fake.NewConn()
		var conn *snapws.Conn
		if room {
			key := "in"
			if i == 2 {
				key = "out" // another room
			}
			x, rr, err := rm.Connect(fake.NewResponse(c, 256, 64), fake.Request(), key)
			sym.Assert(err == nil, "connect failed")
			conn = x
			if i == 0 {
				r = rr
			}
		} else {
			mc, err := m.Connect(k, fake.NewResponse(c, 256, 64), fake.Request())
			sym.Assert(err == nil, "connect failed")
			conn = mc.Conn
		}
		stripResp(c)
		conns = append(conns, conn)
		cs = append(cs, c)
	}
	gone := sym.Pick("gone", 3) // nobody, or one member closed or removed before
	in := []bool{true, true, !room}
	if gone == 1 {
		conns[1].Close()
		cs[1].ResetOut()
		in[1] = false
	}
	if gone == 2 && room {
		r.Remove(conns[0])
		in[0] = false
	}
	sym.Idle()
	want := make([][]msg, 3)
	for i := 0; i < 2; i++ {
		api := sym.Pick("api", 3)
		exA, exB := sym.Pick("exA", 2) == 1, sym.Pick("exB", 2) == 1
		n := pickLen("len", 0, 3, 30)
		if i == 1 {
			n = 5
		}
		data, all, mem := guarded("d", n)
		keep := append([]byte(nil), data...)
		op := byte(1)
		var got int
		var err error
		if room {
			var ex []*snapws.Conn
			if exA {
				ex = append(ex, conns[0])
			}
			if exB {
				ex = append(ex, conns[1])
			}
			switch api {
			case 0:
				got, err = r.BroadcastString(nil, data, ex...)
			case 1:
				got, err = r.BroadcastBytes(context.Background(), data, ex...)
			case 2:
				got, err = r.BroadcastJSON(nil, 12+i, ex...)
			}
		} else {
			var ex []string
			if exA {
				ex = append(ex, "a")
			}
			if exB {
				ex = append(ex, "b")
			}
			switch api {
			case 0:
				got, err = m.BroadcastString(nil, data, ex...)
			case 1:
				got, err = m.BroadcastBytes(context.Background(), data, ex...)
			case 2:
				got, err = m.BroadcastJSON(nil, 12+i, ex...)
			}
		}
		switch api {
		case 1:
			op = 2
		case 2:
			keep = []byte{'1', '2' + byte(i)}
		}
		sym.Assert(eq(all, mem), "broadcast changed memory of the caller")
		// the caller reuses its slice
		for j := range data {
			data[j] = 0xff
		}
		if err != nil {
			sym.Fail("broadcast failed: " + err.Error())
		}
		cnt := 0
		for j := range want {
			if in[j] && !(exA && j == 0) && !(exB && j == 1) {
				want[j] = append(want[j], msg{op, keep})
				cnt++
			}
		}
		sym.Assert(got == cnt, "broadcast returned the wrong number of connections")
	}
	sym.Idle()
	for j, c := range cs {
		sent(c, want[j])
		ms, _, _ := wire(c)
		for _, x := range ms {
			sym.Assert(x.Frames == 1, "broadcast was fragmented")
		}
		sym.Assert(c.IsClosed() == (j == 1 && gone == 1), "broadcast changed the state of a connection")
	}
	sym.Cover("done")
}

// C21Len: payload length encodings.
func C21Len() {
	u := snapws.NewUpgrader(noUTF8(small()))
	m := snapws.NewManager[string](u)
	c := fake.NewConn()
	_, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	n := pickT("len", []int{0, 1, 124, 125, 126, 127, 255, 256, 65535, 65536, 65537}, []int{0, 1, 2, 100, 124, 125, 126, 127, 128, 200, 255, 256, 257, 1000, 65534, 65535, 65536, 65537, 66000})
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i * 5)
	}
	if n > 0 {
		p[0] = sym.Byte("b")
		p[n-1] = sym.Byte("b")
		p[n/2] = sym.Byte("b")
	}
	k, err := m.BroadcastBytes(nil, p)
	sym.Assert(err == nil && k == 1, "broadcast failed")
	sym.Idle()
	sent(c, []msg{{2, p}})
	ms, _, _ := wire(c)
	sym.Assert(ms[0].Frames == 1, "broadcast was fragmented")
	sym.Cover("done")
}

// C21Busy: broadcasts to a member that is sending a fragmented message arrive
// after it, once, in order.
func C21Busy() {
	o := noUTF8(small())
	o.WriteBufferSize = 20
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[string](u)
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	sym.Explore(2)
	w, err := mc.NextWriter(nil, 2)
	sym.Assert(err == nil, "NextWriter")
	p := sym.Bytes("p", 8)
	w.Write(p)
	var want []msg
	for i := 0; i < 3; i++ {
		d := sym.Bytes("d", 2)
		n, err := m.BroadcastString(nil, d)
		sym.Assert(n == 1 && err == nil, "broadcast with room in the queue failed")
		want = append(want, msg{1, d})
	}
	w.Flush()
	sym.Assert(w.Close() == nil, "Close failed")
	sym.Idle()
	sent(c, append([]msg{{2, p}}, want...))
	sym.Cover("done")
}

// C21Cancel: a broadcast whose context ends while it waits in a queue is sent
// once or not at all and changes nothing for the broadcasts after it.
func C21Cancel() {
	u := snapws.NewUpgrader(noUTF8(small()))
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	r := rm.Add("r")
	r.Add(mc.Conn)
	busy := sym.Pick("busy", 3)
	var w *snapws.ConnWriter
	switch busy {
	case 1: // the member is sending
		w, err = mc.NextWriter(nil, 2)
		sym.Assert(err == nil, "NextWriter")
		w.Write([]byte("w"))
	case 2: // the transport is slow
		c.SlowWrite = time.Second
	}
	room := sym.Pick("room", 2) == 1
	bcast := func(ctx context.Context, s string) (int, error) {
		if room {
			return r.BroadcastString(ctx, []byte(s))
		}
		return m.BroadcastString(ctx, []byte(s))
	}
	end := sym.Pick("end", 3) // when the context ends
	sym.Explore(1)
	ctx, cancel := context.WithCancel(context.Background())
	if busy == 2 {
		n, err := bcast(nil, "0")
		sym.Assert(n == 1 && err == nil, "broadcast with room in the queue failed")
		sym.Idle()
	}
	if end == 0 {
		cancel()
	}
	n, err := bcast(ctx, "1")
	sym.Assert(n == 1 && err == nil || n == 0 && err == context.Canceled && end == 0, "result of a broadcast with a context")
	if end == 1 {
		sym.Idle()
	}
	cancel()
	if end == 2 {
		sym.Idle()
	}
	k, err := bcast(nil, "2")
	sym.Assert(k == 1 && err == nil, "broadcast after a cancelled one failed")
	sym.Idle()
	if w != nil {
		sym.Assert(w.Close() == nil, "Close failed")
	}
	sym.Idle()
	k, err = bcast(context.Background(), "3")
	sym.Assert(k == 1 && err == nil, "broadcast after a cancelled one failed")
	time.Sleep(10 * time.Second)
	sym.Idle()
	ms, _, _ := wire(c)
	if len(ms) > 0 && (busy == 1 && eq(ms[0].Data, []byte("w")) || busy == 2 && eq(ms[0].Data, []byte("0"))) {
		ms = ms[1:]
	} else {
		sym.Assert(busy == 0, "message of the member lost")
	}
	if len(ms) == 3 {
		sym.Assert(n == 1 && eq(ms[0].Data, []byte("1")), "unexpected message")
		sym.Cover("sent")
		ms = ms[1:]
	} else {
		sym.Cover("not sent")
	}
	sym.Assert(len(ms) == 2 && eq(ms[0].Data, []byte("2")) && eq(ms[1].Data, []byte("3")), "broadcast after a cancelled one not sent once, in order")
	sym.Assert(!c.IsClosed(), "broadcast closed the connection")
}

// ---- C22 ----

// C22Full: a member whose queue is full, another that is free.
func C22Full() {
	o := noUTF8(small())
	o.BroadcastChannelsSize = 1 + sym.Pick("queue", 2)
	strat := sym.Pick("strategy", 3)
	o.BroadcastBackpressure = snapws.BackpressureStrategy([]int{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[strat])
	batch := sym.Pick("batch", 2) == 1
	g := &registry{}
	g.u = snapws.NewUpgrader(o)
	if batch {
		g.u.EnablePrefixBatching(nil, time.Hour)
	}
	g.m = snapws.NewManager[string](g.u)
	a, b := g.connect("a"), g.connect("b")
	room := sym.Pick("room", 2) == 1
	var r *snapws.Room[string]
	if room {
		rm := snapws.NewRoomManager[string](g.u)
		r = rm.Add("r")
		r.Add(a.conn)
		r.Add(b.conn)
	}
	stripResp(a.c)
	stripResp(b.c)
	ctx, cancel := context.WithCancel(context.Background())
	tag := byte('0')
	bcast := func() (int, error) {
		tag++
		d := []byte{tag, 'x'}
		if room {
			return r.BroadcastString(ctx, d)
		}
		return g.m.BroadcastString(ctx, d)
	}
	// A's listener is kept busy by an open writer
	w, err := a.conn.NextWriter(nil, 2)
	sym.Assert(err == nil, "NextWriter")
	w.Write([]byte("w"))
	fit := o.BroadcastChannelsSize + 1 // one is with the listener
	for i := 0; i < fit; i++ {
		n, err := bcast()
		sym.Assert(n == 2 && err == nil, "broadcast with room in every queue failed")
		sym.Idle()
	}
	full := 2
	release := sym.Pick("release", 4)
	sym.Explore(1 + sym.Tier())
	switch strat {
	case 0, 1:
		within(time.Second, "broadcast", func() {
			for i := 0; i < full; i++ {
				n, err := bcast()
				if err != nil {
					sym.Fail("broadcast to a slow member failed: " + err.Error())
				}
				sym.Assert(n == 1, "broadcast counts a connection the message was not queued for")
				sym.Idle()
			}
		})
		sym.Idle()
		sym.Assert(!b.c.IsClosed(), "free member disconnected")
		if strat == 0 {
			sym.Assert(!a.c.IsClosed(), "slow member disconnected by Drop")
			sym.Assert(w.Close() == nil, "Close failed")
			sym.Idle()
			ms, _, _ := wire(a.c)
			sym.Assert(len(ms) == 1+fit, "queued broadcasts lost or dropped ones sent")
			for i := 0; i < fit; i++ {
				sym.Assert(ms[1+i].Data[0] == byte('1'+i), "queued broadcasts out of order")
			}
			sym.Cover("dropped")
		} else {
			sym.Assert(a.c.IsClosed(), "slow member not disconnected by Close")
			sym.Assert(closeCodeOf(a.c) == 1008, "slow member closed with another code than 1008")
			sym.Assert(g.m.Get("a") == nil, "closed member still registered")
			sym.Cover("closed")
		}
		ms, _, _ := wire(b.c)
		sym.Assert(len(ms) == fit+full, "free member did not get every broadcast")
	case 2:
		done := make(chan bool)
		var n int
		go func() {
			n, err = bcast()
			close(done)
		}()
		sym.Idle()
		select {
		case <-done:
			sym.Fail("Wait did not wait for room in the queue")
		default:
		}
		switch release {
		case 0: // room again
			sym.Assert(w.Close() == nil, "Close failed")
		case 1:
			cancel()
		case 2:
			go a.conn.Close()
		case 3:
			a.c.EOF()
			go a.conn.ReadMessage()
		}
		select {
		case <-done:
		case <-time.After(time.Second):
			sym.Fail("broadcast still blocked")
		}
		sym.Idle()
		na, nb := 0, 0
		la, lb := bodies(a.c), bodies(b.c)
		for _, x := range la {
			if x[0] == tag {
				na++
			}
		}
		for _, x := range lb {
			if x[0] == tag {
				nb++
			}
		}
		switch release {
		case 0:
			sym.Assert(err == nil && n == 2 && na == 1 && nb == 1, "Wait: message not sent once there was room")
			sym.Cover("waited")
		case 1:
			sym.Assert(err == context.Canceled, "cancelled broadcast does not return the context's error")
			sym.Assert(n <= 1 && na == 0, "cancelled broadcast counts a connection the message was not queued for")
			sym.Assert(!a.c.IsClosed() && !b.c.IsClosed(), "cancelled broadcast closed a connection")
			sym.Cover("cancelled")
		default:
			sym.Assert(err == nil && na == 0, "broadcast failed because a member closed")
			sym.Assert(n <= 2 && nb == 1, "other member did not get the broadcast")
			sym.Cover("released")
		}
	}
	cancel()
}

// C22Batch: the same for batch broadcasts, and for queues that hold both kinds.
func C22Batch() {
	o := noUTF8(small())
	q := 1 + sym.Pick("queue", 2)
	o.BroadcastChannelsSize = q
	strat := sym.Pick("strategy", 3)
	o.BroadcastBackpressure = snapws.BackpressureStrategy([]int{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[strat])
	g := &registry{}
	g.u = snapws.NewUpgrader(o)
	g.u.EnablePrefixBatching(nil, time.Hour)
	g.m = snapws.NewManager[string](g.u)
	a, b := g.connect("a"), g.connect("b")
	room := sym.Pick("room", 2) == 1
	var r *snapws.Room[string]
	if room {
		rm := snapws.NewRoomManager[string](g.u)
		r = rm.Add("r")
		r.Add(a.conn)
		r.Add(b.conn)
	}
	stripResp(a.c)
	stripResp(b.c)
	ctx, cancel := context.WithCancel(context.Background())
	w, err := a.conn.NextWriter(nil, 2)
	sym.Assert(err == nil, "NextWriter")
	w.Write([]byte("w"))
	// the listener of A is busy with a plain broadcast
	n, err := g.m.BroadcastString(nil, []byte("0"))
	sym.Assert(n == 2 && err == nil, "broadcast with room in every queue failed")
	sym.Idle()
	tag := byte('0')
	bcast := func() (int, error) {
		tag++
		if room {
			return r.BatchBroadcast(ctx, []byte{tag, 'x'})
		}
		return g.m.BatchBroadcast(ctx, []byte{tag, 'x'})
	}
	for i := 0; i < q; i++ {
		n, err := bcast()
		sym.Assert(n == 2 && err == nil, "batch broadcast with room in every queue failed")
		sym.Idle()
	}
	got := func(c *fake.Conn) (l []byte) {
		for i, x := range bodies(c) {
			switch {
			case i == 0 && c == a.c && eq(x, []byte("w")), len(x) == 1 && x[0] == '0':
			default:
				for _, d := range unbatch(x) {
					sym.Assert(len(d) == 2 && d[1] == 'x', "batched message changed")
					l = append(l, d[0])
				}
			}
		}
		return
	}
	release := 0
	if strat == 2 {
		release = sym.Pick("release", 5)
	}
	sym.Explore(1 + sym.Tier())
	na, nb := q, q // expected at A and B
	switch strat {
	case 0, 1:
		within(time.Second, "batch broadcast", func() {
			for i := 0; i < 2; i++ {
				n, err := bcast()
				if err != nil {
					sym.Fail("batch broadcast to a slow member failed: " + err.Error())
				}
				sym.Assert(n == 1, "batch broadcast counts a connection the message was not queued for")
				nb++
				sym.Idle()
			}
		})
		sym.Idle()
		if strat == 0 {
			sym.Assert(!a.c.IsClosed(), "slow member disconnected by Drop")
			sym.Assert(w.Close() == nil, "Close failed")
			sym.Cover("dropped")
		} else {
			sym.Assert(a.c.IsClosed() && closeCodeOf(a.c) == 1008, "slow member not closed with code 1008")
			sym.Assert(g.m.Get("a") == nil, "closed member still registered")
			na = 0
			sym.Cover("closed")
		}
	case 2:
		done := make(chan bool)
		go func() {
			n, err = bcast()
			close(done)
		}()
		sym.Idle()
		select {
		case <-done:
			sym.Fail("Wait did not wait for room in the queue")
		default:
		}
		switch release {
		case 0:
			sym.Assert(w.Close() == nil, "Close failed")
		case 1:
			cancel()
		case 2:
			go a.conn.Close()
		case 3:
			g.u.Flusher.Close()
		case 4:
			a.c.EOF()
			go a.conn.ReadMessage()
		}
		select {
		case <-done:
		case <-time.After(time.Second):
			sym.Fail("batch broadcast still blocked")
		}
		sym.Idle()
		switch release {
		case 0:
			sym.Assert(err == nil && n == 2, "Wait: message not queued once there was room")
			na, nb = na+1, nb+1
		case 1:
			sym.Assert(err == context.Canceled && n <= 1, "cancelled batch broadcast: wrong result")
			nb += n
			sym.Assert(w.Close() == nil, "Close failed")
		case 2, 4:
			sym.Assert(err == nil && n <= 2 && n >= 1, "batch broadcast failed because a member closed")
			na, nb = 0, nb+1
		case 3:
			sym.Assert(err == snapws.ErrFlusherClosed && n <= 1, "batch broadcast after the flusher closed: wrong result")
			w.Close()
			nb = -1
		}
		sym.Cover("waited")
	}
	sym.Idle()
	g.u.Flusher.Close()
	sym.Idle()
	sym.Assert(!b.c.IsClosed(), "free member disconnected")
	la, lb := got(a.c), got(b.c)
	for i, x := range lb {
		sym.Assert(x == byte('1'+i), "batch broadcasts lost, repeated or out of order")
	}
	if nb >= 0 {
		sym.Assert(len(lb) == nb, "free member did not get every batch broadcast")
		sym.Assert(len(la) == na, "slow member did not get exactly the batch broadcasts that were queued for it")
		for i, x := range la {
			sym.Assert(x == byte('1'+i), "batch broadcasts lost, repeated or out of order")
		}
	}
	cancel()
}

func bodies(c *fake.Conn) (l [][]byte) {
	ms, _, _, bad := assembleTo(c)
	sym.Assert(bad == "", "server output malformed")
	for _, m := range ms {
		l = append(l, m.Data)
	}
	return
}

// C22Race: broadcasts while members come and go never hang.
func C22Race() {
	o := noUTF8(small())
	o.BroadcastChannelsSize = 1
	strat := sym.Pick("strategy", 3)
	o.BroadcastBackpressure = snapws.BackpressureStrategy([]int{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[strat])
	g := &registry{}
	g.u = snapws.NewUpgrader(o)
	g.u.EnablePrefixBatching(nil, time.Hour)
	g.m = snapws.NewManager[string](g.u)
	a := g.connect("a")
	room := sym.Pick("room", 2) == 1
	rm := snapws.NewRoomManager[string](g.u)
	r := rm.Add("r")
	if room {
		r.Add(a.conn)
	}
	bcast := func() {
		if room {
			r.BroadcastString(nil, []byte("x"))
			r.BatchBroadcast(nil, []byte("y"))
		} else {
			g.m.BroadcastString(nil, []byte("x"))
			g.m.BatchBroadcast(nil, []byte("y"))
		}
	}
	shape := sym.Pick("shape", 4)
	sym.Explore(1 + sym.Tier())
	var runs []func()
	runs = append(runs, func() { bcast(); bcast() })
	switch shape {
	case 0:
		runs = append(runs, a.conn.Close)
	case 1: // a newcomer
		runs = append(runs, func() {
			if room {
				c := fake.NewConn()
				_, _, err := rm.Connect(fake.NewResponse(c, 256, 64), fake.Request(), "r")
				sym.Assert(err == nil, "connect failed")
			} else {
				g.connect("b")
			}
		})
	case 2: // replaced
		runs = append(runs, func() { g.connect("a") })
	case 3: // failing transport
		a.c.WriteFailAt = 1
		runs = append(runs, bcast)
	}
	within(time.Minute, "broadcast", func() {
		done := make(chan bool)
		for _, f := range runs {
			go func() {
				f()
				done <- true
			}()
		}
		for range runs {
			<-done
		}
	})
	sym.Idle()
	for _, b := range g.ms {
		_, _, _, bad := assembleTo(b.c)
		sym.Assert(bad == "", "server output malformed")
	}
	sym.Cover("done")
}
