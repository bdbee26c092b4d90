package h

import (
	"context"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// world is one managed connection and what the actors did to it.
type world struct {
	u     *snapws.Upgrader
	m     *snapws.Manager[string]
	conn  *snapws.ManagedConn[string]
	c     *fake.Conn
	hooks int
	acts  []*actor
	done  chan int
	nping int
	pings [][]byte
	batch bool
}

// actor is one goroutine's program and its results.
type actor struct {
	name   string
	run    func()
	ok     []msg // sends that reported success, in order
	maybe  []msg // sends that failed, or are only queued
	queued []msg // broadcasts and batches that were accepted, in order
	errs   []error
	closes bool
}

const flushEvery = 50 * time.Millisecond

func newWorld(o *snapws.Options, batch bool) *world {
	w := &world{batch: batch, done: make(chan int, 16)}
	o.OnDisconnect = func(*snapws.Conn) { w.hooks++ }
	w.u = snapws.NewUpgrader(o)
	if batch {
		w.u.EnablePrefixBatching(nil, flushEvery)
	}
	w.m = snapws.NewManager[string](w.u)
	w.c = fake.NewConn()
	conn, err := w.m.Connect("k", fake.NewResponse(w.c, 256, 64), fake.Request())
	if err != nil {
		sym.Fail("connect failed")
	}
	stripResp(w.c)
	w.conn = conn
	return w
}

func (a *actor) sent(m msg, err error) {
	a.errs = append(a.errs, err)
	if err == nil {
		a.ok = append(a.ok, m)
	} else {
		a.maybe = append(a.maybe, m)
	}
}

// payload: recognisable first byte, arbitrary rest.
func (w *world) payload(tag byte, n int) []byte {
	return append([]byte{tag}, sym.Bytes("p", n-1)...)
}

const (
	actSend = iota
	actStream
	actBroadcast
	actPing
	actReader
	actJSON
	actClose
	actBatch
	actCancel
	actPeerClose
	nActs
)

// add prepares an actor; nothing runs yet.
func (w *world) add(kind, i int) *actor {
	a := &actor{}
	t := byte('a' + 4*i)
	conn := w.conn.Conn
	switch kind {
	case actSend:
		a.name = "send"
		p, q := w.payload(t, 3), w.payload(t+1, 9)
		a.run = func() {
			a.sent(msg{1, p}, conn.SendString(context.Background(), p))
			a.sent(msg{2, q}, conn.SendBytes(nil, q))
		}
	case actStream:
		a.name = "stream"
		p := w.payload(t, 7)
		a.run = func() {
			wr, err := conn.NextWriter(context.Background(), 2)
			if err == nil {
				_, err = wr.Write(p[:3])
				if e := wr.Flush(); err == nil {
					err = e
				}
				if _, e := wr.Write(p[3:]); err == nil {
					err = e
				}
				if e := wr.Close(); err == nil {
					err = e
				}
			}
			a.sent(msg{2, p}, err)
		}
	case actBroadcast:
		a.name = "broadcast"
		p, q := w.payload(t, 2), w.payload(t+1, 8)
		a.run = func() {
			for _, m := range []msg{{2, p}, {2, q}} {
				n, err := w.m.BroadcastBytes(context.Background(), m.data)
				sym.Assert(err == nil, "broadcast with room in the queue failed")
				if n > 0 {
					a.queued = append(a.queued, m)
				} else {
					a.maybe = append(a.maybe, m)
				}
			}
		}
	case actPing:
		a.name = "ping"
		a.run = func() {
			err := conn.Ping()
			if err == nil {
				w.nping++
			} else if err != snapws.ErrPingAlreadySent {
				a.errs = append(a.errs, err)
			}
		}
	case actReader:
		a.name = "reader"
		x, y := sym.Bytes("x", 2), sym.Bytes("y", 1)
		w.pings = [][]byte{x, y}
		var s []byte
		s = cf(s, true, 9, x)
		s = cf(s, false, 2, []byte{1})
		s = cf(s, true, 9, y)
		s = cf(s, true, 0, []byte{2})
		w.c.Feed(s)
		a.run = func() {
			_, data, err := conn.ReadMessage()
			if err == nil {
				sym.Assert(eq(data, []byte{1, 2}), "incoming message changed")
			}
			a.errs = append(a.errs, err)
		}
	case actJSON:
		a.name = "json"
		a.run = func() {
			v := "j" + string([]byte{t}) + "0123456789"
			a.sent(msg{1, []byte("\"" + v + "\"\n")}, conn.SendJSON(nil, v))
		}
	case actClose:
		a.name = "close"
		a.closes = true
		a.run = func() { conn.Close() }
	case actBatch:
		a.name = "batch"
		p, q := w.payload(t, 2), w.payload(t+1, 4)
		a.run = func() {
			for _, d := range [][]byte{p, q} {
				err := conn.Batch(d)
				a.errs = append(a.errs, err)
				if err == nil {
					a.queued = append(a.queued, msg{0, d})
				}
			}
		}
	case actCancel:
		a.name = "cancel"
		p := w.payload(t, 8)
		ctx, cancel := context.WithCancel(context.Background())
		a.run = func() {
			go cancel()
			err := conn.SendBytes(ctx, p)
			if err == context.Canceled {
				// nothing of it may be on the wire
				a.maybe = append(a.maybe, msg{2, p})
				return
			}
			// cancelled between two frames: the message cannot be completed
			a.closes = err != nil
			a.sent(msg{2, p}, err)
		}
	case actPeerClose:
		a.name = "peerclose"
		a.closes = true
		w.c.Feed(cf(nil, true, 8, []byte{3, 232}))
		a.run = func() {
			_, _, err := conn.ReadMessage()
			sym.Assert(err != nil && snapws.IsFatalErr(err), "read after a close frame does not fail fatally")
		}
	}
	w.acts = append(w.acts, a)
	return a
}

// start runs every actor in its own goroutine and waits for all of them.
func (w *world) start() {
	for i, a := range w.acts {
		go func() {
			a.run()
			w.done <- i
		}()
	}
	for range w.acts {
		<-w.done
	}
	sym.Idle()
	if w.batch {
		time.Sleep(2 * flushEvery)
		sym.Idle()
	}
}

func sameMsg(a, b msg) bool {
	return a.op == b.op && len(a.data) == len(b.data) && a.data[0] == b.data[0] && eq(a.data, b.data)
}

// find returns the index of the only occurrence of m in ms.
func find(ms []msg, m msg) int {
	at, n := -1, 0
	for i, x := range ms {
		if x.op == m.op && len(x.data) > 0 && tag(x) == tag(m) {
			n++
			at = i
		}
	}
	if n > 1 {
		sym.Fail("message on the wire more than once")
	}
	if n == 1 {
		sym.Assert(sameMsg(ms[at], m), "message on the wire differs from the one sent")
	}
	return at
}

// tag identifies a message: its first byte, or the character after j in JSON.
func tag(m msg) byte {
	if m.op == 1 && m.data[0] == '"' && len(m.data) > 2 {
		return m.data[2] + 128
	}
	return m.data[0]
}

// unbatch splits a length-prefixed batch.
func unbatch(b []byte) (l [][]byte) {
	for len(b) > 0 {
		if len(b) < 4 {
			sym.Fail("batch malformed")
		}
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		if n > len(b)-4 {
			sym.Fail("batch malformed")
		}
		l = append(l, b[4:4+n])
		b = b[4+n:]
	}
	return
}

// check judges the wire against what the actors were told.
func (w *world) check() {
	closed := w.c.IsClosed()
	raw, ctl, open := wire(w.c)
	var ms []msg
	for _, m := range raw {
		if w.batch && m.Op == 2 && len(m.Data) > 4 && m.Data[0] == 0 {
			for _, d := range unbatch(m.Data) {
				ms = append(ms, msg{0, d})
			}
			continue
		}
		ms = append(ms, msg{m.Op, m.Data})
	}
	if !closed {
		sym.Assert(open == 0, "unfinished message on the wire of an open connection")
	}
	known := 0
	anyClose := false
	for _, a := range w.acts {
		anyClose = anyClose || a.closes
	}
	for _, a := range w.acts {
		last := -1
		for _, m := range a.ok {
			at := find(ms, m)
			sym.Assert(at >= 0, "successful send is not on the wire")
			sym.Assert(at > last, "messages of one goroutine out of order")
			last = at
			known++
		}
		last = -1
		for _, m := range a.queued {
			at := find(ms, m)
			if at < 0 {
				sym.Assert(anyClose, "accepted message is not on the wire of an open connection")
				continue
			}
			sym.Assert(at > last, "messages of one goroutine out of order")
			last = at
			known++
		}
		for _, m := range a.maybe {
			if find(ms, m) >= 0 {
				sym.Fail("message whose send failed is on the wire complete")
			}
		}
		for _, e := range a.errs {
			if e == nil {
				continue
			}
			if !anyClose {
				sym.Fail("operation on an open connection failed: " + e.Error())
			}
			sym.Assert(snapws.IsFatalErr(e), "operation on a closing connection failed with a non-fatal error")
		}
	}
	sym.Assert(known == len(ms), "message on the wire that nobody sent")
	nclose, np, pong := 0, 0, 0
	for _, f := range ctl {
		switch f.Op {
		case 8:
			nclose++
		case 9:
			np++
			sym.Assert(len(f.Payload) == 0, "ping with a payload")
		case 10:
			sym.Assert(pong < len(w.pings) && eq(f.Payload, w.pings[pong]), "pong does not match its ping")
			pong++
		}
	}
	sym.Assert(np == w.nping || anyClose && np <= 1 && w.nping <= np, "pings on the wire differ from successful Ping calls")
	if anyClose {
		sym.Assert(closed, "connection not closed")
		sym.Assert(nclose == 1, "not exactly one close frame")
		sym.Assert(w.hooks == 1, "disconnect hook did not run exactly once")
		sym.Cover("closed")
	} else {
		sym.Assert(!closed && nclose == 0, "connection closed by itself")
		sym.Assert(pong == len(w.pings), "ping not answered")
		sym.Cover("open")
	}
}

func concOpts() *snapws.Options {
	o := noUTF8(small())
	o.WriteBufferSize = 20
	return o
}

// C11Two: every pair of concurrent programs on one connection.
func C11Two() {
	i := sym.Pick("first", nActs)
	j := sym.Pick("second", nActs)
	sym.Assume(i <= j && !(i >= actReader && i == j && i != actJSON && i != actClose && i != actBatch && i != actCancel))
	sym.Assume(!(i == actReader && j == actPeerClose))
	w := newWorld(concOpts(), i == actBatch || j == actBatch)
	w.add(i, 0)
	w.add(j, 1)
	dev := 2 + sym.Tier()
	if sym.Tier() == 0 && (j == actCancel || j == actPeerClose || j == actJSON || i == actJSON || j == actBatch && i >= actBroadcast && i != actClose) {
		dev = 1
	}
	sym.Explore(dev)
	w.start()
	w.check()
}

// C11Three: triples.
func C11Three() {
	i := sym.Pick("first", nActs)
	j := sym.Pick("second", nActs)
	k := sym.Pick("third", nActs)
	sym.Assume(i <= j && j <= k)
	rd := 0
	for _, x := range []int{i, j, k} {
		if x == actReader || x == actPeerClose {
			rd++
		}
	}
	sym.Assume(rd <= 1)
	if sym.Tier() == 0 {
		sym.Assume(i < j && j < k)
	}
	w := newWorld(concOpts(), i == actBatch || j == actBatch || k == actBatch)
	w.add(i, 0)
	w.add(j, 1)
	w.add(k, 2)
	sym.Explore(1 + sym.Tier())
	w.start()
	w.check()
}
