package h

import (
	"context"
	"errors"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// ---- C23 ----

func jsonBatch(pre []byte, ms [][]byte, suf []byte) []byte {
	out := []byte{'['}
	var l [][]byte
	if pre != nil {
		l = append(l, pre)
	}
	l = append(l, ms...)
	if suf != nil {
		l = append(l, suf)
	}
	for i, m := range l {
		if i > 0 {
			out = append(out, ',')
		}
		out = append(out, m...)
	}
	return append(out, ']')
}

func prefixBatch(pre []byte, ms [][]byte, suf []byte) (out []byte) {
	var l [][]byte
	if pre != nil {
		l = append(l, pre)
	}
	l = append(l, ms...)
	if suf != nil {
		l = append(l, suf)
	}
	for _, m := range l {
		n := len(m)
		out = append(out, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		out = append(out, m...)
	}
	return
}

// batchWorld is an upgrader with batching and one connection.
func batchWorld(json bool, wbuf int) (*snapws.Upgrader, *snapws.Conn, *fake.Conn) {
	o := noUTF8(small())
	o.WriteBufferSize = wbuf
	u := snapws.NewUpgrader(o)
	if json {
		u.EnableJSONBatching(nil, flushEvery)
	} else {
		u.EnablePrefixBatching(context.Background(), flushEvery)
	}
	conn, c := dial(u)
	return u, conn, c
}

var spare = [100]byte{0: 0x5a, 1: 0x5a, 2: 0x5a, 3: 0x5a, 50: 0x5a, 99: 0x5a}

// guarded returns n symbolic bytes inside a larger array, with the array and a
// copy of it: the library must not write to the slices it is given, nor behind
// them.
func guarded(name string, n int) (b, all, keep []byte) {
	all = append(append([]byte{0xa5, 0xa5}, sym.Bytes(name, n)...), spare[:]...)
	return all[2 : 2+n], all, append([]byte(nil), all...)
}

// C23Enc: the bytes of one batch, and of the one after it.
func C23Enc() {
	json := sym.Pick("strategy", 2) == 0
	u, conn, c := batchWorld(json, pickT("wbuf", []int{15, 16, 21, 64, 200}, []int{15, 16, 17, 18, 19, 21, 25, 40, 64, 200}))
	var pre, suf []byte
	ctxOK := true
	var seen [][]byte
	look := func(x *snapws.Conn, ms [][]byte) {
		ctxOK = ctxOK && x == conn
		seen = ms
	}
	var arrays [][2][]byte
	arg := func(name string, n int) []byte {
		b, all, keep := guarded(name, n)
		arrays = append(arrays, [2][]byte{all, keep})
		return b
	}
	switch sym.Pick("prefix", 3) {
	case 1:
		pre = arg("pre", 2)
		fallthrough
	case 2:
		u.Flusher.BatchPrefixFunc = func(x *snapws.Conn, ms [][]byte) []byte { look(x, ms); return pre }
	}
	switch sym.Pick("suffix", 3) {
	case 1:
		suf = arg("suf", pickLen("suflen", 3, 2))
		fallthrough
	case 2:
		u.Flusher.BatchSuffixFunc = func(x *snapws.Conn, ms [][]byte) []byte { look(x, ms); return suf }
	}
	var want []msg
	for i := 0; i < 2; i++ {
		n := 1
		if i == 0 {
			n += sym.Pick("n", 3)
		}
		var ms [][]byte
		for j := 0; j < n; j++ {
			d := arg("d", pickLen("len", 0, 1, 6))
			sym.Assert(conn.Batch(d) == nil, "Batch failed")
			ms = append(ms, d)
		}
		time.Sleep(2 * flushEvery)
		sym.Idle()
		for _, a := range arrays {
			sym.Assert(eq(a[0], a[1]), "batching changed memory of the caller")
		}
		sym.Assert(ctxOK, "prefix or suffix function got another connection")
		if u.Flusher.BatchPrefixFunc != nil || u.Flusher.BatchSuffixFunc != nil {
			sym.Assert(len(seen) == n, "prefix or suffix function got other messages")
			for j := range seen {
				sym.Assert(eq(seen[j], ms[j]), "prefix or suffix function got other messages")
			}
		}
		if json {
			want = append(want, msg{2, jsonBatch(pre, ms, suf)})
		} else {
			want = append(want, msg{2, prefixBatch(pre, ms, suf)})
		}
		sent(c, want)
	}
	sym.Cover("done")
}

// C23Two: batches of two connections are written at the same time.
func C23Two() {
	o := noUTF8(small())
	o.WriteBufferSize = 18
	u := snapws.NewUpgrader(o)
	json := sym.Pick("strategy", 2) == 0
	if json {
		u.EnableJSONBatching(nil, flushEvery)
	} else {
		u.EnablePrefixBatching(nil, flushEvery)
	}
	ends := sym.Pick("ends", 2) == 1
	if ends {
		u.Flusher.BatchPrefixFunc = func(x *snapws.Conn, ms [][]byte) []byte { return append([]byte("p"), ms[0]...) }
		u.Flusher.BatchSuffixFunc = func(x *snapws.Conn, ms [][]byte) []byte { return append([]byte("s"), ms[0]...) }
	}
	var conns []*snapws.Conn
	var cs []*fake.Conn
	for i := 0; i < 2; i++ {
		x, c := dial(u)
		conns, cs = append(conns, x), append(cs, c)
	}
	var want [2][]msg
	for i, x := range conns {
		ms := [][]byte{sym.Bytes("d", 1+5*i), sym.Bytes("d", 3+i)}
		for _, d := range ms {
			sym.Assert(x.Batch(d) == nil, "Batch failed")
		}
		var pre, suf []byte
		if ends {
			pre = append([]byte("p"), ms[0]...)
			suf = append([]byte("s"), ms[0]...)
		}
		if json {
			want[i] = append(want[i], msg{2, jsonBatch(pre, ms, suf)})
		} else {
			want[i] = append(want[i], msg{2, prefixBatch(pre, ms, suf)})
		}
	}
	sym.Explore(1 + sym.Tier())
	time.Sleep(2 * flushEvery)
	sym.Idle()
	for i, c := range cs {
		sent(c, want[i])
	}
	sym.Cover("done")
}

// C23Len: payload lengths around every boundary of the length prefix.
func C23Len() {
	json := sym.Pick("strategy", 2) == 0
	u, conn, c := batchWorld(json, pickLen("wbuf", 64, 4096))
	// what the prefix and suffix functions add is of any length as well
	var pre, suf []byte
	if k := pickLen("extra", 0, 255, 300, 70000); k > 0 {
		pre, suf = make([]byte, k), make([]byte, k+1)
		for i := range suf {
			suf[i] = byte('a' + i%26)
			if i < k {
				pre[i] = byte('A' + i%26)
			}
		}
		u.Flusher.BatchPrefixFunc = func(*snapws.Conn, [][]byte) []byte { return pre }
		u.Flusher.BatchSuffixFunc = func(*snapws.Conn, [][]byte) []byte { return suf }
	}
	n := pickT("len", []int{0, 1, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537}, []int{0, 1, 2, 3, 4, 5, 10, 100, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65792, 131072})
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i * 7)
	}
	if n > 0 {
		p[0], p[n-1] = sym.Byte("b"), sym.Byte("b")
	}
	q := sym.Bytes("q", 2)
	sym.Assert(conn.Batch(p) == nil && conn.Batch(q) == nil, "Batch failed")
	time.Sleep(2 * flushEvery)
	sym.Idle()
	if json {
		sent(c, []msg{{2, jsonBatch(pre, [][]byte{p, q}, suf)}})
	} else {
		sent(c, []msg{{2, prefixBatch(pre, [][]byte{p, q}, suf)}})
	}
	sym.Cover("done")
}

// C23JSON: BatchJSON and JSON batch broadcasts put encoded values in the batch.
func C23JSON() {
	o := noUTF8(small())
	u := snapws.NewUpgrader(o)
	json := sym.Pick("strategy", 2) == 0
	if json {
		u.EnableJSONBatching(nil, flushEvery)
	} else {
		u.EnablePrefixBatching(nil, flushEvery)
	}
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	r := rm.Add("r")
	r.Add(mc.Conn)
	var ms [][]byte
	for i := 0; i < 3; i++ {
		var v any
		var e []byte
		switch sym.Pick("value", 4) {
		case 0:
			v, e = 12+i, []byte{'1', '2' + byte(i)}
		case 1:
			v, e = "ab", []byte(`"ab"`)
		case 2:
			v, e = []int{1, 2}, []byte(`[1,2]`)
		case 3:
			v, e = map[string]any{"k": true}, []byte(`{"k":true}`)
		}
		switch sym.Pick("api", 3) {
		case 0:
			sym.Assert(mc.BatchJSON(v) == nil, "BatchJSON failed")
		case 1:
			n, err := m.BatchBroadcastJSON(nil, v)
			sym.Assert(n == 1 && err == nil, "BatchBroadcastJSON failed")
		case 2:
			n, err := r.BatchBroadcastJSON(context.Background(), v)
			sym.Assert(n == 1 && err == nil, "BatchBroadcastJSON failed")
		}
		sym.Idle()
		ms = append(ms, e)
	}
	bad := make(chan int)
	sym.Assert(mc.BatchJSON(bad) != nil, "BatchJSON accepted a value that cannot be encoded")
	n, err := m.BatchBroadcastJSON(nil, bad)
	sym.Assert(n == 0 && err != nil, "BatchBroadcastJSON accepted a value that cannot be encoded")
	n, err = r.BatchBroadcastJSON(nil, bad)
	sym.Assert(n == 0 && err != nil, "BatchBroadcastJSON accepted a value that cannot be encoded")
	time.Sleep(2 * flushEvery)
	sym.Idle()
	if json {
		sent(c, []msg{{2, jsonBatch(nil, ms, nil)}})
	} else {
		sent(c, []msg{{2, prefixBatch(nil, ms, nil)}})
	}
	sym.Cover("done")
}

// batchLog records what a custom strategy was given.
type batchLog struct {
	conn *snapws.Conn
	got  [][][]byte
	slow time.Duration
	err  error
	busy int
}

func (l *batchLog) send(ctx context.Context, conn *snapws.Conn, ms [][]byte) error {
	if l.conn != nil {
		sym.Assert(conn == l.conn, "custom send function got another connection")
	}
	l.busy++
	sym.Assert(l.busy == 1, "two batches of one connection are sent at the same time")
	if l.slow > 0 {
		time.Sleep(l.slow)
	}
	l.busy--
	l.got = append(l.got, ms)
	return l.err
}

// C23Custom: a custom strategy gets exactly the messages.
func C23Custom() {
	o := noUTF8(small())
	u := snapws.NewUpgrader(o)
	l := &batchLog{}
	if sym.Pick("err", 2) == 1 {
		l.err = context.DeadlineExceeded
	}
	u.EnableBatching(nil, flushEvery, l.send)
	conn, c := dial(u)
	l.conn = conn
	for i := 0; i < 2; i++ {
		n := 1 + sym.Pick("n", 3)
		var ms [][]byte
		for j := 0; j < n; j++ {
			d := sym.Bytes("d", pickLen("len", 0, 2))
			sym.Assert(conn.Batch(d) == nil, "Batch failed")
			ms = append(ms, d)
		}
		time.Sleep(2 * flushEvery)
		sym.Idle()
		sym.Assert(len(l.got) == i+1, "custom send function not called once per batch")
		sym.Assert(len(l.got[i]) == n, "custom send function got another number of messages")
		for j := range ms {
			sym.Assert(eq(l.got[i][j], ms[j]), "custom send function got other messages")
		}
	}
	sym.Assert(len(c.Out()) == 0, "library sent something by itself")
	sym.Cover("done")
}

// ---- C24 ----

// C24Race: batchers, size flushes, the timer and the flusher's close.
func C24Race() {
	o := noUTF8(small())
	o.MaxBatchSize = pickLen("max", 6, 3)
	u := snapws.NewUpgrader(o)
	l := &batchLog{}
	custom := sym.Pick("custom", 2) == 1
	if custom {
		u.EnableBatching(nil, flushEvery, l.send)
	} else {
		u.EnablePrefixBatching(nil, flushEvery)
	}
	m := snapws.NewManager[string](u)
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	shape := sym.Pick("shape", 6)
	slow := sym.Pick("slow", 2) == 1
	if slow {
		c.SlowWrite = 30 * time.Millisecond
		l.slow = 70 * time.Millisecond
	}
	var runs []func()
	var got [3][][]byte // per batcher, accepted messages in order
	batcher := func(i int, lens ...int) func() {
		var ds [][]byte
		for j, n := range lens {
			ds = append(ds, append([]byte{byte('a' + 8*i + j)}, sym.Bytes("d", n-1)...))
		}
		return func() {
			for _, d := range ds {
				if mc.Batch(d) == nil {
					got[i] = append(got[i], d)
				}
			}
		}
	}
	closing := false
	switch shape {
	case 0: // one batcher alone
		runs = append(runs, batcher(0, 2, 2, 3, 9))
	case 1:
		runs = append(runs, batcher(0, 2, 2), batcher(1, 3, 4))
	case 2: // the flusher closes
		runs = append(runs, batcher(0, 2, 5), u.Flusher.Close)
		closing = true
	case 3:
		runs = append(runs, batcher(0, 2, 5), batcher(1, 2), u.Flusher.Close)
		closing = true
	case 4: // around a tick
		b := batcher(0, 2, 2, 5)
		runs = append(runs, func() { time.Sleep(flushEvery); b() }, func() { time.Sleep(flushEvery); runtimeGosched() })
	case 5: // a batch broadcast and a batcher
		d := append([]byte{'z'}, sym.Bytes("d", 1)...)
		runs = append(runs, batcher(0, 2, 5), func() {
			n, err := m.BatchBroadcast(nil, d)
			sym.Assert(n == 1 && err == nil, "BatchBroadcast failed")
			got[1] = append(got[1], d)
			e := append([]byte{'y'}, d...)
			n, err = m.BatchBroadcast(nil, e)
			sym.Assert(n == 1 && err == nil, "BatchBroadcast failed")
			got[1] = append(got[1], e)
		})
	}
	dev := 1 + sym.Tier()
	if shape == 2 && !slow {
		dev++
	}
	sym.Explore(dev)
	sym.Early(flushEvery)
	done := make(chan bool)
	for _, f := range runs {
		go func() {
			f()
			done <- true
		}()
	}
	for range runs {
		<-done
	}
	time.Sleep(10 * flushEvery)
	sym.Idle()
	if !closing {
		for _, g := range got[:1] {
			sym.Assert(len(g) >= 2, "Batch failed on an open connection")
		}
	}
	// what was sent
	var bs [][][]byte
	if custom {
		bs = l.got
	} else {
		raw, _, open := wire(c)
		sym.Assert(open == 0, "unfinished batch")
		for _, x := range raw {
			sym.Assert(x.Op == 2, "batch is not binary")
			bs = append(bs, unbatch(x.Data))
		}
	}
	var all [][]byte
	for _, b := range bs {
		sym.Assert(len(b) > 0, "empty batch sent")
		n := 0
		for _, d := range b {
			n += len(d)
			all = append(all, d)
		}
		sym.Assert(len(b) == 1 || n <= o.MaxBatchSize, "batch larger than MaxBatchSize")
	}
	total := 0
	for i := range got {
		last := -1
		for _, d := range got[i] {
			at := -1
			for k, x := range all {
				if x[0] == d[0] {
					sym.Assert(at < 0, "message sent twice")
					at = k
				}
			}
			sym.Assert(at >= 0, "accepted message not sent")
			sym.Assert(eq(all[at], d), "message changed")
			sym.Assert(at > last, "messages of one goroutine sent out of order")
			last = at
			total++
		}
	}
	sym.Assert(total == len(all), "message sent that was not accepted")
	sym.Assert(!c.IsClosed(), "connection closed")
	sym.Cover("done")
}

func runtimeGosched() { sym.Yield() }

// C24Err: a failing custom send function gets every later message too.
func C24Err() {
	o := noUTF8(small())
	o.MaxBatchSize = 4
	u := snapws.NewUpgrader(o)
	var got [][]byte
	calls, busy := 0, 0
	fails := [2]bool{sym.Pick("f0", 2) == 1, sym.Pick("f1", 2) == 1}
	slow := sym.Pick("slow", 2) == 1
	u.EnableBatching(nil, flushEvery, func(_ context.Context, conn *snapws.Conn, ms [][]byte) error {
		busy++
		sym.Assert(busy == 1, "custom send function called concurrently for one connection")
		if slow {
			time.Sleep(flushEvery + flushEvery/2)
		}
		busy--
		got = append(got, ms...)
		calls++
		if calls <= 2 && fails[calls-1] {
			return errors.New("custom")
		}
		return nil
	})
	conn, c := dial(u)
	var all [][]byte
	sym.Explore(1)
	for i := 0; i < 3; i++ {
		for j := pickT("n", []int{0, 2}, []int{0, 1, 2}); j >= 0; j-- {
			d := append([]byte{byte(len(all))}, sym.Bytes("d", 1)...)
			sym.Assert(conn.Batch(d) == nil, "Batch failed")
			all = append(all, d)
		}
		if sym.Pick("wait", 2) == 1 {
			time.Sleep(flushEvery + flushEvery/5)
		}
	}
	time.Sleep(10 * flushEvery)
	sym.Idle()
	sym.Assert(len(got) == len(all), "accepted messages not passed to the custom send function exactly once")
	for i := range all {
		sym.Assert(eq(got[i], all[i]), "message changed or out of order")
	}
	sym.Assert(!c.IsClosed(), "connection closed")
	sym.Cover("done")
}

// C24Size: every sequence of message sizes around MaxBatchSize.
func C24Size() {
	o := noUTF8(small())
	o.MaxBatchSize = 5
	u := snapws.NewUpgrader(o)
	u.EnablePrefixBatching(nil, flushEvery)
	conn, c := dial(u)
	var all [][]byte
	start := time.Now()
	for i := 0; i < 4+sym.Tier(); i++ {
		d := sym.Bytes("d", pickLen("len", 0, 1, 2, 4, 5, 6, 11))
		sym.Assert(conn.Batch(d) == nil, "Batch failed")
		all = append(all, d)
		if sym.Pick("run", 2) == 1 {
			sym.Idle()
		}
	}
	sym.Assert(time.Since(start) == 0, "Batch blocked")
	time.Sleep(2 * flushEvery)
	sym.Idle()
	raw, _, open := wire(c)
	sym.Assert(open == 0, "unfinished batch")
	k := 0
	for _, x := range raw {
		b := unbatch(x.Data)
		sym.Assert(len(b) > 0, "empty batch sent")
		n := 0
		for _, d := range b {
			n += len(d)
			sym.Assert(k < len(all), "message sent that was not accepted")
			sym.Assert(eq(d, all[k]), "message changed or out of order")
			k++
		}
		sym.Assert(len(b) == 1 || n <= 5, "batch larger than MaxBatchSize")
	}
	sym.Assert(k == len(all), "accepted message not sent")
	sym.Cover("done")
}

// C24Bcast: batch broadcasts reach exactly the members that are not excluded.
func C24Bcast() {
	o := noUTF8(small())
	u := snapws.NewUpgrader(o)
	u.EnablePrefixBatching(nil, flushEvery)
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	r := rm.Add("r")
	var cs []*fake.Conn
	var conns []*snapws.Conn
	for _, k := range []string{"a", "b"} {
		c := fake.NewConn()
		mc, err := m.Connect(k, fake.NewResponse(c, 256, 64), fake.Request())
		sym.Assert(err == nil, "connect failed")
		stripResp(c)
		cs = append(cs, c)
		conns = append(conns, mc.Conn)
		r.Add(mc.Conn)
	}
	gone := sym.Pick("gone", 2) == 1
	if gone {
		conns[1].Close()
		cs[1].ResetOut()
		sym.Idle()
	}
	var want [2][][]byte
	sym.Explore(1)
	for i := 0; i < 2; i++ {
		d := sym.Bytes("d", pickLen("len", 0, 2))
		ex := sym.Pick("ex", 3)
		var n int
		var err error
		if sym.Pick("room", 2) == 1 {
			var e []*snapws.Conn
			if ex > 0 {
				e = append(e, conns[ex-1])
			}
			n, err = r.BatchBroadcast(nil, d, e...)
		} else {
			var e []string
			if ex > 0 {
				e = append(e, []string{"a", "b"}[ex-1])
			}
			n, err = m.BatchBroadcast(context.Background(), d, e...)
		}
		cnt := 0
		for j := range want {
			if ex != j+1 && !(j == 1 && gone) {
				want[j] = append(want[j], d)
				cnt++
			}
		}
		sym.Assert(n == cnt && err == nil, "BatchBroadcast returned the wrong number of connections")
	}
	time.Sleep(3 * flushEvery)
	sym.Idle()
	for j, c := range cs {
		raw, _, _ := wire(c)
		var all [][]byte
		for _, x := range raw {
			all = append(all, unbatch(x.Data)...)
		}
		sym.Assert(len(all) == len(want[j]), "batch broadcast lost, duplicated or sent to the wrong member")
		for k := range all {
			sym.Assert(eq(all[k], want[j][k]), "batch broadcast changed or out of order")
		}
	}
	sym.Cover("done")
}

// ---- C25 ----

// C25Timely: when each message is sent.
func C25Timely() {
	o := noUTF8(small())
	u := snapws.NewUpgrader(o)
	iv := pickDur("interval", 0, 20*time.Millisecond, flushEvery, time.Second)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	strat := sym.Pick("strategy", 3)
	l := &batchLog{}
	switch strat {
	case 0:
		u.EnableJSONBatching(ctx, iv)
	case 1:
		u.EnablePrefixBatching(ctx, iv)
	case 2:
		u.EnableBatching(ctx, iv, l.send)
	}
	if iv == 0 {
		iv = 50 * time.Millisecond
	}
	sym.Idle() // the flusher runs
	time.Sleep(pickDur("start", 0, iv/2, 3*iv/2))
	conn, c := dial(u)
	var at []time.Time
	c.OnWrite = func([]byte) { at = append(at, time.Now()) }
	n := 0
	for i := 0; i < 2+sym.Tier(); i++ {
		time.Sleep(pickDur("gap", 0, iv/3, iv, 5*iv/2))
		if strat == 2 {
			n = len(l.got)
		} else {
			n = len(at)
		}
		first := time.Now()
		sym.Assert(conn.Batch([]byte{'1'}) == nil, "Batch failed")
		if sym.Pick("more", 2) == 1 {
			sym.Assert(conn.Batch([]byte{'2'}) == nil, "Batch failed")
		}
		if sym.Pick("wait", 2) == 0 {
			continue
		}
		time.Sleep(iv - time.Since(first))
		sym.Idle()
		time.Sleep(time.Nanosecond)
		sym.Idle()
		if strat == 2 {
			sym.Assert(len(l.got) > n, "batch not sent within one flush interval")
			n = len(l.got)
			continue
		}
		sym.Assert(len(at) > n, "batch not sent within one flush interval")
		n = len(at)
	}
	// nothing more without a new message
	time.Sleep(iv + time.Millisecond)
	sym.Idle()
	k, b := len(at), len(l.got)
	time.Sleep(3 * iv)
	sym.Idle()
	sym.Assert(len(at) == k && len(l.got) == b, "empty batch sent")
	sym.Cover("done")
}

// C25End: closing and cancelling, twice, with connections that come and go.
func C25End() {
	o := noUTF8(small())
	u := snapws.NewUpgrader(o)
	g0 := sym.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	u.EnablePrefixBatching(ctx, flushEvery)
	f := u.Flusher
	conn, c := dial(u)
	p, q := sym.Bytes("p", 2), sym.Bytes("q", 1)
	pending := sym.Pick("pending", 2) == 1
	if pending {
		sym.Assert(conn.Batch(p) == nil, "Batch failed")
	}
	end := sym.Pick("end", 4)
	race := sym.Pick("race", 5)
	sym.Explore(1 + sym.Tier())
	done := make(chan bool, 4)
	k := 1
	go func() {
		switch end {
		case 0:
			f.Close()
		case 1:
			cancel()
		case 2:
			f.Close()
			f.Close()
		case 3: // both
			f.Close()
			cancel()
			f.Close()
		}
		done <- true
	}()
	var n2 *snapws.Conn
	var c2 *fake.Conn
	switch race {
	case 1:
		k++
		go func() { f.Close(); done <- true }()
	case 2:
		k++
		go func() { conn.Close(); done <- true }()
	case 3:
		k++
		go func() {
			c2 = fake.NewConn()
			n2 = dialOn(u, c2)
			done <- true
		}()
	case 4:
		k++
		go func() {
			c2 = fake.NewConn()
			n2 = dialOn(u, c2)
			n2.Close()
			n2 = nil
			done <- true
		}()
	}
	for i := 0; i < k; i++ {
		<-done
	}
	sym.Idle()
	raw, _, _, bad := assembleTo(c)
	sym.Assert(bad == "", "server output malformed")
	var all [][]byte
	for _, x := range raw {
		all = append(all, unbatch(x.Data)...)
	}
	sym.Assert(len(all) <= 1, "batched message sent twice")
	if (end == 0 || end == 2) && race != 2 {
		if pending {
			sym.Assert(len(all) == 1 && eq(all[0], p), "flusher close did not send what was pending")
			sym.Cover("drained")
		}
	}
	if end == 1 && race != 1 && race != 2 {
		sym.Assert(len(all) == 0, "batch sent after the flusher was cancelled")
		sym.Cover("cancelled")
	}
	// refused from now on
	err := conn.Batch(q)
	sym.Assert(err != nil, "Batch accepted a message after the end of the flusher")
	if n2 != nil {
		sym.Assert(n2.Batch(q) != nil, "Batch accepted a message after the end of the flusher")
		sym.Assert(n2.SendBytes(nil, q) == nil, "connection unusable after the end of the flusher")
	}
	if race != 2 {
		sym.Assert(conn.SendBytes(nil, q) == nil, "connection unusable after the end of the flusher")
	}
	n := len(c.Out())
	time.Sleep(4 * flushEvery)
	sym.Idle()
	sym.Assert(len(c.Out()) == n, "something sent after the end of the flusher")
	// its goroutine is gone
	conn.Close()
	if n2 != nil {
		n2.Close()
	}
	sym.Idle()
	sym.Assert(sym.Goroutines() == g0, "goroutine left after the end of the flusher")
	cancel()
	sym.Cover("done")
}

// C25Drain: everything pending on every connection is sent at close, also in
// the middle of a flush, and a message accepted is never left behind.
func C25Drain() {
	o := noUTF8(small())
	o.MaxBatchSize = 4
	u := snapws.NewUpgrader(o)
	u.EnablePrefixBatching(nil, flushEvery)
	type peer struct {
		conn *snapws.Conn
		c    *fake.Conn
		want [][]byte
	}
	var ps []*peer
	for i := 0; i < 2; i++ {
		conn, c := dial(u)
		ps = append(ps, &peer{conn, c, nil})
	}
	slow := sym.Pick("slow", 3)
	for i, p := range ps {
		n := sym.Pick("n", 3)
		if i == 0 && slow > 0 {
			p.c.SlowWrite = 40 * time.Millisecond
		}
		for j := 0; j < n; j++ {
			d := sym.Bytes("d", 3)
			sym.Assert(p.conn.Batch(d) == nil, "Batch failed")
			p.want = append(p.want, d)
		}
	}
	if slow == 2 {
		time.Sleep(flushEvery + flushEvery/2)
	}
	sym.Explore(1)
	var late []byte
	accepted := false
	done := make(chan bool)
	go func() {
		late = sym.Bytes("l", 2)
		accepted = ps[1].conn.Batch(late) == nil
		close(done)
	}()
	u.Flusher.Close()
	sym.Assert(u.Flusher.IsClosed(), "IsClosed after Close")
	<-done
	if accepted {
		ps[1].want = append(ps[1].want, late)
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
	time.Sleep(time.Second)
	sym.Idle()
	for _, p := range ps {
		raw, _, open := wire(p.c)
		sym.Assert(open == 0, "unfinished batch")
		var all [][]byte
		for _, x := range raw {
			all = append(all, unbatch(x.Data)...)
		}
		sym.Assert(len(all) == len(p.want), "flusher close lost or duplicated a message")
		for k := range all {
			sym.Assert(eq(all[k], p.want[k]), "message changed or out of order")
		}
	}
}

// C25Closed: one message and one close, with more deviations than elsewhere: a message
// is accepted and sent, or refused.
func C25Closed() {
	u := snapws.NewUpgrader(noUTF8(small()))
	ctx, cancel := context.WithCancel(context.Background())
	u.EnablePrefixBatching(ctx, time.Hour)
	m := snapws.NewManager[string](u)
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	sym.Idle()
	how := sym.Pick("how", 3)
	sym.Explore(2 + sym.Tier())
	done := make(chan bool)
	ok := false
	go func() {
		if how == 1 {
			ok = mc.BatchJSON(1) == nil
		} else {
			ok = mc.Batch([]byte("1")) == nil
		}
		done <- true
	}()
	if how == 2 {
		u.EnableJSONBatching(nil, time.Hour)
	} else {
		u.Flusher.Close()
	}
	<-done
	sym.Idle()
	if ok {
		sent(c, []msg{{2, prefixBatch(nil, [][]byte{{'1'}}, nil)}})
		sym.Cover("accepted")
	} else {
		sent(c, nil)
		sym.Cover("refused")
	}
	cancel()
}

// C25Refuse: Batch with no flusher, after close, cancel, or on a closed connection.
func C25Refuse() {
	o := noUTF8(small())
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[string](u)
	rm := snapws.NewRoomManager[string](u)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	state := sym.Pick("state", 5)
	l := &batchLog{}
	enable := func(k int) {
		switch k {
		case 0:
			u.EnablePrefixBatching(ctx, flushEvery)
		case 1:
			u.EnableJSONBatching(ctx, flushEvery)
		case 2:
			u.EnableBatching(ctx, flushEvery, l.send)
		}
	}
	kind := 0
	if state != 0 {
		enable(0)
		if state == 4 {
			kind = sym.Pick("again", 3)
		}
	}
	c := fake.NewConn()
	mc, err := m.Connect("a", fake.NewResponse(c, 256, 64), fake.Request())
	sym.Assert(err == nil, "connect failed")
	stripResp(c)
	r := rm.Add("r")
	r.Add(mc.Conn)
	var before []byte
	if state > 0 && sym.Pick("before", 2) == 1 {
		before = []byte("b")
		sym.Assert(mc.Batch(before) == nil, "Batch failed")
	}
	switch state {
	case 1:
		u.Flusher.Close()
	case 2:
		cancel()
	case 3:
		mc.Close()
	case 4: // re-enabled: the old flusher is closed, its connections with it
		old := u.Flusher
		enable(kind)
		sym.Assert(old.IsClosed(), "enabling batching again did not close the previous flusher")
		sym.Assert(!u.Flusher.IsClosed(), "new flusher is closed")
	}
	if sym.Pick("settle", 2) == 1 {
		sym.Idle()
	}
	d := sym.Bytes("d", 2)
	var errs []error
	switch sym.Pick("api", 4) {
	case 0:
		errs = append(errs, mc.Batch(d))
	case 1:
		errs = append(errs, mc.BatchJSON(7))
	case 2:
		if state == 4 {
			break // the broadcast goes through the new flusher
		}
		n, err := m.BatchBroadcast(nil, d)
		if state == 3 {
			sym.Assert(n == 0 && err == nil, "batch broadcast to nobody")
			break
		}
		if n == 0 {
			errs = append(errs, err)
		}
	case 3:
		if state == 4 {
			break
		}
		n, err := r.BatchBroadcastJSON(nil, 7)
		if state == 3 {
			sym.Assert(n == 0 && err == nil, "batch broadcast to nobody")
			break
		}
		if n == 0 {
			errs = append(errs, err)
		}
	}
	for _, err := range errs {
		if err == nil {
			sym.Fail("Batch accepted a message that cannot be sent")
		}
		switch state {
		case 0:
			sym.Assert(err == snapws.ErrBatchingUninitialized, "wrong error without a flusher")
		case 1, 4:
			sym.Assert(err == snapws.ErrFlusherClosed, "wrong error after the flusher was closed")
		case 2:
			sym.Assert(err == context.Canceled, "wrong error after the flusher was cancelled")
		case 3:
			sym.Assert(snapws.IsFatalErr(err), "wrong error on a closed connection")
		}
		sym.Cover("refused")
	}
	time.Sleep(3 * flushEvery)
	sym.Idle()
	raw, _, _, bad := assembleTo(c)
	sym.Assert(bad == "", "server output malformed")
	var all [][]byte
	for _, x := range raw {
		all = append(all, unbatch(x.Data)...)
	}
	if state == 1 || state == 4 {
		if before != nil {
			sym.Assert(len(all) == 1 && eq(all[0], before), "pending message not sent when the flusher closed, or refused message sent")
		} else {
			sym.Assert(len(all) == 0, "refused message sent")
		}
	} else {
		sym.Assert(len(all) == 0, "refused message sent")
	}
	if state == 4 {
		// new connections batch with the new strategy
		n2, c2 := dial(u)
		sym.Assert(n2.Batch([]byte("7")) == nil, "Batch failed with the new flusher")
		time.Sleep(2 * flushEvery)
		sym.Idle()
		switch kind {
		case 0:
			sent(c2, []msg{{2, prefixBatch(nil, [][]byte{{'7'}}, nil)}})
		case 1:
			sent(c2, []msg{{2, []byte("[7]")}})
		case 2:
			sent(c2, nil)
			sym.Assert(len(l.got) == 1 && len(l.got[0]) == 1 && eq(l.got[0][0], []byte("7")), "new batch function not used")
		}
	}
	sym.Cover("done")
}
