package h

import (
	"context"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

// wire decodes everything the server wrote; the stream must be well-formed.
func wire(c *fake.Conn) (ms []fake.Msg, ctl []fake.Frame, open int) {
	fs, rest, bad := fake.Decode(c.Out())
	if bad != "" {
		sym.Fail("server output malformed: " + bad)
	}
	sym.Assert(rest == 0, "server output ends inside a frame")
	ms, ctl, open, bad = fake.Assemble(fs)
	if bad != "" {
		sym.Fail("server output malformed: " + bad)
	}
	return
}

// sent asserts the output is exactly these data messages and nothing else.
func sent(c *fake.Conn, want []msg) {
	ms, ctl, open := wire(c)
	sym.Assert(len(ctl) == 0, "unexpected control frame")
	sym.Assert(open == 0, "unfinished message on the wire")
	sym.Assert(len(ms) == len(want), "number of messages on the wire differs")
	for i := range want {
		sym.Assert(ms[i].Op == want[i].op, "message type on the wire differs")
		sym.Assert(len(ms[i].Data) == len(want[i].data), "payload length on the wire differs")
		sym.Assert(eq(ms[i].Data, want[i].data), "payload bytes on the wire differ")
	}
}

func ctxOf() context.Context {
	switch sym.Pick("ctx", 3) {
	case 0:
		return context.Background()
	case 1:
		ctx, cancel := context.WithCancel(context.Background())
		_ = cancel
		return ctx
	}
	return nil
}

// dialW dials with write-buffer options; the HTTP server's buffer has size hb.
func dialW(o *snapws.Options, hb int) (*snapws.Conn, *fake.Conn) {
	c := fake.NewConn()
	conn, err := snapws.NewUpgrader(o).Upgrade(fake.NewResponse(c, 256, hb), fake.Request())
	if err != nil {
		sym.Fail("upgrade failed")
	}
	stripResp(c)
	return conn, c
}

func sendAny(conn *snapws.Conn, ctx context.Context, op byte, p []byte) error {
	if op == 1 {
		if sym.Pick("api", 2) == 0 {
			return conn.SendString(ctx, p)
		}
	} else if sym.Pick("api", 2) == 0 {
		return conn.SendBytes(ctx, p)
	}
	return conn.SendMessage(ctx, op, p)
}

// C10Send: whole-message sends with any write buffer size and payload length.
func C10Send() {
	o := small()
	o.WriteBufferSize = pickT("wbuf", []int{1, 14, 15, 16, 20, 141}, []int{1, 2, 13, 14, 15, 16, 17, 20, 64, 139, 140, 141, 300})
	o.DisableWriteBuffersPooling = sym.Pick("nopool", 2) == 1
	hb := 64
	if sym.Pick("httpbuf", 2) == 1 {
		hb = o.WriteBufferSize
	}
	conn, c := dialW(o, hb)
	ctx := ctxOf()
	var want []msg
	for i := 0; i < 2; i++ {
		n := 7
		if i == 0 {
			n = pickT("len", []int{0, 1, 5, 125, 126, 127}, []int{0, 1, 2, 5, 50, 125, 126, 127, 128, 260})
		} else if sym.Tier() > 0 {
			n = pickLen("len2", 0, 7)
		}
		op := byte(1 + sym.Pick("op", 2))
		p, all, keep := guarded("p", n)
		if err := sendAny(conn, ctx, op, p); err != nil {
			sym.Fail("send failed: " + err.Error())
		}
		sym.Assert(eq(all, keep), "send changed memory of the caller")
		want = append(want, msg{op, p})
	}
	sent(c, want)
	sym.Cover("sent")
}

// C10Many: a message of several hundred frames.
func C10Many() {
	o := small()
	o.WriteBufferSize = 15 // one byte per frame
	conn, c := dialW(o, 64)
	n := pickLen("n", 255, 256, 257, 300, 520)
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i)
	}
	p[255%n] = sym.Byte("b")
	switch sym.Pick("api", 2) {
	case 0:
		sym.Assert(conn.SendString(nil, p) == nil, "send failed")
	case 1: // empty frames as well
		w, err := conn.NextWriter(nil, 1)
		sym.Assert(err == nil, "NextWriter failed")
		for i := range p {
			if i%100 == 0 {
				sym.Assert(w.Flush() == nil, "Flush failed")
			}
			w.Write(p[i : i+1])
		}
		sym.Assert(w.Close() == nil, "Close failed")
	}
	ms, _, open := wire(c)
	sym.Assert(open == 0 && len(ms) == 1, "not exactly one message on the wire")
	sym.Assert(ms[0].Op == 1 && eq(ms[0].Data, p), "message changed")
	sym.Cover("sent")
}

// C10Stream: any split into Write and Flush calls.
func C10Stream() {
	o := small()
	o.WriteBufferSize = pickLen("wbuf", 15, 16, 19, 64)
	o.DisableWriteBuffersPooling = sym.Pick("nopool", 2) == 1
	conn, c := dialW(o, 64)
	ctx := ctxOf()
	op := byte(1 + sym.Pick("op", 2))
	w, err := conn.NextWriter(ctx, op)
	if err != nil {
		sym.Fail("NextWriter failed")
	}
	var all []byte
	for i := 0; i < 4; i++ {
		switch sym.Pick("step", 3) {
		case 0:
			n := pickLen("n", 0, 1, 3, 6)
			p, mem, keep := guarded("p", n)
			k, err := w.Write(p)
			sym.Assert(err == nil && k == n, "Write failed or was short")
			sym.Assert(eq(mem, keep), "Write changed memory of the caller")
			all = append(all, p...)
		case 1:
			sym.Assert(w.Flush() == nil, "Flush failed")
		case 2:
			i = 4
		}
	}
	if err := w.Close(); err != nil {
		sym.Fail("Close failed: " + err.Error())
	}
	_, err = w.Write([]byte{1})
	sym.Assert(err != nil, "Write on a closed writer succeeds")
	q := sym.Bytes("q", 2)
	sym.Assert(conn.SendBytes(ctx, q) == nil, "send after a streamed message failed")
	sent(c, []msg{{op, all}, {2, q}})
	sym.Cover("sent")
}

// C10Json: SendJSON.
func C10JSON() {
	o := small()
	o.WriteBufferSize = pickLen("wbuf", 15, 18, 64)
	conn, c := dialW(o, 64)
	ctx := ctxOf()
	err := conn.SendJSON(ctx, jval{7, "x<y"})
	sym.Assert(err == nil, "SendJSON failed")
	want := []msg{{1, []byte("{\"A\":7,\"B\":\"x\\u003cy\"}\n")}}
	if sym.Pick("more", 2) == 1 {
		sym.Assert(conn.SendJSON(ctx, []int{1, 22, 333}) == nil, "SendJSON failed")
		want = append(want, msg{1, []byte("[1,22,333]\n")})
	}
	// the trailing newline of the encoder is optional
	ms, ctl, open := wire(c)
	sym.Assert(len(ctl) == 0 && open == 0 && len(ms) == len(want), "SendJSON output is not one message per call")
	for i := range want {
		d := ms[i].Data
		if len(d) > 0 && d[len(d)-1] != '\n' {
			d = append(d, '\n')
		}
		// escaping < is optional, too
		plain := []byte("{\"A\":7,\"B\":\"x<y\"}\n")
		sym.Assert(ms[i].Op == 1 && (eq(d, want[i].data) || i == 0 && eq(d, plain)), "SendJSON payload differs")
	}
	sym.Cover("sent")
}

// C10Op: every opcode byte.
func C10Op() {
	conn, c := dial(snapws.NewUpgrader(small()))
	op := sym.Byte("op")
	p := sym.Bytes("p", 3)
	data := op == 1 || op == 2
	if sym.Pick("api", 2) == 0 {
		err := conn.SendMessage(nil, op, p)
		sym.Assert((err == nil) == data, "SendMessage accepts exactly data opcodes")
		sym.Assert(err == nil || !snapws.IsFatalErr(err), "invalid opcode is fatal")
	} else {
		w, err := conn.NextWriter(nil, op)
		sym.Assert((err == nil) == data, "NextWriter accepts exactly data opcodes")
		if err == nil {
			w.Write(p)
			sym.Assert(w.Close() == nil, "Close failed")
		}
	}
	want := []msg{}
	if data {
		want = append(want, msg{op, p})
		sym.Cover("data opcode")
	} else {
		sym.Assert(len(c.Out()) == 0, "invalid opcode wrote bytes")
		sym.Cover("other opcode")
	}
	q := sym.Bytes("q", 1)
	sym.Assert(conn.SendString(nil, q) == nil, "send after an invalid opcode failed")
	sent(c, append(want, msg{1, q}))
}

// C10Big: the 16/64-bit length boundaries of one frame and of fragments.
func C10Big() {
	o := small()
	o.WriteBufferSize = pickLen("wbuf", 65535+14, 65536+14, 70000, 4096)
	conn, c := dialW(o, 64)
	n := pickLen("len", 65535, 65536, 65537)
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i ^ i>>8)
	}
	for _, i := range []int{0, 4081, 4082, 65534, n - 1} {
		p[i] = sym.Byte("b")
	}
	sym.Assert(conn.SendBytes(nil, p) == nil, "send failed")
	sent(c, []msg{{2, p}})
	sym.Cover("sent")
}

// C10Len: every payload length in one frame.
func C10Len() {
	o := small()
	o.WriteBufferSize = 400
	conn, c := dialW(o, 64)
	n := sym.Pick("len", 386)
	if sym.Tier() == 0 {
		sym.Assume(n <= 4 || n >= 120 && n <= 132 || n > 250 && n < 260 || n > 380)
	}
	p := sym.Bytes("p", n)
	sym.Assert(conn.SendString(nil, p) == nil, "send failed")
	sent(c, []msg{{1, p}})
	ms, _, _ := wire(c)
	sym.Assert(ms[0].Frames == 1, "message that fits was fragmented")
	sym.Cover("sent")
}

// ---- C17 ----

func C17Wait() {
	conn, c := dial(snapws.NewUpgrader(small()))
	w, err := conn.NextWriter(context.Background(), 1)
	sym.Assert(err == nil, "NextWriter")
	w.Write([]byte("ab"))
	if sym.Pick("flush", 2) == 1 {
		sym.Assert(w.Flush() == nil, "Flush failed")
	}
	mode := sym.Pick("mode", 4)
	ctx, cancel := context.WithCancel(context.Background())
	if mode == 0 || mode == 2 {
		switch sym.Pick("ctx", 3) {
		case 1:
			ctx = nil
		case 2:
			ctx = context.Background()
		}
	}
	if mode == 3 {
		ctx, cancel = context.WithTimeout(context.Background(), time.Second)
	}
	var e2 error
	done := make(chan struct{})
	api := sym.Pick("api", 3)
	before := len(c.Out())
	sym.Explore(2)
	go func() {
		switch api {
		case 0:
			e2 = conn.SendString(ctx, []byte("xy"))
		case 1:
			e2 = conn.SendJSON(ctx, 5)
		case 2:
			var w2 *snapws.ConnWriter
			w2, e2 = conn.NextWriter(ctx, 2)
			if e2 == nil {
				w2.Write([]byte("xy"))
				e2 = w2.Close()
			}
		}
		close(done)
	}()
	sym.Idle()
	select {
	case <-done:
		sym.Fail("second sender did not wait for the open writer")
	default:
	}
	sym.Assert(len(c.Out()) == before, "second sender wrote inside the open message")
	switch mode {
	case 0: // first writer closes
		sym.Assert(w.Close() == nil, "Close failed")
		<-done
		sym.Assert(e2 == nil, "waiting sender failed")
		ms, _, _ := wire(c)
		sym.Assert(len(ms) == 2 && eq(ms[0].Data, []byte("ab")), "messages wrong")
		sym.Cover("waited")
	case 1, 3: // cancelled
		if mode == 1 {
			cancel()
		}
		<-done
		sym.Assert(e2 != nil, "cancelled sender succeeded")
		sym.Assert(e2 == ctx.Err(), "cancelled sender does not return the context's error")
		sym.Assert(!c.IsClosed(), "cancelling a waiting sender closed the connection")
		sym.Assert(len(c.Out()) == before, "cancelled sender wrote something")
		sym.Assert(w.Close() == nil, "open writer broken by a cancelled waiter")
		sym.Assert(conn.SendString(context.Background(), []byte("z")) == nil, "connection unusable after a cancelled waiter")
		ms, _, _ := wire(c)
		sym.Assert(len(ms) == 2 && eq(ms[0].Data, []byte("ab")) && eq(ms[1].Data, []byte("z")), "messages wrong after a cancelled waiter")
		sym.Cover("cancelled")
	case 2: // closed
		go conn.Close()
		<-done
		sym.Assert(e2 != nil && snapws.IsFatalErr(e2), "waiting sender not released with a fatal error by close")
		fe, ok := e2.(*snapws.FatalError)
		sym.Assert(ok && fe.Err == snapws.ErrConnClosed, "waiting sender's error is not ErrConnClosed")
		sym.Cover("released")
	}
	cancel()
}

// C17Many: several waiting senders, some cancelled, then close or drain.
func C17Many() {
	conn, c := dial(snapws.NewUpgrader(small()))
	w, err := conn.NextWriter(nil, 1)
	sym.Assert(err == nil, "NextWriter")
	const n = 3
	var ctxs [n]context.Context
	var cancels [n]context.CancelFunc
	var errs [n]error
	done := make(chan int, n)
	sym.Explore(2)
	for i := 0; i < n; i++ {
		ctxs[i], cancels[i] = context.WithCancel(context.Background())
		go func() {
			errs[i] = conn.SendBytes(ctxs[i], []byte{byte(i), 9})
			done <- i
		}()
	}
	cancels[0]()
	fin := sym.Pick("fin", 2)
	if fin == 0 {
		sym.Assert(w.Close() == nil, "Close failed")
	} else {
		go conn.Close()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	sym.Idle()
	if fin == 0 {
		ms, _, open := wire(c)
		sym.Assert(open == 0, "unfinished message")
		nok := 0
		for i := 0; i < n; i++ {
			cnt := 0
			for _, m := range ms {
				if len(m.Data) == 2 && m.Data[0] == byte(i) {
					cnt++
				}
			}
			if errs[i] == nil {
				nok++
				sym.Assert(cnt == 1, "successful send not on the wire exactly once")
			} else {
				sym.Assert(i == 0 && errs[i] == context.Canceled, "waiting sender failed")
				sym.Assert(cnt == 0, "failed send on the wire")
			}
		}
		sym.Assert(len(ms) == nok+1, "wrong number of messages")
		sym.Assert(conn.SendString(nil, []byte("z")) == nil, "connection unusable")
		sym.Cover("drained")
		return
	}
	for i := 0; i < n; i++ {
		if errs[i] != nil && !(i == 0 && errs[i] == context.Canceled) {
			sym.Assert(snapws.IsFatalErr(errs[i]), "sender on a closing connection: error not fatal")
		}
	}
	sym.Cover("closed")
}

// C17Free: two senders come for a free writer at once, over a transport on which each
// message takes 3 s; the one that has to wait gives up when its context ends.
func C17Free() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	c.SlowWrite = 3 * time.Second
	how := sym.Pick("how", 3)
	api := sym.Pick("api", 4)
	sym.Explore(2)
	start := time.Now()
	done := make(chan bool, 2)
	var e1, e2 error
	var t1, t2 time.Duration
	ctx, cancel := context.WithCancel(context.Background())
	if how == 1 {
		ctx, cancel = context.WithTimeout(context.Background(), time.Second)
	}
	go func() {
		e1 = conn.SendBytes(nil, []byte{1})
		t1 = time.Since(start)
		done <- true
	}()
	go func() {
		e2 = sendAny2(conn, ctx, api)
		t2 = time.Since(start)
		done <- true
	}()
	sym.Yield()
	if how != 1 {
		time.Sleep(time.Second)
		if how == 0 {
			cancel()
		} else {
			go conn.Close()
		}
	}
	<-done
	<-done
	if how == 2 {
		for _, e := range []error{e1, e2} {
			sym.Assert(e == nil || fatal(e), "sender released by close: error not fatal")
		}
		sym.Assert(t1 <= 9*time.Second && t2 <= 9*time.Second, "sender not released by close")
		sym.Cover("closed")
		return
	}
	if e2 == nil {
		sym.Assert(t2 == 3*time.Second, "sender waited longer than its context allows")
		sym.Cover("first")
	} else {
		sym.Assert(e2 == ctx.Err(), "cancelled sender does not return the context's error")
		sym.Assert(t2 <= time.Second, "sender waited longer than its context allows")
		sym.Cover("second")
	}
	sym.Assert(e1 == nil, "sender without a context failed")
	sym.Assert(!c.IsClosed(), "connection closed")
	c.SlowWrite = 0
	sym.Assert(conn.SendBytes(nil, []byte{3}) == nil, "connection unusable")
	cancel()
}

func sendAny2(conn *snapws.Conn, ctx context.Context, api int) error {
	switch api {
	case 0:
		return conn.SendBytes(ctx, []byte{2})
	case 1:
		return conn.SendString(ctx, []byte("2"))
	case 2:
		return conn.SendJSON(ctx, 2)
	}
	w, err := conn.NextWriter(ctx, 2)
	if err != nil {
		return err
	}
	w.Write([]byte{2})
	return w.Close()
}
