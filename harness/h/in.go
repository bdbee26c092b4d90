package h

import (
	"bufio"
	"errors"
	"io"
	"time"
	"unicode/utf8"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

type msg struct {
	op   byte
	data []byte
}

// cf appends a masked client frame with an arbitrary key.
func cf(s []byte, fin bool, op byte, payload []byte) []byte {
	return append(s, fake.Client(fin, op, sym.Bytes("key", 4), payload)...)
}

// control appends an arbitrary ping or an unsolicited pong with n payload bytes.
func control(s []byte, kind, n int) []byte {
	switch kind {
	case 1:
		return cf(s, true, 9, sym.Bytes("ctl", n))
	case 2:
		return cf(s, true, 10, sym.Bytes("ctl", n))
	}
	return s
}

// arbitrary data message: op and lengths are picked, bytes are symbolic.
func message(s []byte, ms []msg, op byte, lens []int, ctl []int) ([]byte, []msg) {
	m := msg{op: op}
	for i, n := range lens {
		p := sym.Bytes("p", n)
		m.data = append(m.data, p...)
		o := op
		if i > 0 {
			o = 0
		}
		s = cf(s, i == len(lens)-1, o, p)
		if i < len(ctl) {
			s = control(s, ctl[i], 2)
		}
	}
	return s, append(ms, m)
}

func noUTF8(o *snapws.Options) *snapws.Options {
	o.SkipUTF8Validation = true
	return o
}

// errState checks the error contract: fatal means closed, anything else open.
func errState(c *fake.Conn, err error, where string) {
	if err == nil {
		return
	}
	if snapws.IsFatalErr(err) {
		sym.Assert(c.IsClosed(), where+": fatal error but the connection is still open")
	} else {
		sym.Assert(!c.IsClosed(), where+": non-fatal error but the connection is closed")
	}
}

// expect reads whole messages and compares.
func expect(conn *snapws.Conn, c *fake.Conn, ms []msg) {
	var got [][]byte
	for _, m := range ms {
		op, data, err := conn.ReadMessage()
		if err != nil {
			sym.Fail("valid message not delivered: " + err.Error())
		}
		sym.Assert(op == m.op, "message type changed")
		sym.Assert(len(data) == len(m.data), "payload length changed")
		sym.Assert(eq(data, m.data), "payload bytes changed")
		got = append(got, data)
	}
	for i, m := range ms {
		sym.Assert(eq(got[i], m.data), "a delivered payload was changed by a later read")
	}
}

// expectEnd: the stream has ended cleanly, so the next read fails fatally.
func expectEnd(conn *snapws.Conn, c *fake.Conn) {
	c.EOF()
	op, data, err := conn.ReadMessage()
	sym.Assert(err != nil, "message invented at end of stream")
	sym.Assert(data == nil && op != 1 && op != 2, "data returned along with an error")
	sym.Assert(snapws.IsFatalErr(err), "end of stream is not a fatal error")
	errState(c, err, "end of stream")
}

// stream reads one message with a slice of size k per Read.
func stream(conn *snapws.Conn, k func() int) (op byte, data []byte, err error) {
	r, op, err := conn.NextReader()
	if err != nil {
		return op, nil, err
	}
	idle := 0
	for {
		b := make([]byte, k())
		n, err := r.Read(b)
		if n > len(b) || n < 0 {
			sym.Fail("Read returned more bytes than the slice holds")
		}
		data = append(data, b[:n]...)
		if err == io.EOF {
			return op, data, nil
		}
		if err != nil {
			return op, data, err
		}
		if n == 0 {
			idle++
			if idle > 64 {
				sym.Fail("Read makes no progress")
			}
		} else {
			idle = 0
		}
	}
}

func pickLen(name string, l ...int) int { return l[sym.Pick(name, len(l))] }

// C01Frag: two messages of one to three frames with a control frame between
// fragments.
func C01Frag() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	var s []byte
	var ms []msg
	for i := 0; i < 2; i++ {
		full := i == 0 || sym.Tier() > 0
		nf := 2
		if full {
			nf = 3
		}
		nf = 1 + sym.Pick("frames", nf)
		var lens, ctl []int
		for j := 0; j < nf; j++ {
			if full {
				lens = append(lens, pickLen("len", 0, 1, 6))
			} else {
				lens = append(lens, pickLen("len", 0, 3))
			}
			if j < nf-1 && i == 0 {
				ctl = append(ctl, sym.Pick("ctl", 3))
			}
		}
		s, ms = message(s, ms, byte(1+sym.Pick("op", 2)), lens, ctl)
		if i == 0 {
			s = control(s, sym.Pick("between", 3), 1)
		}
	}
	c.Feed(s)
	expect(conn, c, ms)
	sym.Cover("delivered")
	expectEnd(conn, c)
}

// C01Stream: streaming reads with any slice sizes and any transport segmentation.
func C01Stream() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	var s []byte
	var ms []msg
	nf := 1 + sym.Pick("frames", 2)
	lens := []int{pickLen("len", 0, 3, 9, 17)}
	if nf == 2 {
		lens = append(lens, pickLen("len", 0, 1, 10))
	}
	s, ms = message(s, ms, 2, lens, []int{sym.Pick("ctl", 2)})
	s, ms = message(s, ms, 1, []int{2}, nil)
	seg := sym.Pick("seg", 4)
	if seg > 0 {
		c.Seg = func() int { return []int{0, 1, 2, 7}[seg] }
	}
	c.Feed(s)
	mode := sym.Pick("slices", 5)
	i := 0
	op, data, err := stream(conn, func() int {
		i++
		switch mode {
		case 0:
			return 1
		case 1:
			return 3
		case 2:
			return 64
		case 3:
			return (i%3)*2 + 1
		}
		return i
	})
	if err != nil {
		sym.Fail("streaming read of a valid message failed: " + err.Error())
	}
	sym.Assert(op == 2, "message type changed")
	sym.Assert(len(data) == len(ms[0].data), "payload length changed")
	sym.Assert(eq(data, ms[0].data), "payload bytes changed")
	expect(conn, c, ms[1:])
	sym.Cover("streamed")
	expectEnd(conn, c)
}

// C01Split: the transport delivers the stream in two pieces, split anywhere.
func C01Split() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	var s []byte
	var ms []msg
	s, ms = message(s, ms, 1, []int{4, 3}, []int{1 + sym.Pick("ctl", 2)})
	s, ms = message(s, ms, 2, []int{130}, nil)
	if sym.Pick("tail", 2) == 1 {
		s, ms = message(s, ms, 2, []int{0}, nil)
	}
	cut := sym.Pick("cut", len(s)+1)
	done := make(chan struct{})
	go func() {
		c.Feed(s[:cut])
		sym.Idle()
		c.Feed(s[cut:])
		close(done)
	}()
	expect(conn, c, ms)
	<-done
	sym.Cover("delivered")
	expectEnd(conn, c)
}

// C01Len: payload lengths around the length-encoding and unmasking block sizes.
func C01Len() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	var n int
	if sym.Tier() == 0 {
		n = pickLen("len", 0, 1, 7, 8, 15, 16, 31, 33, 63, 64, 65, 100, 124, 125, 126, 127, 128, 129, 137, 191, 200, 255, 256, 300, 517)
	} else {
		n = sym.Pick("len", 700)
	}
	// a first fragment shifts the mask position of the second
	a := pickLen("first", -1, 0, 3)
	lens := []int{n}
	if a >= 0 {
		lens = []int{a, n}
	}
	s, ms := message(nil, nil, 2, lens, nil)
	if sym.Pick("stream", 2) == 1 {
		c.Feed(s)
		k := pickLen("slice", 5, 130)
		_, data, err := stream(conn, func() int { return k })
		if err != nil {
			sym.Fail("streaming read failed: " + err.Error())
		}
		sym.Assert(len(data) == len(ms[0].data), "payload length changed")
		sym.Assert(eq(data, ms[0].data), "payload bytes changed")
	} else {
		c.Feed(s)
		expect(conn, c, ms)
	}
	sym.Cover("delivered")
	expectEnd(conn, c)
}

// C01Big: the 16/64-bit length boundary; a few bytes symbolic, the rest a pattern.
func C01Big() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	n := pickLen("len", 65534, 65535, 65536, 65537)
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i*7 + i>>8)
	}
	for _, i := range []int{0, 1, 100, n - 2, n - 1} {
		p[i] = sym.Byte("b")
	}
	key := sym.Bytes("key", 4)
	sym.Assume(key[0] == 0x11 && key[1] == 0x80 && key[2] == 0 && key[3] == 0xfe)
	s := fake.Client(true, 2, []byte{0x11, 0x80, 0, 0xfe}, p)
	c.Feed(s)
	expect(conn, c, []msg{{2, p}})
	sym.Cover("delivered")
	expectEnd(conn, c)
}

// C01BigRead: long frames read in large pieces of any size.
func C01BigRead() {
	o := noUTF8(small())
	o.ReadBufferSize = pickLen("rbuf", 256, 4096, 8192)
	conn, c := dial(snapws.NewUpgrader(o))
	n := pickLen("len", 4096, 4099, 9001)
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i*7 + i>>8)
	}
	for _, i := range []int{0, 1, 4095, n - 1} {
		p[i] = sym.Byte("b")
	}
	k := []byte{0x11, 0x80, 3, 0xfe}
	cut := pickLen("cut", 0, 1, 5)
	var s []byte
	s = append(s, fake.Client(false, 2, k, p[:cut])...)
	s = append(s, fake.Client(true, 0, k, p[cut:])...)
	s = append(s, fake.Client(true, 1, k, []byte("end"))...)
	c.Feed(s)
	if seg := pickLen("seg", 0, 1447, 4097); seg > 0 {
		c.Seg = func() int { return seg }
	}
	slice := pickLen("slice", 1001, 4095, 4096, 4097, 5001, 20000)
	op, data, err := stream(conn, func() int { return slice })
	sym.Assert(err == nil && op == 2, "long message not delivered")
	sym.Assert(len(data) == n && eq(data, p), "payload bytes changed")
	expect(conn, c, []msg{{1, []byte("end")}})
	sym.Cover("delivered")
}

// C01Early: bytes pipelined right behind the handshake request, with any
// configured read buffer size.
func C01Early() {
	rb := pickLen("rbuf", 0, 1, 13, 14, 16, 64, 125, 200, 256)
	o := noUTF8(small())
	o.ReadBufferSize = rb
	u := snapws.NewUpgrader(o)
	var s []byte
	var ms []msg
	n := pickLen("len", 0, 5, 30, 140)
	s, ms = message(s, ms, 2, []int{n}, nil)
	s, ms = message(s, ms, 1, []int{2, 1}, []int{1})
	var k int
	if n < 100 || sym.Tier() > 0 {
		k = sym.Pick("pre", len(s)+1)
	} else {
		k = pickLen("pre", 100, 125, 126, 147, 148, 149, len(s)-1, len(s))
	}
	c := fake.NewConn()
	r := fake.NewResponse(c, pickLen("httpbuf", 64, 256), 64)
	r.Pre = append([]byte(nil), s[:k]...)
	if len(r.Pre) > r.RBuf {
		r.Pre = r.Pre[:r.RBuf]
		k = r.RBuf
	}
	c.Feed(s[k:])
	conn, err := u.Upgrade(r, fake.Request())
	if err != nil {
		sym.Fail("upgrade failed")
	}
	stripResp(c)
	expect(conn, c, ms)
	sym.Cover("delivered")
	expectEnd(conn, c)
}

// C01Buf: the result does not depend on the read buffer size.
func C01Buf() {
	o := noUTF8(small())
	o.ReadBufferSize = pickLen("rbuf", 0, 1, 2, 8, 13, 14, 15, 16, 20, 40, 100, 124, 125, 126, 256)
	o.MaxMessageSize = 1 << 20
	c := fake.NewConn()
	conn := dialBuf(snapws.NewUpgrader(o), c, pickLen("httpbuf", 256, 16, 64, 124, 125), 64)
	var s []byte
	var ms []msg
	s = cf(s, true, byte(9+sym.Pick("ctlop", 2)), sym.Bytes("ctl", pickLen("ctllen", 0, 3, 17, 120, 125)))
	s, ms = message(s, ms, 2, []int{pickLen("len", 1, 40, 130)}, nil)
	c.Feed(s)
	expect(conn, c, ms)
	sym.Cover("delivered")
	expectEnd(conn, c)
}

// ---- C02 ----

// rejected checks a malformed frame was refused with the given code(s).
func rejected(c *fake.Conn, err error, codes ...int) {
	if err == nil {
		sym.Fail("malformed frame accepted")
	}
	sym.Assert(err != io.EOF, "malformed frame reported as a normal end of message")
	sym.Assert(snapws.IsFatalErr(err), "malformed frame: error is not fatal")
	sym.Assert(c.IsClosed(), "malformed frame: connection not closed")
	code := lastClose(c)
	ok := false
	for _, x := range codes {
		if code == x {
			ok = true
		}
	}
	if !ok {
		sym.Note("close code " + dec(code))
		sym.Fail("malformed frame: wrong close code")
	}
}

func dec(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	return s
}

// lastClose decodes the server's output and returns the code of its single
// close frame, which must be last. 0: no close frame.
func lastClose(c *fake.Conn) int {
	fs, rest, bad := fake.Decode(c.Out())
	if bad != "" {
		sym.Fail("server output malformed: " + bad)
	}
	sym.Assert(rest == 0, "server output ends inside a frame")
	_, _, _, bad = fake.Assemble(fs)
	if bad != "" {
		sym.Fail("server output malformed: " + bad)
	}
	if len(fs) == 0 || fs[len(fs)-1].Op != 8 {
		return 0
	}
	return sym.Conc(fake.CloseCode(fs[len(fs)-1]))
}

// C02Header: every pair of first two header bytes, in every reader state.
func C02Header() {
	o := noUTF8(small())
	o.MaxMessageSize = 1000
	u := snapws.NewUpgrader(o)
	state := sym.Pick("state", 5)
	if state == 4 {
		u.Limiter = snapws.NewRateLimiter(1, 1)
	}
	conn, c := dial(u)
	h0 := sym.Byte("b0")
	h1 := sym.Byte("b1")
	ext := sym.Bytes("ext", 8)
	key := sym.Bytes("key", 4)
	// frame bytes as a client could send them: the extended length only if
	// announced, then key and enough payload
	frame := []byte{h0, h1}
	op := h0 & 15
	fin := h0&0x80 != 0
	l7 := h1 & 0x7f
	huge, long := false, false
	if l7 == 126 {
		frame = append(frame, ext[0], ext[1])
		long = true
		if op >= 8 {
			sym.Assume(ext[0] != 0 || ext[1] > 125)
		} else {
			sym.Assume(ext[0] == 0 && ext[1] < 200 && ext[1] >= 126)
		}
	} else if l7 == 127 {
		frame = append(frame, ext...)
		long = true
		huge = ext[0]&0x80 != 0
		sym.Assume(huge || (ext[0]|ext[1]|ext[2]|ext[3]|ext[4] == 0 && ext[5] > 0))
	}
	frame = append(frame, key...)
	frame = append(frame, make([]byte, 200)...)

	mid := false
	switch state {
	case 1: // after a complete message
		c.Feed(fake.Client(true, 2, []byte{1, 2, 3, 4}, []byte{9}))
		expect(conn, c, []msg{{2, []byte{9}}})
	case 2, 3: // inside a fragmented message, whole-message or streaming read
		c.Feed(fake.Client(false, 1, []byte{1, 2, 3, 4}, []byte{9, 8}))
		mid = true
	case 4: // inside a message that is being skipped by the rate limiter
		c.Feed(fake.Client(true, 2, []byte{1, 2, 3, 4}, []byte{9}))
		expect(conn, c, []msg{{2, []byte{9}}})
		c.Feed(fake.Client(false, 1, []byte{1, 2, 3, 4}, []byte{9, 8}))
		mid = true
	}
	c.Feed(frame)
	c.EOF()

	ctl := op == 8 || op == 9 || op == 10
	bad := false
	switch {
	case h0&0x70 != 0:
		bad = true
	case op > 2 && !ctl:
		bad = true
	case h1&0x80 == 0:
		bad = true
	case ctl && (!fin || long):
		bad = true
	case op == 0 && !mid:
		bad = true
	case (op == 1 || op == 2) && mid:
		bad = true
	}
	if !bad && !huge {
		sym.Cover("well-formed")
		return
	}
	var err error
	if state == 3 {
		_, _, err = stream(conn, func() int { return 16 })
	} else {
		_, _, err = conn.ReadMessage()
	}
	sym.Cover("malformed")
	switch {
	case bad && l7 == 127:
		rejected(c, err, 1002, 1009)
	case bad:
		rejected(c, err, 1002)
	default:
		rejected(c, err, 1009)
	}
	_, _, err = conn.ReadMessage()
	sym.Assert(err != nil && snapws.IsFatalErr(err), "read succeeds after a protocol error")
}

// C02Cont: a malformed frame where a continuation is due, reached after any
// mix of reads of a fragmented message.
func C02Cont() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	var s []byte
	s = cf(s, false, 2, sym.Bytes("p", pickLen("len", 0, 3)))
	if sym.Pick("cont", 2) == 1 {
		s = cf(s, false, 0, sym.Bytes("p", pickLen("len", 0, 2)))
	}
	s = control(s, sym.Pick("ctl", 3), 1)
	b0 := sym.Byte("b0")
	sym.Assume(b0 != 0 && b0 != 0x80 && b0 != 0x88 && b0 != 0x89 && b0 != 0x8a)
	s = append(s, fake.ClientRaw(b0, 2, sym.Bytes("key", 4), sym.Bytes("q", 2))...)
	s = append(s, fake.Client(true, 0, []byte{1, 1, 1, 1}, []byte{1})...)
	c.Feed(s)
	c.EOF()
	var err error
	switch sym.Pick("api", 4) {
	case 0:
		_, _, err = conn.ReadMessage()
	case 1:
		_, err = conn.ReadBinary()
	case 2:
		k := pickLen("slice", 1, 16)
		_, _, err = stream(conn, func() int { return k })
	case 3:
		// abandon the message: the malformed frame must be noticed all the same
		_, _, err = conn.NextReader()
		if err == nil {
			_, _, err = conn.ReadMessage()
		}
	}
	rejected(c, err, 1002)
	sym.Cover("malformed")
}

// ---- C03 ----

// hdr is a frame header announcing n bytes in the given encoding.
func hdr(fin bool, op byte, enc int, n uint64, key []byte) []byte {
	b := byte(0)
	if fin {
		b = 0x80
	}
	s := []byte{b | op}
	switch enc {
	case 0:
		s = append(s, 0x80|byte(n))
	case 1:
		s = append(s, 0xfe, byte(n>>8), byte(n))
	case 2:
		s = append(s, 0xff, byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	return append(s, key...)
}

func tooBig(conn *snapws.Conn, c *fake.Conn, code int) {
	var err error
	switch sym.Pick("api", 3) {
	case 0:
		_, _, err = conn.ReadMessage()
	case 1:
		_, _, err = stream(conn, func() int { return 16 })
	case 2:
		_, _, err = stream(conn, func() int { return 1 })
	}
	if err == nil {
		sym.Fail("message beyond the limit delivered")
	}
	sym.Assert(snapws.IsFatalErr(err), "limit exceeded: error is not fatal")
	sym.Assert(c.IsClosed(), "limit exceeded: connection not closed")
	got := lastClose(c)
	if got != code {
		sym.Note("close code " + dec(got))
		sym.Fail("limit exceeded: wrong close code")
	}
}

// C03Len: a single frame whose announced length is any 7, 16 or 64-bit value.
func C03Len() {
	o := noUTF8(small())
	o.MaxMessageSize = pickLen("max", 1, 5, 125, 126, 300)
	conn, c := dial(snapws.NewUpgrader(o))
	enc := sym.Pick("enc", 3)
	var n uint64
	switch enc {
	case 0:
		n = uint64(sym.Byte("n"))
		sym.Assume(n <= 125)
	case 1:
		n = uint64(sym.Uint16("n"))
		sym.Assume(n > 125)
	case 2:
		n = sym.Uint64("n")
		sym.Assume(n > 65535)
	}
	fin := sym.Bool("fin")
	c.Feed(hdr(fin, 2, enc, n, sym.Bytes("key", 4)))
	if n > uint64(o.MaxMessageSize) {
		c.Feed(make([]byte, 8))
		c.EOF()
		tooBig(conn, c, 1009)
		sym.Cover("beyond")
		return
	}
	sym.Assume(fin)
	c.Feed(make([]byte, sym.Conc(int(n))))
	op, data, err := conn.ReadMessage()
	sym.Assert(err == nil && op == 2, "message within the limit refused")
	sym.Assert(uint64(len(data)) == n, "payload length changed")
	sym.Cover("within")
}

// C03Second: any announced length of a second frame, added to what the first one took.
func C03Second() {
	o := noUTF8(small())
	o.MaxMessageSize = []int{5, 1 << 20, 1<<32 + 2}[sym.Pick("max", 3)]
	conn, c := dial(snapws.NewUpgrader(o))
	a := sym.Pick("first", 4)
	p := sym.Bytes("p", a)
	c.Feed(cf(nil, false, 2, p))
	var n uint64
	enc := sym.Pick("enc", 3)
	switch enc {
	case 0:
		n = uint64(sym.Byte("n"))
		sym.Assume(n <= 125)
	case 1:
		n = uint64(sym.Uint16("n"))
		sym.Assume(n > 125)
	case 2:
		n = sym.Uint64("n")
		sym.Assume(n > 65535)
	}
	c.Feed(hdr(sym.Pick("fin", 2) == 1, 0, enc, n, []byte{0, 0, 0, 0}))
	q := sym.Bytes("q", 8)
	c.Feed(q)
	if n > uint64(o.MaxMessageSize-a) {
		tooBig(conn, c, 1009)
		sym.Cover("beyond")
		return
	}
	r, op, err := conn.NextReader()
	sym.Assert(err == nil && op == 2, "message within the limit refused")
	want := append(append([]byte(nil), p...), q...)
	if n < 8 {
		want = want[:a+sym.Conc(int(n))]
	}
	var data []byte
	for len(data) < len(want) {
		b := make([]byte, 3)
		k, err := r.Read(b[:min(3, len(want)-len(data))])
		data = append(data, b[:k]...)
		if err != nil && !(err == io.EOF && len(data) == len(want)) {
			sym.Fail("message within the limit refused: " + err.Error())
		}
	}
	sym.Assert(eq(data, want), "payload bytes changed")
	sym.Cover("within")
}

// C03Total: fragments whose total crosses the limit, or not.
func C03Total() {
	o := noUTF8(small())
	max := 4
	o.MaxMessageSize = max
	conn, c := dial(snapws.NewUpgrader(o))
	nf := 1 + sym.Pick("frames", 4)
	var s, want []byte
	tot := 0
	for i := 0; i < nf; i++ {
		n := pickLen("len", 0, 1, 2, 4)
		if i == 1 {
			n = sym.Pick("len1", 6)
		}
		p := sym.Bytes("p", n)
		op := byte(2)
		if i > 0 {
			op = 0
		}
		s = cf(s, i == nf-1, op, p)
		if i == 0 && nf > 1 {
			s = control(s, sym.Pick("ctl", 3), 4)
		}
		want = append(want, p...)
		tot += n
	}
	c.Feed(s)
	c.EOF()
	if tot > max {
		tooBig(conn, c, 1009)
		sym.Cover("beyond")
		return
	}
	expect(conn, c, []msg{{2, want}})
	sym.Cover("within")
}

// C03Default: unset limits are the documented defaults, 1 MiB and no fragment limit.
func C03Default() {
	var u *snapws.Upgrader
	if sym.Pick("nil", 2) == 1 {
		u = snapws.NewUpgrader(nil)
		u.PingEvery = time.Hour
	} else {
		o := noUTF8(small())
		switch sym.Pick("set", 3) {
		case 1: // another limit, which must not matter
			o.MaxBatchSize = 100
			o.ReaderMaxFragments = 3
		case 2:
			o.MaxBatchSize = 1 << 40
			o.BroadcastChannelsSize = 1
		}
		u = snapws.NewUpgrader(o)
	}
	conn, c := dial(u)
	max := snapws.DefaultMaxMessageSize
	sym.Assert(max == 1<<20, "the documented default limit is 1MB")
	l := sym.Uint64("len") // what the last frame announces
	sym.Assume(l >= 65536 && l < 1<<63)
	cut := pickLen("cut", 0, 7)
	var s []byte
	if cut > 0 {
		s = cf(s, false, 2, make([]byte, cut))
	}
	h := []byte{0x82, 0xff, byte(l >> 56), byte(l >> 48), byte(l >> 40), byte(l >> 32), byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l), 1, 2, 3, 4}
	if cut > 0 {
		h[0] = 0x80
	}
	s = append(s, h...)
	s = append(s, make([]byte, 20)...)
	c.Feed(s)
	r, _, err := conn.NextReader()
	if err == nil {
		_, err = io.ReadFull(r, make([]byte, cut+20))
	}
	if l > uint64(max-cut) {
		sym.Assert(fatal(err) && lastClose(c) == 1009, "message beyond the default limit read")
		sym.Cover("beyond")
		return
	}
	sym.Assert(err == nil && !c.IsClosed(), "message within the default limit refused")
	sym.Cover("within")
}

// C03Frames: ReaderMaxFragments.
func C03Frames() {
	o := noUTF8(small())
	o.ReaderMaxFragments = sym.Pick("max", 4)
	conn, c := dial(snapws.NewUpgrader(o))
	nf := 1 + sym.Pick("frames", 5)
	var s []byte
	var ms []msg
	// an earlier message's fragments must not count
	pre := 1 + sym.Pick("earlier", 2)
	if o.ReaderMaxFragments == 1 {
		pre = 1
	}
	// ... nor those of one that was abandoned
	how := 0
	if nf <= 3 {
		how = sym.Pick("how", 4)
	}
	lens := make([]int, pre)
	if how == 2 {
		lens[0] = 3
	}
	s, ms = message(s, ms, 1, lens, nil)
	lens = nil
	for i := 0; i < nf; i++ {
		lens = append(lens, sym.Pick("len", 2))
	}
	s, ms = message(s, ms, 2, lens, []int{sym.Pick("ctl", 2)})
	c.Feed(s)
	c.EOF()
	switch how {
	case 0:
		expect(conn, c, ms[:1])
	case 1, 2:
		r, _, err := conn.NextReader()
		sym.Assert(err == nil, "NextReader failed")
		if how == 2 {
			r.Read(make([]byte, 2))
		}
	case 3:
		_, err := conn.ReadBinary()
		sym.Assert(errors.Is(err, snapws.ErrMessageTypeMismatch), "ReadBinary of a text message: want a type mismatch")
	}
	if o.ReaderMaxFragments > 0 && nf > o.ReaderMaxFragments {
		tooBig(conn, c, 1008)
		sym.Cover("beyond")
		return
	}
	expect(conn, c, ms[1:])
	sym.Cover("within")
}

// C03None: MaxMessageSize -1 is no limit.
func C03None() {
	o := noUTF8(small())
	o.MaxMessageSize = -1
	conn, c := dial(snapws.NewUpgrader(o))
	s, ms := message(nil, nil, 2, []int{pickLen("len", 0, 1, 126, 400), pickLen("len2", 0, 3)}, nil)
	c.Feed(s)
	expect(conn, c, ms)
	sym.Cover("delivered")
}

// C03Skip: limits hold for a message that is abandoned and skipped too: the
// next message is delivered or the connection fails with the limit's code.
func C03Pos() {
	// MaxMessageSize exactly reached by the last fragment, then an empty one
	o := noUTF8(small())
	o.MaxMessageSize = 3
	conn, c := dial(snapws.NewUpgrader(o))
	s, ms := message(nil, nil, 2, []int{3, 0, 0}, nil)
	s, ms = message(s, ms, 1, []int{1, 2}, nil)
	c.Feed(s)
	expect(conn, c, ms)
	sym.Cover("delivered")
}

// ---- C04 ----

func C04Text() {
	o := small()
	skip := sym.Pick("skip", 2) == 1
	o.SkipUTF8Validation = skip
	conn, c := dial(snapws.NewUpgrader(o))
	max := 5
	if sym.Tier() == 1 {
		max = 9
	}
	n := sym.Pick("len", max)
	p := sym.Bytes("p", n)
	cut := sym.Pick("cut", n+1)
	op := byte(1 + sym.Pick("op", 2))
	var s []byte
	if cut == n {
		s = cf(s, true, op, p)
	} else {
		s = cf(s, false, op, p[:cut])
		s = control(s, sym.Pick("ctl", 2), 1)
		s = cf(s, true, 0, p[cut:])
	}
	s = append(s, fake.Client(true, 2, []byte{1, 2, 3, 4}, []byte{7})...)
	c.Feed(s)
	valid := utf8.Valid(p)
	var data []byte
	var err error
	api := sym.Pick("api", 2)
	switch {
	case api == 0:
		var got byte
		got, data, err = conn.ReadMessage()
		if err == nil {
			sym.Assert(got == op, "message type changed")
		}
	case op == 1:
		data, err = conn.ReadString()
	default:
		data, err = conn.ReadBinary()
	}
	if op == 1 && !skip && !valid {
		sym.Cover("invalid")
		if err == nil {
			sym.Fail("invalid UTF-8 text returned")
		}
		sym.Assert(len(data) == 0, "invalid UTF-8 text returned with an error")
		sym.Assert(snapws.IsFatalErr(err), "invalid UTF-8: error is not fatal")
		sym.Assert(c.IsClosed(), "invalid UTF-8: connection not closed")
		got := lastClose(c)
		if got != 1007 {
			sym.Fail("invalid UTF-8: wrong close code " + dec(got))
		}
		return
	}
	sym.Cover("delivered")
	if err != nil {
		sym.Fail("valid message refused: " + err.Error())
	}
	sym.Assert(len(data) == n, "payload length changed")
	sym.Assert(eq(data, p), "payload bytes changed")
	expect(conn, c, []msg{{2, []byte{7}}})
}

// C04Long: longer text with the bytes that decide validity at the end, the start or
// around a word boundary, in one to four fragments.
func C04Long() {
	conn, c := dial(snapws.NewUpgrader(small()))
	n := pickT("len", []int{8, 9, 17}, []int{8, 9, 15, 16, 17, 33})
	p := make([]byte, n)
	for i := range p {
		p[i] = byte('a' + i%26)
	}
	k := min(3, n)
	at := pickLen("at", 0, 5, 6, 7, n-k)
	at = min(at, n-k)
	copy(p[at:], sym.Bytes("p", k))
	nf := 1 + sym.Pick("frames", 4)
	var s []byte
	i := 0
	for j := 0; j < nf; j++ {
		e := n
		if j < nf-1 {
			e = min(n, i+pickLen("flen", 0, at+1, 1))
		}
		op := byte(0)
		if j == 0 {
			op = 1
		}
		s = append(s, fake.Client(j == nf-1, op, []byte{1, 2, 3, 4}, p[i:e])...)
		i = e
	}
	c.Feed(s)
	var data []byte
	var err error
	if sym.Pick("api", 2) == 0 {
		_, data, err = conn.ReadMessage()
	} else {
		data, err = conn.ReadString()
	}
	if !utf8.Valid(p) {
		sym.Cover("invalid")
		if err == nil {
			sym.Fail("invalid UTF-8 text returned")
		}
		sym.Assert(len(data) == 0, "invalid UTF-8 text returned with an error")
		sym.Assert(snapws.IsFatalErr(err) && c.IsClosed(), "invalid UTF-8: not fatal or not closed")
		sym.Assert(lastClose(c) == 1007, "invalid UTF-8: wrong close code")
		return
	}
	if err != nil {
		sym.Fail("valid message refused: " + err.Error())
	}
	sym.Assert(eq(data, p), "payload bytes changed")
	sym.Cover("delivered")
}

// C04Big: long texts with multi-byte or invalid sequences anywhere.
func C04Big() {
	conn, c := dial(snapws.NewUpgrader(small()))
	n := pickT("len", []int{515, 1030, 4100, 66000}, []int{515, 1030, 2050, 4100, 8200, 66000})
	p := make([]byte, n)
	for i := range p {
		p[i] = byte('a' + i%26)
	}
	at := []int{100, 254, 510, 511, 1022, 1023, 4094, 4095, 8190, 65534, n - 2, n - 1}[sym.Pick("at", 12)]
	x := [][]byte{{0xc3, 0xa9}, {0xc3}, {0xe2, 0x82, 0xac}, {0xe2, 0x82}, {0xff}, {0xed, 0xa0, 0x80}, {0xf0, 0x9f, 0x98, 0x80}}[sym.Pick("x", 7)]
	sym.Assume(at < n)
	b := sym.Byte("b") // one arbitrary byte elsewhere
	p[n/2+3] = b
	copy(p[at:], x)
	s := fake.Client(false, 1, []byte{1, 2, 3, 4}, p[:at])
	s = append(s, fake.Client(true, 0, []byte{9, 8, 7, 6}, p[at:])...)
	if sym.Pick("frames", 2) == 0 {
		s = fake.Client(true, 1, []byte{1, 2, 3, 4}, p)
	}
	c.Feed(s)
	_, data, err := conn.ReadMessage()
	if !utf8.Valid(p) {
		sym.Assert(fatal(err) && len(data) == 0, "invalid UTF-8 text returned")
		sym.Assert(lastClose(c) == 1007, "invalid UTF-8: wrong close code")
		sym.Cover("invalid")
		return
	}
	if err != nil {
		sym.Fail("valid message refused: " + err.Error())
	}
	sym.Assert(eq(data, p), "payload bytes changed")
	sym.Cover("delivered")
}

// ---- C05 ----

func C05Cut() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	var s []byte
	var ms []msg
	var ends []int
	s, ms = message(s, ms, 1, []int{2}, nil)
	ends = append(ends, len(s))
	n := pickLen("len", 3, 126)
	l3 := pickLen("last", 2, 0)
	s, ms = message(s, ms, 2, []int{n, 0, l3}, []int{sym.Pick("ctl", 3), sym.Pick("ctl2", 2)})
	ends = append(ends, len(s))
	s, ms = message(s, ms, 1, []int{1}, nil)
	ends = append(ends, len(s))
	var cut int
	if n == 126 {
		cut = pickLen("cutl", 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 100, 142, 143, 144)
	} else {
		cut = sym.Pick("cut", len(s)+1)
	}
	c.Feed(s[:cut])
	end := sym.Pick("end", 3)
	switch end {
	case 0:
		c.EOF()
	case 1:
		c.End(fake.ErrReset)
	case 2:
		c.End(io.ErrUnexpectedEOF)
	}
	api := sym.Pick("api", 3)
	k := 16
	if api == 2 {
		k = 1
	}
	for i, e := range ends {
		var op byte
		var data []byte
		var err error
		if api == 0 {
			op, data, err = conn.ReadMessage()
		} else {
			op, data, err = stream(conn, func() int { return k })
		}
		if cut >= e {
			if err != nil {
				sym.Fail("message completed before the cut was lost: " + err.Error())
			}
			sym.Assert(op == ms[i].op, "message type changed")
			sym.Assert(len(data) == len(ms[i].data) && eq(data, ms[i].data), "message changed")
			continue
		}
		sym.Cover("cut")
		if err == nil {
			sym.Fail("truncated message returned as complete")
		}
		sym.Assert(snapws.IsFatalErr(err), "cut stream: error is not fatal")
		sym.Assert(c.IsClosed(), "cut stream: connection not closed")
		if api > 0 {
			sym.Assert(len(data) <= len(ms[i].data) && eq(data, ms[i].data[:len(data)]), "bytes before the cut changed")
		}
		_, _, err = conn.ReadMessage()
		sym.Assert(err != nil && snapws.IsFatalErr(err), "read succeeds after the cut")
		return
	}
	_, _, err := conn.ReadMessage()
	sym.Assert(err != nil && snapws.IsFatalErr(err), "message invented at end of stream")
	sym.Cover("whole")
}

// C05Bufio: streaming through readers that treat io.EOF specially.
func C05Partial() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	s, ms := message(nil, nil, 2, []int{pickLen("len", 2, 5), 4}, []int{sym.Pick("ctl", 2)})
	cut := sym.Pick("cut", len(s))
	c.Feed(s[:cut])
	if sym.Pick("end", 2) == 0 {
		c.EOF()
	} else {
		c.End(fake.ErrReset)
	}
	r, _, err := conn.NextReader()
	if err != nil {
		sym.Assert(snapws.IsFatalErr(err) && c.IsClosed(), "cut stream: not fatal or not closed")
		sym.Cover("header cut")
		return
	}
	var data []byte
	if sym.Pick("bufio", 2) == 1 {
		data, err = io.ReadAll(bufio.NewReaderSize(r, 16))
	} else {
		data, err = io.ReadAll(r)
	}
	if err == nil {
		sym.Fail("truncated message returned as complete")
	}
	sym.Assert(snapws.IsFatalErr(err), "cut stream: error is not fatal")
	sym.Assert(c.IsClosed(), "cut stream: connection not closed")
	sym.Assert(len(data) < len(ms[0].data) || len(data) == len(ms[0].data), "too many bytes")
	sym.Cover("body cut")
	// a second Read keeps failing
	n, err := r.Read(make([]byte, 4))
	sym.Assert(n == 0 && err != nil && err != io.EOF, "Read after a failure does not fail")
}

// C05Deadline: a read deadline that cannot be set, or that expires.
func C05Deadline() {
	o := noUTF8(small())
	o.ReadWait = time.Minute
	conn, c := dial(snapws.NewUpgrader(o))
	s, ms := message(nil, nil, 1, []int{2, 1}, nil)
	s2, ms := message(nil, ms, 2, []int{2, 2}, nil)
	c.Feed(s)
	mode := sym.Pick("mode", 3)
	if mode == 0 {
		c.RdlFailAt = 1 + sym.Pick("at", 2)
	}
	cut := sym.Pick("cut", len(s2))
	c.Feed(s2[:cut])
	for i := 0; i < 2; i++ {
		op, data, err := conn.ReadMessage()
		if err == nil {
			sym.Assert(i == 0, "truncated message returned as complete")
			sym.Assert(op == ms[i].op && len(data) == len(ms[i].data) && eq(data, ms[i].data), "message changed")
			continue
		}
		sym.Assert(mode == 0 || i == 1, "complete message lost")
		sym.Assert(snapws.IsFatalErr(err), "failed deadline: error is not fatal")
		sym.Assert(c.IsClosed(), "failed deadline: connection not closed")
		sym.Cover("failed")
		return
	}
	sym.Fail("truncated message returned as complete")
}

// C05Local: the server closes the connection while a message is arriving.
func C05Local() {
	o := noUTF8(small())
	conn, c := dial(snapws.NewUpgrader(o))
	text := []byte("[12,\"ab\"]")
	s := kf(nil, false, 1, text[:4])
	s = kf(s, true, 0, text[4:])
	cut := sym.Pick("cut", len(s))
	c.Feed(s[:cut])
	how := sym.Pick("how", 4)
	api := sym.Pick("api", 5)
	var err error
	var data []byte
	done := make(chan bool)
	sym.Explore(1 + sym.Tier())
	go func() {
		switch api {
		case 0:
			_, data, err = conn.ReadMessage()
		case 1:
			data, err = conn.ReadString()
		case 2:
			var v any
			err = conn.ReadJSON(&v)
		case 3:
			_, _, err = stream(conn, func() int { return 3 })
		case 4:
			_, _, err = stream(conn, func() int { return 64 })
		}
		close(done)
	}()
	switch how {
	case 0:
		conn.Close()
	case 1:
		conn.CloseWithCode(4000, "x")
	case 2: // a send that fails
		c.WriteFailAt = 1
		conn.SendString(nil, []byte("x"))
	case 3: // a send that times out
		c.StallAt = 1
		conn.Ping()
	}
	<-done
	sym.Assert(err != nil, "truncated message returned as complete")
	sym.Assert(data == nil, "data returned along with an error")
	sym.Assert(fatal(err), "local close inside a message: not a fatal error")
	sym.Cover("closed")
}

// ---- C07 ----

// pongs checks that the server's output is exactly the pongs of these pings.
func pongs(c *fake.Conn, want [][]byte) {
	fs, rest, bad := fake.Decode(c.Out())
	if bad != "" {
		sym.Fail("server output malformed: " + bad)
	}
	sym.Assert(rest == 0, "server output ends inside a frame")
	sym.Assert(len(fs) == len(want), "number of pongs differs from number of pings")
	for i, f := range fs {
		sym.Assert(f.Op == 10 && f.Fin, "reply is not a pong")
		sym.Assert(len(f.Payload) == len(want[i]), "pong payload length differs")
		sym.Assert(eq(f.Payload, want[i]), "pong payload differs")
	}
}

// C07Seq: any sequence of pings and pongs between and inside messages.
func C07Seq() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	out := sym.Pick("outstanding", 2) == 1
	if out {
		// a ping of the server itself is unanswered
		sym.Assert(conn.Ping() == nil, "Ping failed")
		c.ResetOut()
	}
	var s []byte
	var pings [][]byte
	ctl := func() {
		k := sym.Pick("ctl", 3)
		if k == 0 {
			return
		}
		p := sym.Bytes("c", pickLen("clen", 0, 1, 5))
		// (a pong that does not match the ping ends the connection: C09)
		sym.Assume(k == 1 || !out || len(p) == 0)
		if k == 1 {
			pings = append(pings, p)
			s = cf(s, true, 9, p)
		} else {
			s = cf(s, true, 10, p)
		}
	}
	ctl()
	ctl()
	p := sym.Bytes("p", 3)
	s = cf(s, false, 2, p[:2])
	ctl()
	s = cf(s, true, 0, p[2:])
	n1 := len(pings)
	ctl()
	n2 := len(pings)
	q := sym.Bytes("q", 1)
	s = cf(s, true, 1, q)
	c.Feed(s)
	if sym.Pick("stream", 2) == 1 {
		_, data, err := stream(conn, func() int { return 2 })
		sym.Assert(err == nil && eq(data, p), "message changed")
	} else {
		expect(conn, c, []msg{{2, p}})
	}
	pongs(c, pings[:n1])
	expect(conn, c, []msg{{1, q}})
	pongs(c, pings[:n2])
	sym.Cover("done")
}

// C07Len: all payload lengths, after a ping of any other length.
func C07Len() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	a := pickLen("first", 0, 1, 60, 125)
	b := sym.Pick("second", 126)
	var s []byte
	pa, pb := sym.Bytes("a", a), sym.Bytes("b", b)
	s = cf(s, true, 9, pa)
	s = cf(s, true, 9, pb)
	s = cf(s, true, 2, nil)
	c.Feed(s)
	expect(conn, c, []msg{{2, nil}})
	pongs(c, [][]byte{pa, pb})
	sym.Cover("done")
}

// C07Limits: control frames do not count against message limits.
func C07Limits() {
	o := noUTF8(small())
	o.MaxMessageSize = 2
	o.ReaderMaxFragments = 2
	o.ReadBufferSize = pickLen("rbuf", 0, 16, 256)
	c := fake.NewConn()
	conn := dialBuf(snapws.NewUpgrader(o), c, pickLen("httpbuf", 256, 16, 64, 124, 125), 64)
	pa := sym.Bytes("a", pickLen("alen", 0, 3, 125))
	pb := sym.Bytes("b", pickLen("blen", 2, 124))
	var s []byte
	s = cf(s, true, 9, pa)
	s = cf(s, false, 2, []byte{1})
	s = cf(s, true, 9, pb)
	s = cf(s, true, 0, []byte{2})
	c.Feed(s)
	expect(conn, c, []msg{{2, []byte{1, 2}}})
	pongs(c, [][]byte{pa, pb})
	sym.Cover("done")
}

// C07Fail: a pong that cannot be written ends the connection.
func C07Busy() {
	// a sender holds the message writer (streaming) while pings arrive
	o := noUTF8(small())
	conn, c := dial(snapws.NewUpgrader(o))
	w, err := conn.NextWriter(nil, 2)
	sym.Assert(err == nil, "writer")
	w.Write([]byte{1, 2, 3})
	w.Flush()
	w.Write([]byte{4})
	c.ResetOut()
	pa := sym.Bytes("a", pickLen("alen", 0, 4))
	var s []byte
	s = cf(s, true, 9, pa)
	s = cf(s, true, 2, []byte{2})
	c.Feed(s)
	expect(conn, c, []msg{{2, []byte{2}}})
	pongs(c, [][]byte{pa})
	sym.Cover("done")
}

// C07Race: pings arrive while the server itself sends over a slow transport.
func C07Race() {
	o := noUTF8(small())
	conn, c := dial(snapws.NewUpgrader(o))
	if sym.Pick("slow", 2) == 1 {
		c.SlowWrite = 300 * time.Millisecond
	}
	other := sym.Pick("other", 4)
	pa := sym.Bytes("a", pickLen("alen", 0, 4))
	pb := sym.Bytes("b", 2)
	sym.Explore(1 + sym.Tier())
	done := make(chan bool)
	go func() {
		switch other {
		case 0:
			sym.Assert(conn.Ping() == nil, "Ping failed")
		case 1:
			sym.Assert(conn.SendBytes(nil, []byte("xyz")) == nil, "send failed")
		case 2:
			w, err := conn.NextWriter(nil, 1)
			sym.Assert(err == nil, "NextWriter failed")
			w.Write([]byte("abc"))
			w.Flush()
			time.Sleep(time.Second)
			sym.Assert(w.Close() == nil, "send failed")
		case 3:
			conn.Ping()
			conn.Ping()
		}
		done <- true
	}()
	go func() {
		c.Feed(cf(nil, true, 9, pa))
		if sym.Pick("pause", 2) == 1 {
			time.Sleep(100 * time.Millisecond)
		}
		c.Feed(cf(cf(nil, true, 9, pb), true, 2, nil))
		done <- true
	}()
	expect(conn, c, []msg{{2, nil}})
	<-done
	<-done
	fs, rest, bad := fake.Decode(c.Out())
	if bad != "" {
		sym.Fail("server output malformed: " + bad)
	}
	sym.Assert(rest == 0, "server output ends inside a frame")
	var got [][]byte
	for _, f := range fs {
		if f.Op == 10 {
			got = append(got, f.Payload)
		}
	}
	sym.Assert(len(got) == 2, "not one pong for each ping")
	sym.Assert(eq(got[0], pa) && eq(got[1], pb), "pong payload differs")
	sym.Cover("done")
}

// ---- C08 ----

func validCode(code int) bool {
	return code >= 1000 && code <= 1003 || code >= 1007 && code <= 1011 || code >= 3000 && code <= 4999
}

func C08Close() {
	conn, c := dial(snapws.NewUpgrader(noUTF8(small())))
	var s []byte
	state := sym.Pick("state", 4)
	switch state {
	case 1:
		s = cf(s, true, 9, sym.Bytes("c", 3))
	case 2:
		s = cf(s, false, 2, sym.Bytes("p", 2))
	case 3: // complete message first
		s = cf(s, true, 2, sym.Bytes("p", 2))
	}
	n := pickLen("len", 0, 1, 2, 3, 5, 125)
	p := sym.Bytes("p", n)
	if n == 125 {
		for i := 5; i < 125; i++ {
			sym.Assume(p[i] == 'x')
		}
	}
	s = cf(s, true, 8, p)
	// whatever follows
	s = cf(s, true, 1, []byte{65})
	s = append(s, sym.Bytes("junk", 3)...)
	c.Feed(s)
	if sym.Pick("stream", 2) == 1 {
		if state == 3 {
			_, _, err := stream(conn, func() int { return 9 })
			sym.Assert(err == nil, "message before the close frame lost")
		}
		_, _, err := stream(conn, func() int { return 9 })
		sym.Assert(err != nil && snapws.IsFatalErr(err), "read after a close frame does not fail fatally")
	} else {
		if state == 3 {
			_, _, err := conn.ReadMessage()
			sym.Assert(err == nil, "message before the close frame lost")
		}
		_, _, err := conn.ReadMessage()
		sym.Assert(err != nil && snapws.IsFatalErr(err), "read after a close frame does not fail fatally")
	}
	sym.Assert(c.IsClosed(), "transport not closed after a close frame")
	fs, rest, bad := fake.Decode(c.Out())
	if bad != "" || rest != 0 {
		sym.Fail("server output malformed: " + bad)
	}
	if state == 1 {
		sym.Assert(len(fs) == 2 && fs[0].Op == 10, "ping before the close frame not answered")
		fs = fs[1:]
	}
	sym.Assert(len(fs) == 1 && fs[0].Op == 8, "close frame not answered by exactly one close frame")
	got := fake.CloseCode(fs[0])
	reason := fs[0].Payload
	sym.Assert(len(reason) >= 2, "close reply carries no code")
	reason = reason[2:]
	switch {
	case n == 0:
		sym.Assert(got == 1000, "empty close frame not answered with 1000")
	case n == 1:
		sym.Assert(got == 1002, "1-byte close payload not answered with 1002")
	default:
		code := int(p[0])<<8 | int(p[1])
		if code >= 1012 && code <= 1014 {
			// registered after RFC 6455: either treatment is defensible
			sym.Assert(got == code || got == 1002, "wrong close reply")
			return
		}
		if !validCode(code) || !utf8.Valid(p[2:]) {
			sym.Assert(got == 1002, "invalid close frame not answered with 1002")
		} else {
			sym.Assert(got == code, "close code not echoed")
			sym.Assert(len(reason) == n-2, "close reason length differs")
			sym.Assert(eq(reason, p[2:]), "close reason not echoed")
		}
	}
	sym.Cover("answered")
	_, _, err := conn.ReadMessage()
	sym.Assert(err != nil && snapws.IsFatalErr(err), "later read does not fail fatally")
	_, _, err = conn.NextReader()
	sym.Assert(err != nil && snapws.IsFatalErr(err), "later NextReader does not fail fatally")
}
