package h

import (
	"context"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"net/http"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"harness/fake"
	"harness/sym"
)

func low(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

func ieq(a []byte, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if low(a[i]) != low(b[i]) {
			return false
		}
	}
	return true
}

// header splits a response head into its status line and fields.
func header(b []byte) (status string, names []string, values []string) {
	var lines []string
	start := 0
	for i := 0; i+1 < len(b); i++ {
		if b[i] == '\r' && b[i+1] == '\n' {
			lines = append(lines, string(b[start:i]))
			start = i + 2
			i++
		}
	}
	if start != len(b) || len(lines) < 2 || lines[len(lines)-1] != "" {
		sym.Fail("handshake response malformed")
	}
	for _, l := range lines[1 : len(lines)-1] {
		k := -1
		for i := range l {
			if l[i] == ':' {
				k = i
				break
			}
		}
		if k < 1 {
			sym.Fail("handshake response malformed")
		}
		v := l[k+1:]
		for len(v) > 0 && v[0] == ' ' {
			v = v[1:]
		}
		names = append(names, l[:k])
		values = append(values, v)
	}
	return lines[0], names, values
}

func field(names, values []string, name string) (v string, n int) {
	for i := range names {
		if ieq([]byte(names[i]), name) {
			n++
			v = values[i]
		}
	}
	return
}

// accepted checks a successful upgrade: one complete 101 response and nothing else.
func accepted(r *fake.Response, conn *snapws.Conn, err error, accept, proto string) {
	if err != nil || conn == nil {
		sym.Fail("valid upgrade request refused")
	}
	sym.Assert(r.Hijacks == 1, "not hijacked exactly once")
	sym.Assert(r.Heads == 0 && len(r.Body) == 0, "HTTP response besides the 101")
	sym.Assert(!r.C.IsClosed(), "transport closed after a successful upgrade")
	out := r.C.Out()
	sym.Assert(respEnd(out) == len(out), "something sent besides the handshake response")
	status, names, values := header(out)
	sym.Assert(len(status) >= 13 && status[:13] == "HTTP/1.1 101 ", "status line malformed")
	v, n := field(names, values, "Upgrade")
	sym.Assert(n == 1 && ieq([]byte(v), "websocket"), "Upgrade header of the response")
	v, n = field(names, values, "Connection")
	sym.Assert(n == 1 && ieq([]byte(v), "upgrade"), "Connection header of the response")
	v, n = field(names, values, "Sec-WebSocket-Accept")
	sym.Assert(n == 1 && eq([]byte(v), []byte(accept)), "Sec-WebSocket-Accept of the response")
	v, n = field(names, values, "Sec-WebSocket-Protocol")
	if proto == "" {
		sym.Assert(n == 0, "protocol header without a protocol")
	} else {
		sym.Assert(n == 1 && eq([]byte(v), []byte(proto)), "protocol header of the response")
	}
	sym.Assert(eq([]byte(conn.SubProtocol), []byte(proto)), "protocol stored on the connection")
	sym.Assert(len(names) <= 4, "extra header in the response")
}

// refused checks that exactly one HTTP error was written and nothing else happened.
func refused(r *fake.Response, conn *snapws.Conn, err error, code int) {
	sym.Assert(err != nil, "refused upgrade returns no error")
	sym.Assert(conn == nil, "refused upgrade returns a connection")
	sym.Assert(!r.Hijacked, "refused request was hijacked")
	sym.Assert(r.Heads == 1, "not exactly one HTTP response")
	sym.Assert(r.Code >= 400 && r.Code < 600 || code != 0 && code < 400, "refused without an HTTP error")
	sym.Assert(code == 0 || r.Code == code, "wrong HTTP status code")
	sym.Assert(len(r.C.Out()) == 0 && !r.C.IsClosed(), "refused request used the transport")
}

// ---- C27 ----

type variant struct {
	v  []string
	ok bool
}

var upgradeV = []variant{
	{[]string{"websocket"}, true}, {[]string{"WebSocket"}, true}, {[]string{" websocket "}, true}, {[]string{"\tWEBSOCKET\t"}, true},
	{[]string{"h2c, websocket"}, true}, {[]string{"websocket,h2c"}, true}, {[]string{"h2c", "websocket"}, true}, {[]string{"h2c ,\twebsocket , x"}, true}, {[]string{"", "websocket"}, true}, {[]string{"a", "b, WebSocket", "c"}, true},
	{nil, false}, {[]string{""}, false}, {[]string{" "}, false}, {[]string{"web socket"}, false}, {[]string{"websocket2"}, false}, {[]string{"xwebsocket"}, false}, {[]string{"h2c"}, false}, {[]string{"websocket/13"}, false}, {[]string{"h2c,"}, false}, {[]string{"web", "socket"}, false}, {[]string{"websocke"}, false}, {[]string{"h2c websocket"}, false}, {[]string{"h2c;websocket"}, false},
}
var connectionV = []variant{
	{[]string{"Upgrade"}, true}, {[]string{"upgrade"}, true}, {[]string{"UPGRADE"}, true}, {[]string{" Upgrade "}, true}, {[]string{"keep-alive, Upgrade"}, true}, {[]string{"keep-alive,\tUPGRADE\t, x"}, true}, {[]string{"keep-alive", "upgrade"}, true}, {[]string{"Upgrade", "keep-alive"}, true}, {[]string{",Upgrade,"}, true},
	{nil, false}, {[]string{""}, false}, {[]string{"keep-alive"}, false}, {[]string{"Upgrade2"}, false}, {[]string{"x-upgrade"}, false}, {[]string{"up grade"}, false}, {[]string{"close"}, false}, {[]string{"keep-alive Upgrade"}, false}, {[]string{"upgrad"}, false}, {[]string{"keep-alive;upgrade"}, false}, {[]string{"up", "grade"}, false},
}
var versionV = []variant{
	{[]string{"13"}, true}, {[]string{" 13 "}, true}, {[]string{"\t13"}, true},
	{nil, false}, {[]string{""}, false}, {[]string{"12"}, false}, {[]string{"8"}, false}, {[]string{"0"}, false}, {[]string{"133"}, false}, {[]string{"113"}, false}, {[]string{"1 3"}, false}, {[]string{"13.0"}, false}, {[]string{"x13"}, false}, {[]string{"1"}, false},
}
var keyV = []variant{
	{[]string{fake.Key}, true}, {[]string{"x3JJHMbDL1EzLkh9GBhXDw=="}, true}, {[]string{"AAAAAAAAAAAAAAAAAAAAAA=="}, true}, {[]string{"/////////////////////w=="}, true},
	{nil, false}, {[]string{""}, false}, {[]string{"AAAA"}, false}, {[]string{"AAAAAAAAAAAAAAAAAAAA"}, false}, {[]string{"AAAAAAAAAAAAAAAAAAAAAAA="}, false}, {[]string{"AAAAAAAAAAAAAAAAAAAAAAAA"}, false}, {[]string{"AAAAAAAAAAAAAAAAAAAAAA"}, false}, {[]string{"AAAAAAAAAAAAAAAAAAAAAA="}, false}, {[]string{"-_AAAAAAAAAAAAAAAAAAAA=="}, false}, {[]string{"AAAAAAAAAA AAAAAAAAAAA=="}, false}, {[]string{"AAAAAAAAAAAAAAAAAAAAAAAAAAA="}, false}, {[]string{"AAAAAAAAAAAAAAAAAAAAAA==AAAAAAAAAAAAAAAAAAAAAA=="}, false}, {[]string{"=="}, false},
}

var headerNames = []string{"Upgrade", "Connection", "Sec-Websocket-Version", "Sec-Websocket-Key"}

// calls counts what the application is asked during a handshake.
type calls struct{ mw, hook int }

func (n *calls) options() *snapws.Options {
	o := small()
	o.Middlwares = []snapws.Middlware{func(w http.ResponseWriter, r *http.Request) error { n.mw++; return nil }}
	o.OnConnect = func(*snapws.Conn) { n.hook++ }
	return o
}

// C27Headers: every pair of header variants (the others are valid).
func C27Headers() {
	n := &calls{}
	u := snapws.NewUpgrader(n.options())
	req := fake.Request()
	lists := [][]variant{upgradeV, connectionV, versionV, keyV}
	a := sym.Pick("header", 4)
	b := sym.Pick("other", 4)
	sym.Assume(a <= b)
	ok := true
	for _, h := range []int{a, b} {
		v := lists[h][sym.Pick("variant", len(lists[h]))]
		ok = ok && v.ok
		if v.v == nil {
			delete(req.Header, headerNames[h])
		} else {
			req.Header[headerNames[h]] = v.v
		}
		if a == b {
			break
		}
	}
	r := fake.NewResponse(fake.NewConn(), 256, 64)
	conn, err := u.Upgrade(r, req)
	if !ok {
		refused(r, conn, err, 0)
		sym.Assert(n.mw == 0 && n.hook == 0, "middleware or hook ran for an invalid request")
		sym.Cover("refused")
		return
	}
	sum := sha1.Sum([]byte(req.Header.Get("Sec-WebSocket-Key") + guid))
	accepted(r, conn, err, base64.StdEncoding.EncodeToString(sum[:]), "")
	sym.Assert(n.mw == 1 && n.hook == 1, "middleware and hook not run exactly once")
	sym.Cover("accepted")
}

const guid = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"

// stop makes every valid request end at a middleware, before the key is hashed.
func stop(n *calls) *snapws.Upgrader {
	o := small()
	o.Middlwares = []snapws.Middlware{func(w http.ResponseWriter, r *http.Request) error {
		n.mw++
		return snapws.NewMiddlewareErr(418, "stop")
	}}
	o.OnConnect = func(*snapws.Conn) { n.hook++ }
	return snapws.NewUpgrader(o)
}

func decided(n *calls, req *http.Request, ok bool, what string) {
	u := stop(n)
	r := fake.NewResponse(fake.NewConn(), 256, 64)
	conn, err := u.Upgrade(r, req)
	refused(r, conn, err, 0)
	sym.Assert(n.hook == 0, "connect hook ran for a refused request")
	if ok {
		sym.Assert(n.mw == 1, "valid "+what+" refused")
		sym.Assert(r.Code == 418, "middleware's status code")
		sym.Cover("valid")
	} else {
		sym.Assert(n.mw == 0, "invalid "+what+" accepted")
		sym.Cover("invalid")
	}
}

// C27Method: any method of up to 4 characters.
func C27Method() {
	m := sym.Bytes("m", 1+sym.Pick("len", 4))
	req := fake.Request()
	req.Method = string(m)
	decided(&calls{}, req, eq(m, []byte("GET")), "method")
}

// C27Bytes: arbitrary ASCII characters at any two places of a token.
func C27Bytes() {
	h := sym.Pick("header", 3)
	tok := []string{"websocket", "upgrade", "13"}[h]
	val := []byte(tok)
	if sym.Pick("pad", 2) == 1 {
		val = append(append([]byte("x,"), val...), ',')
	}
	n := len(val)
	i := sym.Pick("i", n)
	j := sym.Pick("j", n)
	sym.Assume(i <= j)
	for _, k := range []int{i, j} {
		b := sym.Byte("b")
		sym.Assume(b < 0x80)
		val[k] = b
	}
	req := fake.Request()
	req.Header[headerNames[h]] = []string{string(val)}
	// the specification: some element of the list is the token
	ok := false
	if h < 2 {
		start := 0
		for k := 0; k <= n; k++ {
			if k == n || val[k] == ',' {
				if ieq(blanks(val[start:k]), tok) {
					ok = true
				}
				start = k + 1
			}
		}
	} else {
		ok = eq(blanks(val), []byte(tok))
	}
	decided(&calls{}, req, ok, "header")
}

// blanks removes surrounding blanks.
func blanks(b []byte) []byte {
	for len(b) > 0 && (b[0] == ' ' || b[0] >= 9 && b[0] <= 13) {
		b = b[1:]
	}
	for len(b) > 0 && (b[len(b)-1] == ' ' || b[len(b)-1] >= 9 && b[len(b)-1] <= 13) {
		b = b[:len(b)-1]
	}
	return b
}

func alpha(b byte) bool {
	return 'A' <= b && b <= 'Z' || 'a' <= b && b <= 'z' || '0' <= b && b <= '9' || b == '+' || b == '/'
}

// C27Key: arbitrary characters at two places of the key.
func C27Key() {
	val := []byte(fake.Key)
	pos := pickT("i", []int{0, 1, 11, 20, 21, 22, 23}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23})
	pos2 := pickT("j", []int{5, 21, 22, 23}, []int{5, 19, 20, 21, 22, 23})
	for _, k := range []int{pos, pos2} {
		b := sym.Byte("b")
		// blanks around the key and line breaks are outside
		sym.Assume(b != '\r' && b != '\n')
		val[k] = b
	}
	ok := true
	for k := 0; k < 22; k++ {
		if !alpha(val[k]) {
			ok = false
		}
	}
	if val[22] != '=' || val[23] != '=' {
		ok = false
	}
	req := fake.Request()
	req.Header["Sec-Websocket-Key"] = []string{string(val)}
	decided(&calls{}, req, ok, "key")
}

// C27Accept: the accept value for keys with symbolic characters.
func C27Accept() {
	val := []byte([]string{fake.Key, "x3JJHMbDL1EzLkh9GBhXDw==", "AAAAAAAAAAAAAAAAAAAAAA=="}[sym.Pick("key", 3)])
	for _, k := range [][]int{{}, {0}, {21}, {7, 12}}[sym.Pick("pos", 4)] {
		b := sym.Byte("b")
		sym.Assume(alpha(b))
		val[k] = b
	}
	req := fake.Request()
	req.Header["Sec-Websocket-Key"] = []string{string(val)}
	n := &calls{}
	u := snapws.NewUpgrader(n.options())
	r := fake.NewResponse(fake.NewConn(), 256, 64)
	conn, err := u.Upgrade(r, req)
	sum := sha1.Sum([]byte(string(val) + guid))
	accepted(r, conn, err, base64.StdEncoding.EncodeToString(sum[:]), "")
	sym.Cover("done")
}

// C27Known: accept values computed elsewhere.
func C27Known() {
	kv := [][2]string{{fake.Key, fake.Accept}, {"x3JJHMbDL1EzLkh9GBhXDw==", "HSmrc0sMlYUkAGmm5OPpG2HaGWk="}, {"AAAAAAAAAAAAAAAAAAAAAA==", "ICX+Yqv66kxgM0FcWaLWlFLwTAI="}}[sym.Pick("key", 3)]
	req := fake.Request()
	req.Header["Sec-Websocket-Key"] = []string{kv[0]}
	u := snapws.NewUpgrader(small())
	r := fake.NewResponse(fake.NewConn(), 256, 64)
	conn, err := u.Upgrade(r, req)
	accepted(r, conn, err, kv[1], "")
	sym.Cover("done")
}

// C27Hijack: a server that cannot give up the connection, through every entry point.
func C27Hijack() {
	n := &calls{}
	o := n.options()
	u := snapws.NewUpgrader(o)
	r := fake.NewResponse(fake.NewConn(), 256, 64)
	bad := sym.Pick("bad", 3)
	req := fake.Request()
	switch bad {
	case 0:
		r.HijackErr = errors.New("no hijack")
	case 1:
		delete(req.Header, "Upgrade")
	case 2:
		req.Method = "POST"
	}
	var err error
	var conn *snapws.Conn
	switch sym.Pick("api", 3) {
	case 0:
		conn, err = u.Upgrade(r, req)
	case 1:
		m := snapws.NewManager[int](u)
		m.OnRegister = func(*snapws.ManagedConn[int]) { sym.Fail("refused connection registered") }
		var mc *snapws.ManagedConn[int]
		mc, err = m.Connect(1, r, req)
		sym.Assert(mc == nil, "refused upgrade returns a connection")
		sym.Assert(len(m.GetAllConns()) == 0, "refused connection registered")
	case 2:
		m := snapws.NewRoomManager[int](u)
		var rm *snapws.Room[int]
		conn, rm, err = m.Connect(r, req, 1)
		sym.Assert(rm == nil && len(m.GetRoomKeys()) == 0, "refused upgrade created a room")
	}
	refused(r, conn, err, 0)
	sym.Assert(n.hook == 0, "connect hook ran for a refused request")
	sym.Cover("refused")
}

// ---- C28 ----

// C28Pick: any client list of up to three one-letter protocols against the server's.
func C28Pick() {
	o := small()
	raw := sym.Pick("raw", 2) == 1
	o.RejectRaw = raw
	var server []string
	switch sym.Pick("server", 5) {
	case 0:
	case 1:
		server = []string{}
	case 2:
		server = []string{"a"}
	case 3:
		server = []string{"b", "a"}
	case 4:
		server = []string{"a", "c", "ab"}
	}
	o.SubProtocols = server
	n := &calls{}
	o.OnConnect = func(*snapws.Conn) { n.hook++ }
	o.Middlwares = []snapws.Middlware{func(w http.ResponseWriter, r *http.Request) error { n.mw++; return nil }}
	u := snapws.NewUpgrader(o)
	// the client's list
	k := sym.Pick("n", 4)
	var names [][]byte
	for i := 0; i < k; i++ {
		var p []byte
		if i == 0 && sym.Pick("long", 2) == 1 {
			p = []byte("a")
		}
		b := sym.Byte("p")
		sym.Assume(b > ' ' && b < 0x7f && b != ',')
		names = append(names, append(p, b))
	}
	req := fake.Request()
	if k > 0 {
		var lines []string
		sep := []string{",", ", ", " ,\t", "\n"}[sym.Pick("sep", 4)]
		cur := ""
		if sep == " ,\t" {
			cur = "\t "
		}
		for i, p := range names {
			switch {
			case i > 0 && sep == "\n":
				lines = append(lines, cur)
				cur = ""
			case i > 0:
				cur += sep
			}
			cur += string(p)
		}
		if sep == " ,\t" {
			cur += " "
		}
		req.Header["Sec-Websocket-Protocol"] = append(lines, cur)
	}
	want := ""
	for _, p := range names {
		for _, s := range server {
			if want == "" && eq(p, []byte(s)) {
				want = s
			}
		}
	}
	r := fake.NewResponse(fake.NewConn(), 256, 64)
	conn, err := u.Upgrade(r, req)
	if want == "" && raw {
		refused(r, conn, err, 400)
		sym.Assert(n.hook == 0 && n.mw == 0, "middleware or hook ran for a refused request")
		sym.Cover("refused")
		return
	}
	accepted(r, conn, err, fake.Accept, want)
	if want == "" {
		sym.Cover("raw")
	} else {
		sym.Cover("chosen")
	}
}

// C28Lists: longer lists of real names, with repetitions, case and odd blanks.
func C28Lists() {
	servers := [][]string{nil, {"chat"}, {"chat.v2", "chat"}, {"graphql-ws", "graphql-transport-ws", "mqtt"}, {"Chat", "MQTT"}}
	clients := []struct {
		lines []string
		names []string
	}{
		{nil, nil},
		{[]string{""}, nil},
		{[]string{"chat"}, []string{"chat"}},
		{[]string{"chat.v3,chat.v2,chat"}, []string{"chat.v3", "chat.v2", "chat"}},
		{[]string{"chat, chat.v2"}, []string{"chat", "chat.v2"}},
		{[]string{"Chat, CHAT"}, []string{"Chat", "CHAT"}},
		{[]string{"  mqtt  ,,  graphql-ws"}, []string{"mqtt", "graphql-ws"}},
		{[]string{"x", "graphql-transport-ws , graphql-ws"}, []string{"x", "graphql-transport-ws", "graphql-ws"}},
		{[]string{"chat.v", "2"}, []string{"chat.v", "2"}},
		{[]string{"superchat", "chatty"}, []string{"superchat", "chatty"}},
		{[]string{"a,b,c,d,e,f,g,h,mqtt,chat"}, []string{"mqtt", "chat"}},
		{[]string{"", "chat"}, []string{"chat"}},
	}
	o := small()
	o.SubProtocols = servers[sym.Pick("server", len(servers))]
	o.RejectRaw = sym.Pick("raw", 2) == 1
	cl := clients[sym.Pick("client", len(clients))]
	u := snapws.NewUpgrader(o)
	want := ""
	for _, p := range cl.names {
		for _, s := range o.SubProtocols {
			if want == "" && p == s {
				want = s
			}
		}
	}
	req := fake.Request()
	if cl.lines != nil {
		req.Header["Sec-Websocket-Protocol"] = cl.lines
	}
	r := fake.NewResponse(fake.NewConn(), 256, 64)
	conn, err := u.Upgrade(r, req)
	if want == "" && o.RejectRaw {
		refused(r, conn, err, 400)
		sym.Cover("refused")
		return
	}
	accepted(r, conn, err, fake.Accept, want)
	// the same upgrader decides afresh for the next request
	r2 := fake.NewResponse(fake.NewConn(), 256, 64)
	conn2, err := u.Upgrade(r2, fake.Request())
	if o.RejectRaw {
		refused(r2, conn2, err, 400)
	} else {
		accepted(r2, conn2, err, fake.Accept, "")
	}
	sym.Cover("accepted")
}

// ---- C29 ----

// C29Order: middlewares, hijack, response and hook, in this order.
func C29Order() {
	pickN := func(i, a, b int) int {
		if i == 0 {
			return a
		}
		return b
	}
	var log []int // i: middleware i, 10: hook
	o := small()
	c := fake.NewConn()
	r := fake.NewResponse(c, 256, 64)
	req := fake.Request()
	n := sym.Pick("n", 4)
	failing, code, text := -1, 0, ""
	var ferr error
	var mws []snapws.Middlware
	for i := 0; i < n; i++ {
		k := sym.Pick("mw", 4)
		var e error
		switch k {
		case 1:
			x := []int{400, 401, 503, 599, 302, 200}[sym.Pick("code", pickN(i, 6, 3))]
			e = snapws.NewMiddlewareErr(x, "no"+dec(i))
			if failing < 0 {
				code, text = x, "no"+dec(i)
			}
		case 2:
			e = errors.New("plain")
			if failing < 0 {
				code = 400
			}
		case 3:
			e = context.Canceled
			if failing < 0 {
				code = 400
			}
		}
		if e != nil && failing < 0 {
			failing, ferr = i, e
		}
		mws = append(mws, func(w http.ResponseWriter, q *http.Request) error {
			sym.Assert(w == http.ResponseWriter(r) && q == req, "middleware got another request")
			sym.Assert(!r.Hijacked && r.Heads == 0, "middleware ran after the connection was taken over")
			log = append(log, i)
			return e
		})
	}
	var hooked *snapws.Conn
	hook := func(x *snapws.Conn) {
		log = append(log, 10)
		hooked = x
		out := c.Out()
		sym.Assert(respEnd(out) == len(out), "connect hook ran before the response was written")
		if sym.Pick("use", 2) == 1 { // the hook may use the connection
			sym.Assert(x.SendBytes(nil, []byte("hi")) == nil, "send in the connect hook failed")
		}
	}
	own := sym.Pick("use-options", 2) == 1
	if own {
		o.Middlwares = mws
	}
	if sym.Pick("hook", 2) == 1 {
		o.OnConnect = hook
	}
	u := snapws.NewUpgrader(o)
	if !own {
		for _, m := range mws {
			u.Use(m)
		}
	}
	bad := sym.Pick("bad", 7)
	switch bad {
	case 1:
		req.Header.Del("Upgrade")
	case 2:
		u.RejectRaw = true
	case 3:
		r.HijackErr = errors.New("no hijack")
	case 4:
		c.WriteFailAt = 1
		c.WritePartial = pickLen("partial", 0, 1, 40, -1)
	case 5:
		c.WdlFailAt = 1
	case 6: // the peer takes no byte: the write deadline passes
		c.StallAt = 1
	}
	var conn *snapws.Conn
	var err error
	api := sym.Pick("api", 3)
	var members int
	switch api {
	case 0:
		conn, err = u.Upgrade(r, req)
	case 1:
		m := snapws.NewManager[string](u)
		mc, e := m.Connect("a", r, req)
		if mc != nil {
			conn = mc.Conn
		}
		err = e
		members = len(m.GetAllConns())
	case 2:
		m := snapws.NewRoomManager[string](u)
		var rm *snapws.Room[string]
		conn, rm, err = m.Connect(r, req, "x")
		if rm != nil {
			members = len(rm.GetAllConns())
		}
	}
	ran := n
	if failing >= 0 {
		ran = failing + 1
	}
	if bad == 1 || bad == 2 {
		ran = 0
	}
	ok := bad == 0 && failing < 0
	hooks := 0
	for i, x := range log {
		if i < ran {
			sym.Assert(x == i, "middlewares out of order")
		} else {
			sym.Assert(x == 10, "middleware ran after one that failed, or twice")
			hooks++
		}
	}
	sym.Assert(len(log) >= ran, "middleware did not run")
	if ok && o.OnConnect != nil {
		sym.Assert(hooks == 1, "connect hook did not run exactly once")
		sym.Assert(hooked == conn, "connect hook got another connection")
	} else {
		sym.Assert(hooks == 0, "connect hook ran without a connection")
	}
	if api > 0 {
		if ok {
			sym.Assert(members == 1, "connection not registered")
		} else {
			sym.Assert(members == 0, "connection registered without a handshake")
		}
	}
	switch {
	case ok:
		sym.Assert(err == nil && conn != nil, "valid upgrade request refused")
		sym.Assert(!c.IsClosed(), "transport closed")
		sym.Cover("accepted")
	case bad == 1 || bad == 2:
		refused(r, conn, err, 0)
		sym.Cover("invalid")
	case failing >= 0:
		refused(r, conn, err, code)
		sym.Assert(err == ferr, "middleware's error not returned")
		if text != "" {
			body := r.Body
			for len(body) > 0 && body[len(body)-1] == '\n' {
				body = body[:len(body)-1]
			}
			sym.Assert(string(body) == text, "middleware's message not sent")
		}
		sym.Cover("stopped")
	case bad == 3:
		refused(r, conn, err, 0)
	default: // the response could not be written
		sym.Assert(err != nil && conn == nil, "failed handshake returns no error")
		sym.Assert(c.IsClosed(), "transport left open after a failed handshake")
		sym.Assert(r.Heads == 0, "HTTP response after the hijack")
		sym.Cover("unwritten")
	}
	if conn != nil {
		conn.Close()
	}
	sym.Idle()
}
