package h

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"context"
	"crypto/rand"
	"crypto/sha1"
	"crypto/subtle"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/fnv"
	"io"
	"iter"
	"log"
	"log/slog"
	"maps"
	"math"
	"math/bits"
	mrand "math/rand"
	"net"
	"net/http"
	"net/textproto"
	"net/url"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"harness/fake"
	"harness/sym"
)

// Lib uses what changed code may use of the standard library: no property, but
// each case has to be within reach of the engine.
func Lib() {
	ok := false
	b := sym.Bytes("b", 4)
	s := string(b)
	switch sym.Pick("case", 88) {
	case 0:
		h := sha1.New()
		io.WriteString(h, "ab")
		h.Write([]byte("c"))
		w := sha1.Sum([]byte("abc"))
		ok = eq(h.Sum(nil), w[:])
	case 1:
		var h hash.Hash = sha1.New()
		h.Write(b[:2])
		h.Write(b[2:])
		w := sha1.Sum(b)
		ok = eq(h.Sum([]byte("x"))[1:], w[:]) && h.Size() == 20
		h.Reset()
		w = sha1.Sum(nil)
		ok = ok && eq(h.Sum(nil), w[:])
	case 2:
		var sb strings.Builder
		e := base64.NewEncoder(base64.StdEncoding, &sb)
		e.Write([]byte("hello world"))
		e.Close()
		ok = sb.String() == "aGVsbG8gd29ybGQ="
	case 3:
		ok = base64.StdEncoding.EncodedLen(20) == 28 && string(base64.StdEncoding.AppendEncode(nil, []byte("ab"))) == "YWI="
	case 4:
		var t [4]byte
		subtle.XORBytes(t[:], b, b)
		ok = t == [4]byte{}
		ok = ok && subtle.ConstantTimeCompare(b, b) == 1
	case 5:
		var bb bytes.Buffer
		bb.Write(b)
		bb.WriteByte('x')
		bb.WriteString("yz")
		bb.Grow(100)
		ok = bb.Len() == 7 && bytes.HasSuffix(bb.Bytes(), []byte("xyz"))
	case 6:
		var bb bytes.Buffer
		ok = binary.Write(&bb, binary.BigEndian, uint16(258)) == nil && eq(bb.Bytes(), []byte{1, 2})
	case 7:
		var v uint16
		ok = binary.Read(bytes.NewReader([]byte{1, 2}), binary.BigEndian, &v) == nil && v == 258
	case 8:
		ok = eq(binary.BigEndian.AppendUint32(nil, 0x01020304), []byte{1, 2, 3, 4}) && len(binary.AppendUvarint(nil, 300)) == 2
	case 9:
		ok = bits.RotateLeft32(1, 8) == 256 && bits.Len(5) == 3 && bits.TrailingZeros64(8) == 3 && bits.ReverseBytes32(1) == 1<<24
	case 10:
		m := map[string]int{"a": 1, "b": 2}
		k := slices.Sorted(maps.Keys(m))
		ok = len(k) == 2 && k[0] == "a"
		v := slices.Collect(maps.Values(m))
		ok = ok && len(v) == 2
		maps.DeleteFunc(m, func(k string, _ int) bool { return k == "a" })
		ok = ok && len(maps.Clone(m)) == 1
	case 11:
		l := []int{3, 1, 2}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		ok = slices.IsSorted(l) && sort.SearchInts(l, 2) == 1
	case 12:
		l := []int{3, 1, 2}
		slices.SortFunc(l, func(a, b int) int { return cmp.Compare(a, b) })
		sort.Ints(l)
		l = slices.DeleteFunc(l, func(i int) bool { return i == 2 })
		l = slices.Insert(l, 1, 9)
		slices.Reverse(l)
		ok = slices.Equal(l, []int{3, 9, 1}) && slices.Index(l, 9) == 1 && slices.ContainsFunc(l, func(i int) bool { return i == 3 }) && slices.Max(l) == 9
		ok = ok && len(slices.Concat(l, l)) == 6 && len(slices.Grow(l, 10)) == 3 && len(slices.Compact(l)) == 3
	case 13:
		ok = fmt.Sprintf("%d %s %v %q %x %T %5d|%-4s|%t %w", 1, "a", []int{1}, "q", 255, b, 7, "z", true, errors.New("e")) != ""
	case 14:
		e := fmt.Errorf("a: %w", io.EOF)
		ok = errors.Is(e, io.EOF) && e.Error() == "a: EOF" && errors.Unwrap(e) == io.EOF
		j := errors.Join(e, os.ErrClosed)
		ok = ok && errors.Is(j, os.ErrClosed) && j.Error() != ""
	case 15:
		var ne net.Error
		ok = !errors.As(io.EOF, &ne)
		var oe *net.OpError
		ok = ok && errors.As(fmt.Errorf("x %w", &net.OpError{Op: "read", Err: io.EOF}), &oe)
	case 16:
		t := time.NewTimer(time.Second)
		x := time.Now()
		<-t.C
		ok = time.Since(x) >= time.Second && !t.Stop()
		t.Reset(time.Second)
		<-t.C
		<-time.After(time.Millisecond)
	case 17:
		d := make(chan int)
		t := time.AfterFunc(time.Second, func() { close(d) })
		<-d
		ok = !t.Stop()
	case 18:
		t := time.NewTicker(time.Second)
		<-t.C
		<-t.C
		t.Reset(time.Hour)
		t.Stop()
		ok = true
	case 19:
		ctx, cancel := context.WithCancelCause(context.Background())
		cancel(io.EOF)
		<-ctx.Done()
		ok = context.Cause(ctx) == io.EOF && ctx.Err() == context.Canceled
	case 20:
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		<-ctx.Done()
		ok = errors.Is(ctx.Err(), context.DeadlineExceeded)
		_, has := ctx.Deadline()
		ok = ok && has
	case 21:
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), "k", 1))
		d := make(chan int)
		stop := context.AfterFunc(ctx, func() { close(d) })
		cancel()
		<-d
		ok = !stop() && ctx.Value("k") == 1
	case 22:
		ctx := context.WithoutCancel(context.Background())
		ok = ctx.Err() == nil
	case 23:
		var m sync.Map
		m.Store("a", 1)
		v, l := m.LoadOrStore("a", 2)
		n := 0
		m.Range(func(k, v any) bool { n++; return true })
		m.Delete("a")
		_, l2 := m.Load("a")
		ok = v == 1 && l && n == 1 && !l2
	case 24:
		f := sync.OnceValue(func() int { return 7 })
		g := sync.OnceFunc(func() { ok = true })
		g()
		g()
		ok = ok && f() == 7 && f() == 7
	case 25:
		var p atomic.Pointer[int]
		x := 3
		p.Store(&x)
		ok = *p.Load() == 3 && p.CompareAndSwap(&x, nil) && p.Load() == nil
		var a atomic.Value
		a.Store("x")
		ok = ok && a.Load() == "x"
		var i atomic.Int64
		ok = ok && i.Add(2) == 2 && i.Swap(5) == 2 && i.CompareAndSwap(5, 6) && i.Load() == 6
		var q atomic.Bool
		ok = ok && !q.Swap(true) && q.Load()
		var u atomic.Uint32
		u.Or(5)
		u.And(4)
		ok = ok && u.Load() == 4
		var z int32
		ok = ok && atomic.AddInt32(&z, 2) == 2 && atomic.LoadInt32(&z) == 2 && atomic.CompareAndSwapInt32(&z, 2, 3)
	case 26:
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		done := false
		go func() { mu.Lock(); done = true; mu.Unlock(); c.Broadcast() }()
		mu.Lock()
		for !done {
			c.Wait()
		}
		mu.Unlock()
		ok = mu.TryLock()
		var rw sync.RWMutex
		l := rw.RLocker()
		l.Lock()
		ok = ok && rw.TryRLock() && !rw.TryLock()
	case 27:
		var wg sync.WaitGroup
		var n atomic.Int32
		for range 3 {
			wg.Add(1)
			go func() { defer wg.Done(); n.Add(1) }()
		}
		wg.Wait()
		ok = n.Load() == 3
	case 28:
		p := sync.Pool{New: func() any { return new(int) }}
		x := p.Get().(*int)
		p.Put(x)
		ok = p.Get() != nil
	case 29:
		br := bufio.NewReaderSize(bytes.NewReader([]byte("hello\nworld")), 16)
		l, e := br.ReadString('\n')
		p, e2 := br.Peek(2)
		n, e3 := br.Discard(2)
		ok = l == "hello\n" && e == nil && string(p) == "wo" && e2 == nil && n == 2 && e3 == nil && br.Buffered() == 3
	case 30:
		br := bufio.NewReader(bytes.NewReader(b))
		c, e := br.ReadByte()
		e2 := br.UnreadByte()
		d, e3 := io.ReadAll(br)
		ok = c == b[0] && e == nil && e2 == nil && e3 == nil && eq(d, b)
	case 31:
		var bb bytes.Buffer
		bw := bufio.NewWriterSize(&bb, 16)
		bw.Write(make([]byte, 20))
		bw.WriteString("abc")
		bw.WriteByte('x')
		bw.Flush()
		ok = bb.Len() == 24
	case 32:
		r := io.LimitReader(bytes.NewReader(b), 2)
		d, e := io.ReadAll(r)
		ok = e == nil && eq(d, b[:2])
	case 33:
		var bb bytes.Buffer
		n, e := io.Copy(&bb, bytes.NewReader(b))
		n2, e2 := io.CopyN(&bb, strings.NewReader("abcdef"), 3)
		n3, e3 := io.CopyBuffer(&bb, strings.NewReader("abc"), make([]byte, 2))
		ok = n == 4 && e == nil && n2 == 3 && e2 == nil && n3 == 3 && e3 == nil && bb.Len() == 10
	case 34:
		mr := io.MultiReader(bytes.NewReader(b), strings.NewReader("x"))
		d, _ := io.ReadAll(mr)
		n, _ := io.Copy(io.Discard, bytes.NewReader(b))
		var w1 bytes.Buffer
		io.MultiWriter(&w1, io.Discard).Write(b)
		tr := io.TeeReader(bytes.NewReader(b), &w1)
		io.ReadAll(tr)
		ok = len(d) == 5 && n == 4 && w1.Len() == 8
	case 35:
		d := make([]byte, 6)
		_, e := io.ReadFull(bytes.NewReader(b), d)
		_, e2 := io.ReadAtLeast(bytes.NewReader(b), d, 2)
		ok = e == io.ErrUnexpectedEOF && e2 == nil
	case 36:
		r, w := io.Pipe()
		go func() { w.Write([]byte("ab")); w.CloseWithError(io.ErrClosedPipe) }()
		d, e := io.ReadAll(r)
		ok = string(d) == "ab" && e == io.ErrClosedPipe
	case 37:
		bufs := net.Buffers{b[:2], b[2:]}
		var bb bytes.Buffer
		n, e := bufs.WriteTo(&bb)
		ok = n == 4 && e == nil && eq(bb.Bytes(), b)
	case 38:
		bufs := net.Buffers{b[:2], b[2:]}
		c := fake.NewConn()
		n, e := bufs.WriteTo(c)
		ok = n == 4 && e == nil && len(c.Out()) == 4
	case 39:
		h := http.Header{}
		h.Add("a-b", "x")
		h.Add("A-B", "y")
		h.Set("c", "z")
		ok = len(h.Values("a-B")) == 2 && h.Get("C") == "z" && textproto.CanonicalMIMEHeaderKey("sec-websocket-key") == "Sec-Websocket-Key"
		h.Del("c")
		ok = ok && len(h.Clone()) == 1
	case 40:
		f := strings.FieldsFunc("a, b,c", func(r rune) bool { return r == ',' || unicode.IsSpace(r) })
		ok = len(f) == 3 && len(strings.Fields(" a b ")) == 2 && len(strings.Split("a,b", ",")) == 2 && len(strings.SplitN("a,b,c", ",", 2)) == 2
		a, c, found := strings.Cut("k=v", "=")
		ok = ok && a == "k" && c == "v" && found && strings.Join(f, "") == "abc"
	case 41:
		ok = strings.EqualFold("UpGrade", "upgrade") && strings.ToLower("AbC") == "abc" && strings.ToUpper("AbC") == "ABC" && strings.Trim(" a ", " ") == "a" && strings.TrimPrefix("abc", "a") == "bc" && strings.Contains("abc", "bc") && strings.Index("abc", "c") == 2 && strings.ReplaceAll("aa", "a", "b") == "bb" && strings.Repeat("a", 3) == "aaa" && strings.TrimFunc("1a1", unicode.IsDigit) == "a" && strings.Title("a") == "A" && strings.Count("aa", "a") == 2 && strings.LastIndex("aba", "a") == 2 && strings.ContainsRune("a", 'a') && strings.ContainsAny("a", "ab") && strings.IndexByte("ab", 'b') == 1
	case 42:
		for range strings.SplitSeq("a,b", ",") {
			ok = true
		}
		r := strings.NewReplacer("a", "b")
		ok = ok && r.Replace("aa") == "bb" && strings.Map(func(r rune) rune { return r + 1 }, "ab") == "bc"
	case 43:
		ok = strconv.Itoa(-5) == "-5" && strconv.Quote("a") == `"a"` && string(strconv.AppendInt(nil, 5, 10)) == "5"
		n, e := strconv.Atoi("13")
		ok = ok && n == 13 && e == nil
		_, e = strconv.ParseUint("x", 10, 8)
		ok = ok && e != nil
	case 44:
		r, n := utf8.DecodeRune([]byte("é"))
		ok = r == 'é' && n == 2 && utf8.RuneLen('é') == 2 && utf8.RuneCountInString("éa") == 2 && len(utf8.AppendRune(nil, 'é')) == 2 && utf8.FullRune([]byte("é")) && utf8.RuneStart('a')
		r, n = utf8.DecodeLastRune([]byte("aé"))
		ok = ok && n == 2
	case 45:
		ok = utf8.Valid(b) == utf8.ValidString(s)
	case 46:
		r, n := utf8.DecodeRune(b)
		ok = n >= 1 && n <= 4 && (r != utf8.RuneError || n == 1 || n == 3)
	case 47:
		runtime.Gosched()
		runtime.KeepAlive(b)
		_ = runtime.NumGoroutine()
		runtime.GC()
		ok = true
	case 48:
		log.SetOutput(io.Discard)
		log.Printf("x %d", 1)
		log.Println("x")
		ok = true
	case 49:
		x := make([]byte, 8)
		_, e := rand.Read(x)
		_ = mrand.Int31n(8)
		ok = e == nil
	case 50:
		ok = hex.EncodeToString([]byte{1, 255}) == "01ff"
	case 51:
		d, e := json.Marshal(map[string]int{"a": 1})
		ok = e == nil && string(d) == `{"a":1}` && json.Valid(d)
		var v map[string]int
		ok = ok && json.Unmarshal(d, &v) == nil && v["a"] == 1
	case 52:
		var v any
		dec := json.NewDecoder(strings.NewReader(`{"a":[1,2]} 5`))
		ok = dec.Decode(&v) == nil && dec.More() && dec.Decode(&v) == nil && dec.Decode(&v) == io.EOF
	case 53:
		var bb bytes.Buffer
		e := json.NewEncoder(&bb)
		e.SetEscapeHTML(false)
		ok = e.Encode("<") == nil && bb.String() == "\"<\"\n"
	case 54:
		var bb bytes.Buffer
		ok = json.Compact(&bb, []byte("[1, 2]")) == nil && bb.String() == "[1,2]"
	case 55:
		seq := func(yield func(int) bool) {
			for i := range 3 {
				if !yield(i) {
					return
				}
			}
		}
		n := 0
		for i := range iter.Seq[int](seq) {
			n += i
		}
		next, stop := iter.Pull(iter.Seq[int](seq))
		v, more := next()
		stop()
		ok = n == 3 && v == 0 && more
	case 56:
		str := unsafe.String(&b[0], len(b))
		sl := unsafe.Slice(unsafe.StringData("abc"), 3)
		ok = str == s && sl[1] == 'b' && unsafe.SliceData(b) == &b[0]
	case 57:
		ok = *(*string)(unsafe.Pointer(&b)) == s
	case 58:
		x := *(*uint32)(unsafe.Pointer(&b[0]))
		ok = x == binary.LittleEndian.Uint32(b)
	case 59:
		ok = reflect.DeepEqual([]int{1}, []int{1}) && reflect.TypeOf(1).Kind() == reflect.Int && reflect.ValueOf(b).Len() == 4
	case 60:
		ok = math.MaxInt64 > 0 && math.Min(1, 2) == 1 && math.Ceil(1.5) == 2 && math.Floor(1.5) == 1 && math.Inf(1) > 1
	case 61:
		func() {
			defer func() { ok = recover() != nil }()
			var m map[string]int
			m["a"] = 1
		}()
	case 62:
		x := []int{1, 2, 3}
		a := [3]int(x)
		p := (*[3]int)(x)
		q := [2]int(x[1:])
		clear(x)
		ok = a[0] == 1 && p[0] == 0 && q[0] == 2 && min(1, 2, 3) == 1 && max(1.5, 2) == 2
	case 63:
		d := time.Duration(1500) * time.Millisecond
		ok = d.String() == "1.5s" && d.Seconds() == 1.5 && d.Round(time.Second) == 2*time.Second && d.Milliseconds() == 1500
		t := time.Now().Add(d).Truncate(time.Second)
		ok = ok && !t.IsZero() && time.Until(t) <= d && time.Unix(5, 0).Unix() == 5 && t.Compare(t) == 0 && t.Equal(t) && t.UnixNano() != 0
	case 64:
		ok = bytes.Equal(b, bytes.Clone(b)) && bytes.IndexByte([]byte("ab"), 'b') == 1 && len(bytes.Split([]byte("a,b"), []byte(","))) == 2 && bytes.Contains([]byte("abc"), []byte("b")) && len(bytes.Join([][]byte{b, b}, []byte(","))) == 9 && len(bytes.Repeat(b, 3)) == 12 && len(bytes.TrimSpace([]byte(" a "))) == 1 && bytes.Compare(b, b) == 0 && len(bytes.TrimRight([]byte("a\n"), "\n")) == 1
	case 65:
		rc := http.NewResponseController(fake.NewResponse(fake.NewConn(), 64, 64))
		_, _, e := rc.Hijack()
		ok = e == nil
	case 66:
		r := httptestRecorder()
		http.Error(r, "x", 400)
		ok = http.StatusText(400) == "Bad Request" && len(r.h) > 0 && http.CanonicalHeaderKey("a-b") == "A-B"
	case 67:
		tcp := &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5}
		host, port, e := net.SplitHostPort("1.2.3.4:5")
		ok = host == "1.2.3.4" && port == "5" && e == nil && net.JoinHostPort("a", "1") == "a:1" && tcp.Network() == "tcp"
	case 68:
		a := fmt.Sprint(1, "a", nil, io.EOF)
		fmt.Fprintf(io.Discard, "%v", a)
		fmt.Fprintln(os.Stderr)
		bb := fmt.Appendf(nil, "%02d:%s", 5, "x")
		var n int
		_, e := fmt.Sscanf("12", "%d", &n)
		ok = string(bb) == "05:x" && n == 12 && e == nil
	case 69:
		ch := make(chan int, 2)
		go func() { defer close(ch); ch <- 1; ch <- 2 }()
		n := 0
		for v := range ch {
			n += v
		}
		select {
		case _, more := <-ch:
			ok = !more && n == 3 && cap(ch) == 2
		case <-time.After(time.Second):
		}
	case 70:
		l := list.New()
		l.PushBack(1)
		l.PushFront(0)
		l.MoveToBack(l.Front())
		l.Remove(l.Back())
		ok = l.Len() == 1 && l.Front().Value == 1
	case 71:
		h := &intHeap{3, 1, 2}
		heap.Init(h)
		heap.Push(h, 0)
		ok = heap.Pop(h) == 0 && h.Len() == 3
	case 72:
		h := fnv.New32a()
		h.Write(b)
		ok = h.Sum32() == h.Sum32()
	case 73:
		sc := bufio.NewScanner(strings.NewReader("a\nb"))
		ok = sc.Scan() && sc.Text() == "a" && sc.Scan() && !sc.Scan()
	case 74:
		i, found := slices.BinarySearch([]int{1, 3}, 3)
		ok = i == 1 && found && slices.Contains([]string{"a"}, "a") && slices.IndexFunc([]int{1}, func(i int) bool { return i == 1 }) == 0
		for c := range slices.Chunk([]int{1, 2, 3}, 2) {
			ok = ok && len(c) <= 2
		}
		ok = ok && len(slices.Repeat([]int{1}, 3)) == 3 && slices.Compare([]int{1}, []int{2}) < 0
	case 75:
		ok = len(debug.Stack()) >= 0
	case 76:
		slog.New(slog.NewTextHandler(io.Discard, nil)).Info("x", "a", 1)
		ok = true
	case 77:
		ok = crc32.ChecksumIEEE([]byte("a")) != 0
	case 78:
		_ = os.Getenv("X")
		ok = true
	case 79:
		var once sync.Once
		once.Do(func() { ok = true })
		once.Do(func() { ok = false })
	case 80:
		ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(time.Second))
		defer cancel()
		d, _ := ctx.Deadline()
		ok = time.Until(d) <= time.Second
		ctx2, c2 := context.WithTimeoutCause(ctx, time.Millisecond, io.EOF)
		defer c2()
		<-ctx2.Done()
		ok = ok && context.Cause(ctx2) == io.EOF
	case 81:
		x := struct {
			a int
			b [2]string
		}{1, [2]string{"a", "b"}}
		y := x
		y.b[0] = "c"
		ok = x != y && x.b[0] == "a"
		type k struct{ a, b int }
		m := map[k]int{{1, 2}: 3}
		ok = ok && m[k{1, 2}] == 3
		var e any = x
		ok = ok && e == any(x)
	case 82:
		i := 0
	loop:
		for {
			switch {
			case i > 2:
				break loop
			default:
				i++
				continue loop
			}
		}
		goto end
	end:
		ok = i == 3
	case 83:
		defer func() { recover() }()
		func() {
			defer func() {
				r := recover()
				e, is := r.(runtime.Error)
				ok = is && e.Error() != ""
			}()
			var l []int
			_ = l[i0(b)]
		}()
	case 84:
		f := func(xs ...int) (n int, err error) {
			defer func() { n *= 2 }()
			for _, x := range xs {
				n += x
			}
			return n, nil
		}
		n, _ := f(1, 2)
		g := (*bytes.Buffer).Len
		ok = n == 6 && g(&bytes.Buffer{}) == 0
	case 85:
		q := url.Values{}
		q.Add("a", "b c")
		u, e := url.Parse("http://a.b/c?d=e")
		ok = e == nil && u.Host == "a.b" && u.Query().Get("d") == "e" && q.Encode() == "a=b+c"
	case 86:
		p := b[1:3:3]
		p = append(p, 9)
		p[0] = 7
		ok = b[1] == b[1] && cap(b[1:3:3]) == 2 && len(p) == 3
		x := append([]byte(nil), b...)
		copy(x[1:], x)
		ok = ok && x[1] == b[0]
	case 87:
		var r io.Reader = bytes.NewReader(b)
		_, isW := r.(io.WriterTo)
		sr := io.NewSectionReader(bytes.NewReader(b), 1, 2)
		d, _ := io.ReadAll(sr)
		ok = isW && len(d) == 2
	}
	sym.Assert(ok, "library")
	sym.Cover("done")
}

func i0(b []byte) int { return int(b[0]) }

type intHeap []int

func (h intHeap) Len() int           { return len(h) }
func (h intHeap) Less(i, j int) bool { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x any)        { *h = append(*h, x.(int)) }
func (h *intHeap) Pop() any {
	n := len(*h) - 1
	x := (*h)[n]
	*h = (*h)[:n]
	return x
}

type rec struct {
	h    http.Header
	body []byte
	code int
}

func (r *rec) Header() http.Header         { return r.h }
func (r *rec) Write(b []byte) (int, error) { r.body = append(r.body, b...); return len(b), nil }
func (r *rec) WriteHeader(c int)           { r.code = c }
func httptestRecorder() *rec               { return &rec{h: http.Header{}} }
