From 34aef51a0ce42c83467fbdb0d56bdd248aefa30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 01/26] fix: reset the payload length of empty control frames

---
 conn_write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_write.go b/conn_write.go
index 4f94f19..405a14b 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -315,6 +315,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = 0
 
 	if isMasked {
 		b, err := cw.conn.nRead(4)
-- 
2.43.0


From 1c86304df284da10f98b8aadff258a7a6e2f7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 02/26] fix: make the read buffer hold any control frame
 payload

---
 conn.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index e8a55ef..b119315 100755
--- a/conn.go
+++ b/conn.go
@@ -61,13 +61,14 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.writeLock = newMu(conn)
 
 	size := u.ReadBufferSize
-	if (size == 0 && br != nil) || (br != nil && size == br.Size()) {
+	if br != nil && br.Size() >= MaxControlFramePayload && (size == 0 || size == br.Size()) {
 		conn.readBuf = br
 	} else {
-		if size < MaxHeaderSize {
-			size += MaxHeaderSize
+		// The payload of a control frame is peeked at once, so it has to fit in the buffer.
+		if size < MaxControlFramePayload {
+			size = MaxControlFramePayload
 		}
-		if br.Buffered() > 0 && br != nil {
+		if br != nil && br.Buffered() > 0 {
 			// The client sent data before receiving the response.
 			conn.readBuf = bufio.NewReaderSize(&brNetConn{Conn: conn.raw, br: br}, size)
 		} else {
-- 
2.43.0


From 385103076d6438a6087a0d0712683e8e1ef26d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 03/26] fix: apply MaxMessageSize to data messages only and let
 -1 mean no limit

---
 conn_read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index da53a27..1139415 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -92,11 +92,6 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			n = int(lengthB)
 		}
 
-		if n > conn.upgrader.MaxMessageSize {
-			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
-			return nilOpcode, ErrTooLargePayload
-		}
-
 		// handling control frames
 		if isControl(opcode) {
 			if !fin || n > MaxControlFramePayload {
@@ -119,6 +114,11 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			continue
 		}
 
+		if conn.upgrader.MaxMessageSize >= 0 && n > conn.upgrader.MaxMessageSize {
+			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
+			return nilOpcode, ErrTooLargePayload
+		}
+
 		// reseting conn.reader current frame info.
 		conn.reader.fin = fin
 		conn.reader.remaining = n
@@ -211,7 +211,7 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			return 0, fatal(ErrExpectedContinuation)
 		}
 		r.totalSize += r.remaining
-		if r.totalSize > r.conn.upgrader.MaxMessageSize {
+		if r.conn.upgrader.MaxMessageSize >= 0 && r.totalSize > r.conn.upgrader.MaxMessageSize {
 			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())
 			return 0, fatal(ErrMessageTooLarge)
 		}
-- 
2.43.0


From 781d3673589705bb52b6a37cad9180410f0a8248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 04/26] fix: count the first frame of a message against
 ReaderMaxFragments

---
 conn_read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index 1139415..3e7717e 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -166,7 +166,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(ErrInvalidOPCODE)
 	}
 
-	conn.reader.fragments = 0
+	conn.reader.fragments = 1
 	conn.reader.totalSize = conn.reader.remaining
 
 	ok, err := conn.allow()
-- 
2.43.0


From 96c43eb286704d53079b0afbdeb4d11d29d6b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:16 +0000
Subject: [PATCH 05/26] fix: skip the unread rest of a message before reading
 the next one

---
 conn.go       | 2 +-
 conn_read.go  | 5 +++++
 conn_utils.go | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index b119315..588a926 100755
--- a/conn.go
+++ b/conn.go
@@ -76,7 +76,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		}
 	}
 
-	conn.reader = ConnReader{conn: conn}
+	conn.reader = ConnReader{conn: conn, fin: true}
 	conn.writer = conn.newWriter(wb)
 	conn.controlWriter = conn.newControlWriter()
 
diff --git a/conn_read.go b/conn_read.go
index 3e7717e..3c653d8 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -156,6 +156,11 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(err)
 	}
 
+	// skip what's left of the previous message (if it hasn't been read to its end).
+	if err := conn.skipRestOfMessage(); err != nil {
+		return nil, nilOpcode, fatal(err)
+	}
+
 	opcode, err := conn.acceptFrame()
 	if err != nil {
 		return nil, nilOpcode, fatal(err)
diff --git a/conn_utils.go b/conn_utils.go
index 66cee43..d5e1a8c 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -113,6 +113,7 @@ func (conn *Conn) skipRestOfMessage() error {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return err
 	}
+	conn.reader.remaining = 0
 
 	for !conn.reader.fin {
 		opcode, err := conn.acceptFrame()
@@ -129,6 +130,7 @@ func (conn *Conn) skipRestOfMessage() error {
 			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 			return err
 		}
+		conn.reader.remaining = 0
 	}
 
 	return nil
-- 
2.43.0


From 9c09bc89d1f29f047321be47c0e21de6bd92c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:52 +0000
Subject: [PATCH 06/26] fix: fail reads of a message whose connection is closed

---
 conn_read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conn_read.go b/conn_read.go
index 3c653d8..5994ebc 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -199,6 +199,12 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 //   - If a fatal error occurs (protocol violation, closed connection, etc.),
 //     the connection will be closed and a fatal error will be returned.
 func (r *ConnReader) Read(p []byte) (n int, err error) {
+	select {
+	case <-r.conn.done:
+		return 0, fatal(ErrConnClosed)
+	default:
+	}
+
 	// if we reached the end if the frame and a Continuation frame is expected.
 	if r.remaining == 0 && !r.fin {
 		// checking if we reached the ReaderMaxFragments before reading the next frame.
-- 
2.43.0


From cfe9cb49d3b36a2416102e8012984c078ed26a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:54 +0000
Subject: [PATCH 07/26] fix: close the connection when the rate limit hook
 returns an error

---
 conn_read.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_read.go b/conn_read.go
index 5994ebc..e408b94 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -176,6 +176,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 
 	ok, err := conn.allow()
 	if err != nil {
+		conn.CloseWithCode(ClosePolicyViolation, "rate limit exceeded")
 		return nil, nilOpcode, fatal(err)
 	} else if !ok {
 		if err := conn.skipRestOfMessage(); err != nil {
-- 
2.43.0


From 4438b8376413f22c5f1301039d9673e1b1c995bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:57 +0000
Subject: [PATCH 08/26] fix: release the writer when a send fails

---
 conn_batcher.go |  3 +--
 conn_write.go   | 31 +++++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index a1e99de..363e81e 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -141,8 +141,7 @@ func (b *messageBatch) sendWrapper(messages [][]byte, encoder batchEncoder) erro
 	err = encoder(w, messages, p, s)
 	if err != nil {
 		fmt.Println(err)
-		w.Close()
-		return err
+		return w.release(err)
 	}
 
 	return w.Close()
diff --git a/conn_write.go b/conn_write.go
index 405a14b..74a8baf 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -138,23 +138,27 @@ func (w *ConnWriter) flush(FIN bool) error {
 		opcode = OpcodeContinuation
 	}
 
-	err := w.writeHeaders(FIN, opcode)
+	// The lock comes before the headers, so that a flush that failed to get it can be retried.
+	err := w.conn.writeLock.lockCtx(w.ctx)
 	if err != nil {
 		return err
 	}
 
-	err = w.conn.writeLock.lockCtx(w.ctx)
+	err = w.writeHeaders(FIN, opcode)
 	if err != nil {
+		w.conn.writeLock.unLock()
 		return err
 	}
-	defer w.conn.writeLock.unLock()
 
+	// The lock must be released before closing the connection: closing needs it for the close frame.
 	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err != nil {
+		w.conn.writeLock.unLock()
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
 	err = w.conn.sendFrame(w.buf[w.start:w.used])
+	w.conn.writeLock.unLock()
 	if err != nil {
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
@@ -170,14 +174,25 @@ func (w *ConnWriter) flush(FIN bool) error {
 // Close flushes the final frame and releases the writer lock.
 func (w *ConnWriter) Close() error {
 	if !w.closed {
-		defer w.lock.tryUnlock()
-		defer func() { w.closed = true }()
 		err := w.flush(true)
-		return err
+		return w.release(err)
 	}
 	return nil
 }
 
+// release releases the writer lock. If err is not nil the message is given up: if a part of it
+// has already been sent it can't be completed anymore, so the connection gets closed.
+func (w *ConnWriter) release(err error) error {
+	if err != nil && w.flushCount > 0 && !IsFatalErr(err) {
+		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+		err = fatal(err)
+	}
+
+	w.closed = true
+	w.lock.tryUnlock()
+	return err
+}
+
 // sendFrame writes a prepared frame to the underlying connection.
 // This function is for internal library use.
 // All non-nil errors returned are fatal.
@@ -205,7 +220,7 @@ func (conn *Conn) SendMessage(ctx context.Context, opcode uint8, b []byte) error
 
 	_, err = w.Write(b)
 	if err != nil {
-		return err
+		return w.release(err)
 	}
 
 	return w.Close()
@@ -251,7 +266,7 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 
 	err = json.NewEncoder(w).Encode(v)
 	if err != nil {
-		return err
+		return w.release(err)
 	}
 
 	return w.Close()
-- 
2.43.0


From 6a8ca7c187f2d64f4d609c2765b0cfb9a0a2412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:40 +0000
Subject: [PATCH 09/26] fix: do not touch the writer of another goroutine when
 closing

---
 conn.go       | 12 ++++++------
 conn_utils.go | 25 +++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 588a926..eb16cf7 100755
--- a/conn.go
+++ b/conn.go
@@ -202,15 +202,15 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 			conn.ticker.Stop()
 		}
 
-		// close the current writer (if exists) and put the buffer back to the pool (if exists).
-		conn.writer.Close()
-		if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
-			conn.upgrader.writePool.Put(conn.writer.pb)
-		}
-
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
+		// put the buffer back to the pool (if exists), unless the writer is in use.
+		// the writer lock isn't released, so the buffer can't be written to anymore.
+		if conn.writer.lock.tryLock() && conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
+			conn.upgrader.writePool.Put(conn.writer.pb)
+		}
+
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
 
diff --git a/conn_utils.go b/conn_utils.go
index d5e1a8c..7e4875f 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -44,10 +44,31 @@ func (m *mu) lock() error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
+		return m.locked()
+	}
+}
+
+// locked gives the lock up again if the connection is closed: select picks a random case
+// when the lock is free and the connection is closed.
+func (m *mu) locked() error {
+	select {
+	case <-m.conn.done:
+		m.unLock()
+		return fatal(ErrConnClosed)
+	default:
 		return nil
 	}
 }
 
+func (m *mu) tryLock() bool {
+	select {
+	case m.ch <- struct{}{}:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *mu) forceLock() {
 	m.ch <- struct{}{}
 }
@@ -74,7 +95,7 @@ func (m *mu) lockCtx(ctx context.Context) error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
-		return nil
+		return m.locked()
 	case <-ctx.Done():
 		return ctx.Err()
 	}
@@ -85,7 +106,7 @@ func (m *mu) lockTimer(t *time.Timer) error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
-		return nil
+		return m.locked()
 	case <-t.C:
 		return ErrTimeout
 	}
-- 
2.43.0


From 2b34b65fd6ee0d09db0749d3448a2ecc67383daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 10/26] fix: close the transport even if its write deadline
 can't be set

---
 conn_write.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 74a8baf..34333bf 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -366,15 +366,11 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 		closeCode = CloseGoingAway
 	}
 
+	defer cw.conn.raw.Close()
+
 	// lock without unlocking because this is the last write.
 	cw.lock.forceLock()
 
-	// set deadline
-	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
-	if err != nil {
-		return
-	}
-
 	cw.buf = cw.buf[:4]
 	cw.buf[0] = 0x80 + OpcodeClose
 	cw.buf[1] = 2
@@ -386,6 +382,12 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 
 	// lock without unlocking because this is the last write.
 	cw.conn.writeLock.forceLock()
+
+	// set deadline
+	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
+	if err != nil {
+		return
+	}
+
 	cw.conn.sendFrame(cw.buf)
-	cw.conn.raw.Close()
 }
-- 
2.43.0


From ae1c2440cd9adb662bacaec2521815aaac4e091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 11/26] fix: write nothing after a partly written frame

---
 conn.go       | 3 +++
 conn_write.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/conn.go b/conn.go
index eb16cf7..14470be 100755
--- a/conn.go
+++ b/conn.go
@@ -42,6 +42,9 @@ type Conn struct {
 	writer        *ConnWriter
 	controlWriter *ControlWriter
 	writeLock     *mu
+	// the error of the first failed write, protected by writeLock. A failed write may leave
+	// a part of a frame on the wire, so nothing may be written after it.
+	writeErr error
 	readBuf       *bufio.Reader
 
 	broadcastQueue chan message
diff --git a/conn_write.go b/conn_write.go
index 34333bf..b161863 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -198,7 +198,11 @@ func (w *ConnWriter) release(err error) error {
 // All non-nil errors returned are fatal.
 // The fucntion doesnt close the connection on error.
 func (conn *Conn) sendFrame(buf []byte) error {
+	if conn.writeErr != nil {
+		return conn.writeErr
+	}
 	_, err := conn.raw.Write(buf)
+	conn.writeErr = err
 
 	return err
 }
-- 
2.43.0


From 0a90227bb46dea796dddf1a5c408016f003fb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:47 +0000
Subject: [PATCH 12/26] fix: hold the control writer's lock only for writing a
 frame

---
 conn.go       |  1 -
 conn_write.go | 53 ++++++++++++++++++++++++---------------------------
 2 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/conn.go b/conn.go
index 14470be..449193f 100755
--- a/conn.go
+++ b/conn.go
@@ -128,7 +128,6 @@ type ControlWriter struct {
 	maskKey [4]byte
 	err     chan error
 	lock    *mu
-	t       *time.Timer
 }
 
 func (conn *Conn) newControlWriter() *ControlWriter {
diff --git a/conn_write.go b/conn_write.go
index b161863..99a3311 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -313,29 +313,8 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
-	if cw.t == nil {
-		cw.t = time.NewTimer(cw.conn.upgrader.WriteWait)
-	} else {
-		cw.t.Reset(cw.conn.upgrader.WriteWait)
-	}
-	defer cw.t.Stop()
-
-	err := cw.lock.lockTimer(cw.t)
-	if err != nil {
-		return err
-	}
-	defer cw.lock.unLock()
-
-	// set deadline
-	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
-		return err
-	}
-
-	// write header and payload
-	cw.buf = cw.buf[:2]
-	cw.buf[0] = 0x80 + opcode
-	cw.buf[1] = 0
-
+	// read the payload before locking, so that a slow client can't hold up closing the connection.
+	var payload []byte
 	if isMasked {
 		b, err := cw.conn.nRead(4)
 		if err != nil {
@@ -344,21 +323,39 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 		copy(cw.maskKey[:], b)
 	}
 	if n > 0 && n <= MaxControlFramePayload {
-		payload, err := cw.conn.nRead(n)
+		b, err := cw.conn.nRead(n)
 		if err != nil {
 			return ErrConnClosed
 		}
-		cw.buf[1] = byte(n)
+		cw.mask(b)
+		payload = b
+	}
 
-		cw.mask(payload)
-		cw.buf = append(cw.buf, payload...)
+	t := time.NewTimer(cw.conn.upgrader.WriteWait)
+	defer t.Stop()
+
+	err := cw.lock.lockTimer(t)
+	if err != nil {
+		return err
 	}
+	defer cw.lock.unLock()
 
-	if err := cw.conn.writeLock.lockTimer(cw.t); err != nil {
+	// write header and payload
+	cw.buf = cw.buf[:2]
+	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = byte(len(payload))
+	cw.buf = append(cw.buf, payload...)
+
+	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
 	}
 	defer cw.conn.writeLock.unLock()
 
+	// set deadline
+	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
+		return err
+	}
+
 	return cw.conn.sendFrame(cw.buf)
 }
 
-- 
2.43.0


From d93a4d4cdeee6b94a33f2ca896a4f91b90c10f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 13/26] fix: mark a ping as outstanding before it is written
 and close if it fails

---
 conn.go       |  2 +-
 conn_write.go | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 449193f..10b70d3 100755
--- a/conn.go
+++ b/conn.go
@@ -45,7 +45,7 @@ type Conn struct {
 	// the error of the first failed write, protected by writeLock. A failed write may leave
 	// a part of a frame on the wire, so nothing may be written after it.
 	writeErr error
-	readBuf       *bufio.Reader
+	readBuf  *bufio.Reader
 
 	broadcastQueue chan message
 
diff --git a/conn_write.go b/conn_write.go
index 99a3311..1d8e73d 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -283,16 +283,23 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 // return a non-nil error snapws.ErrPingAlreadySent. So, if you wish to send a ping manually,
 // you should keep trying until the error is not snapws.ErrPingAlreadySent.
 func (conn *Conn) Ping() error {
-	if conn.pingSent.Load() {
+	select {
+	case <-conn.done:
+		return fatal(ErrConnClosed)
+	default:
+	}
+
+	// marked as sent before it's written, the pong may arrive right after the write.
+	if !conn.pingSent.CompareAndSwap(false, true) {
 		return ErrPingAlreadySent
 	}
 
 	err := conn.controlWriter.writeControl(OpcodePing, 0, false)
 	if err != nil {
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
-	conn.pingSent.Store(true)
 	return nil
 }
 
-- 
2.43.0


From 2f003675b4dda7d2aa81ac494fe7a4a4b8847b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 14/26] fix: stop the ping loop when the connection closes

---
 conn.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 10b70d3..f878680 100755
--- a/conn.go
+++ b/conn.go
@@ -87,6 +87,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		conn.batch = u.Flusher.newBatch(conn)
 	}
 
+	conn.ticker = time.NewTicker(u.PingEvery)
 	go conn.pingLoop()
 
 	return conn
@@ -145,13 +146,15 @@ func (conn *Conn) newControlWriter() *ControlWriter {
 // Ping the client every "PingEvery" provided from the manager.
 // If pinging fails the connection closes.
 func (conn *Conn) pingLoop() {
-	if conn.ticker == nil {
-		conn.ticker = time.NewTicker(conn.upgrader.PingEvery)
-	}
-	for range conn.ticker.C {
-		if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
-			conn.CloseWithCode(ClosePolicyViolation, err.Error())
+	for {
+		select {
+		case <-conn.done:
 			return
+		case <-conn.ticker.C:
+			if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
+				conn.CloseWithCode(ClosePolicyViolation, err.Error())
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From c0e5239af78268d6aa9997aaf556848994c5db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:37 +0000
Subject: [PATCH 15/26] fix: keep broadcasts out of fragmented messages and
 close when one fails

---
 broadcast.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/broadcast.go b/broadcast.go
index 6d2c35c..a7cd005 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -21,20 +21,29 @@ type frame struct {
 // Here we will send the frame directly (in one syscall) without copying to user buffer (without facing the possibility of fragmenting it).
 // This will save us syscalls and copies.
 func (m *frame) writeToConn(conn *Conn) error {
+	// Acquire the writer's lock, a broadcast must not end up between the fragments of another message
+	if err := conn.writer.lock.lockCtx(m.ctx); err != nil {
+		return err
+	}
+	defer conn.writer.lock.unLock()
+
 	// Acquire write lock
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
 	}
-	defer conn.writeLock.unLock()
 
 	// set deadline
 	if err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err != nil {
+		conn.writeLock.unLock()
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
 	// send frame
-	if err := conn.sendFrame(m.buf); err != nil {
+	err := conn.sendFrame(m.buf)
+	conn.writeLock.unLock()
+	if err != nil {
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
-- 
2.43.0


From 2eef7e4520da5083b8c64f657a32a52181b24d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 16/26] fix: never block a broadcast on a closed or not yet
 prepared connection

---
 broadcast.go     |  5 +++++
 conn.go          | 11 +++++------
 manager.go       |  4 +++-
 rooms_manager.go |  4 +++-
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/broadcast.go b/broadcast.go
index a7cd005..7a5cea5 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -123,6 +123,7 @@ func (u *Upgrader) broadcast(ctx context.Context, conns []*Conn, opcode uint8, d
 				select {
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done: // nobody empties the queue anymore
 				case conn.broadcastQueue <- m:
 					n++
 				}
@@ -150,6 +151,9 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 	if u.Flusher == nil {
 		return 0, ErrBatchingUninitialized
 	}
+	if ctx == nil {
+		ctx = context.Background()
+	}
 
 	m := &batchMessage{buf: data}
 
@@ -178,6 +182,7 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 					return n, u.Flusher.ctx.Err()
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done: // nobody empties the queue anymore
 				case conn.broadcastQueue <- m:
 					n++
 				}
diff --git a/conn.go b/conn.go
index f878680..e901967 100755
--- a/conn.go
+++ b/conn.go
@@ -48,6 +48,7 @@ type Conn struct {
 	readBuf  *bufio.Reader
 
 	broadcastQueue chan message
+	broadcastOnce  sync.Once
 
 	batch *messageBatch
 }
@@ -94,13 +95,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 }
 
 func (conn *Conn) enableBroadcasting() {
-	if conn.broadcastQueue != nil {
-		return
-	}
+	conn.broadcastOnce.Do(func() {
+		conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
 
-	conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
-
-	go conn.broadcastListener()
+		go conn.broadcastListener()
+	})
 }
 
 // ManagedConn is a Conn that is tracked by a Manager.
diff --git a/manager.go b/manager.go
index b0706a2..ddd9657 100755
--- a/manager.go
+++ b/manager.go
@@ -70,6 +70,9 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // If the key already exists, it will close the connection associated with the key,
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
+	// before the conn can be found by a broadcast
+	conn.enableBroadcasting()
+
 	m.mu.Lock()
 	if conn, ok := m.conns[key]; ok {
 		conn.raw.Close()
@@ -77,7 +80,6 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	m.conns[key] = conn
 	m.mu.Unlock()
 
-	conn.enableBroadcasting()
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
diff --git a/rooms_manager.go b/rooms_manager.go
index e7e01aa..c27806d 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -228,6 +228,9 @@ func (r *Room[keyType]) Close() {
 // Thread-safe: Multiple goroutines can call this concurrently.
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
+	// before the conn can be found by a broadcast
+	conn.enableBroadcasting()
+
 	r.mu.Lock()
 	r.conns[conn] = true
 	r.mu.Unlock()
@@ -239,7 +242,6 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	}
 	conn.onCloseMu.Unlock()
 
-	conn.enableBroadcasting()
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
-- 
2.43.0


From 5f7187114ca579c2f0addb746aa78c8fb9269b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 17/26] fix: run close callbacks of every room and manager
 once, and join and leave hooks once per membership

---
 conn.go          | 85 +++++++++++++++++++++++++++++++++++-------------
 rooms_manager.go | 33 ++++++++++++++-----
 2 files changed, 88 insertions(+), 30 deletions(-)

diff --git a/conn.go b/conn.go
index e901967..6e71c09 100755
--- a/conn.go
+++ b/conn.go
@@ -27,7 +27,12 @@ type Conn struct {
 	// would receive ok=false, indicating that the channel is closed => conn is closed.
 	done      chan struct{}
 	closeOnce sync.Once
-	onClose   func()
+	// closed after the hooks that run when the connection closes have returned.
+	cleaned chan struct{}
+	// callbacks to run when the connection closes, by the manager or room that set them.
+	onClose map[any]func()
+	// true once the callbacks are being run, nothing can be added anymore.
+	onCloseRan bool
 	// onCloseMu protects concurrent access to onClose callbacks.
 	// This prevents race conditions when connections move between rooms
 	// and multiple goroutines try to set/call onClose simultaneously.
@@ -60,6 +65,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		upgrader:    u,
 		SubProtocol: subProtocol,
 		done:        make(chan struct{}),
+		cleaned:     make(chan struct{}),
 		pingPayload: make([]byte, 0, MaxControlFramePayload),
 	}
 	conn.writeLock = newMu(conn)
@@ -112,11 +118,9 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
-	conn.onCloseMu.Lock()
-	defer conn.onCloseMu.Unlock()
-	conn.onClose = func() {
+	conn.setOnClose(m, func() {
 		m.unregister(key)
-	}
+	})
 	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
 }
 
@@ -201,7 +205,9 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
+	first := false
 	conn.closeOnce.Do(func() {
+		first = true
 		if conn.ticker != nil {
 			conn.ticker.Stop()
 		}
@@ -217,27 +223,62 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
+	})
+	if !first {
+		return
+	}
+	defer close(conn.cleaned)
 
-		// run hooks.
-		if conn.upgrader.OnDisconnect != nil {
-			conn.upgrader.OnDisconnect(conn)
-		}
+	// run hooks. They run outside of closeOnce because they may close the connection too.
+	if conn.upgrader.OnDisconnect != nil {
+		conn.upgrader.OnDisconnect(conn)
+	}
 
-		conn.onCloseMu.Lock()
-		if conn.onClose != nil {
-			conn.onClose()
-		}
-		conn.onCloseMu.Unlock()
+	conn.runOnClose()
 
-		// remove from rate limiter if exists
-		if conn.upgrader.Limiter != nil {
-			conn.upgrader.Limiter.removeClient(conn)
-		}
+	// remove from rate limiter if exists
+	if conn.upgrader.Limiter != nil {
+		conn.upgrader.Limiter.removeClient(conn)
+	}
 
-		if conn.upgrader.Flusher != nil {
-			conn.upgrader.Flusher.remove(conn)
-		}
-	})
+	if conn.upgrader.Flusher != nil {
+		conn.upgrader.Flusher.remove(conn)
+	}
+}
+
+// setOnClose sets the callback that owner (a manager or a room) wants to run when the connection closes.
+// It returns false if it's too late for that.
+func (conn *Conn) setOnClose(owner any, f func()) bool {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+
+	if conn.onCloseRan {
+		return false
+	}
+	if conn.onClose == nil {
+		conn.onClose = make(map[any]func())
+	}
+	conn.onClose[owner] = f
+	return true
+}
+
+func (conn *Conn) removeOnClose(owner any) {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+	delete(conn.onClose, owner)
+}
+
+// runOnClose runs the callbacks without holding the lock, because they may lock a room or a manager.
+func (conn *Conn) runOnClose() {
+	conn.onCloseMu.Lock()
+	callbacks := conn.onClose
+	conn.onClose = nil
+	conn.onCloseRan = true
+	conn.onCloseMu.Unlock()
+
+	for _, f := range callbacks {
+		f()
+	}
 }
 
 // This function is called upon receiving a close frame from the client.
diff --git a/rooms_manager.go b/rooms_manager.go
index c27806d..718b3b1 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -217,7 +217,10 @@ func (r *Room[keyType]) Close() {
 
 	r.rm.mu.Lock()
 	defer r.rm.mu.Unlock()
-	delete(r.rm.rooms, r.Key)
+	// the key may belong to a newer room by now
+	if r.rm.rooms[r.Key] == r {
+		delete(r.rm.rooms, r.Key)
+	}
 }
 
 // Add adds a connection to the room.
@@ -232,15 +235,18 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	conn.enableBroadcasting()
 
 	r.mu.Lock()
-	r.conns[conn] = true
-	r.mu.Unlock()
+	if r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 
-	// Set up automatic cleanup when connection closes
-	conn.onCloseMu.Lock()
-	conn.onClose = func() {
-		r.Remove(conn, args...)
+	// Set up automatic cleanup when connection closes, a closed connection isn't added.
+	if !conn.setOnClose(r, func() { r.Remove(conn, args...) }) {
+		r.mu.Unlock()
+		return
 	}
-	conn.onCloseMu.Unlock()
+	r.conns[conn] = true
+	r.mu.Unlock()
 
 	// calling onJoin hook
 	if r.OnJoin != nil {
@@ -256,7 +262,12 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 // Thread-safe: Multiple goroutines can call this concurrently.
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if !r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	delete(r.conns, conn)
+	conn.removeOnClose(r)
 	r.mu.Unlock()
 
 	// calling onLeave hook
@@ -273,8 +284,14 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Lock()
 	conns := r.conns               // copy
 	r.conns = make(map[*Conn]bool) // empty
+	for c := range conns {
+		c.removeOnClose(r)
+	}
 	r.mu.Unlock()
 
+	if r.OnLeave == nil {
+		return
+	}
 	// calling hook
 	for c := range conns {
 		r.OnLeave(r, c)
-- 
2.43.0


From 78d29e56d2b3c1df3b77403c03fe5b1b5a14ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 18/26] fix: unregister only the connection that closed, once
 and after OnRegister

---
 conn.go    | 17 +++++++++++++++--
 manager.go | 44 +++++++++++++++++++++++++++++++++++++-------
 2 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index 6e71c09..e5e0e91 100755
--- a/conn.go
+++ b/conn.go
@@ -115,13 +115,26 @@ type ManagedConn[KeyType comparable] struct {
 	*Conn
 	Key     KeyType
 	Manager *Manager[KeyType]
+
+	// state of the registration, protected by the manager's lock.
+	state registrationState
 }
 
+type registrationState uint8
+
+const (
+	stateUnregistered registrationState = iota
+	// registered, but OnRegister hasn't returned yet.
+	stateRegistering
+	stateRegistered
+)
+
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
+	mc := &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
 	conn.setOnClose(m, func() {
-		m.unregister(key)
+		m.unregister(mc)
 	})
-	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
+	return mc
 }
 
 // Used to write control frames.
diff --git a/manager.go b/manager.go
index ddd9657..4798d65 100755
--- a/manager.go
+++ b/manager.go
@@ -74,31 +74,61 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	conn.enableBroadcasting()
 
 	m.mu.Lock()
-	if conn, ok := m.conns[key]; ok {
-		conn.raw.Close()
+	prev := m.conns[key]
+	select {
+	case <-conn.done:
+		// closed before it could be registered
+		m.mu.Unlock()
+		return
+	default:
+	}
+	if prev == conn {
+		m.mu.Unlock()
+		return
 	}
 	m.conns[key] = conn
+	conn.state = stateRegistering
 	m.mu.Unlock()
 
+	if prev != nil {
+		prev.CloseWithCode(ClosePolicyViolation, "replaced by a new connection")
+	}
+
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
+
+	m.mu.Lock()
+	closed := conn.state == stateUnregistered
+	if !closed {
+		conn.state = stateRegistered
+	}
+	m.mu.Unlock()
+
+	// closed while registering: the hook has been left to us, to run it after OnRegister.
+	if closed && m.OnUnregister != nil {
+		m.OnUnregister(conn)
+	}
 }
 
 // only to be called bt conn.Close(), dont use it manually.
-func (m *Manager[KeyType]) unregister(id KeyType) error {
+func (m *Manager[KeyType]) unregister(conn *ManagedConn[KeyType]) error {
 	m.mu.Lock()
 
-	conn, ok := m.conns[id]
-	if !ok {
+	state := conn.state
+	conn.state = stateUnregistered
+	if state == stateUnregistered {
 		m.mu.Unlock()
 		return ErrConnNotFound
 	}
 
-	delete(m.conns, id)
+	// the key belongs to another connection if this one has been replaced.
+	if m.conns[conn.Key] == conn {
+		delete(m.conns, conn.Key)
+	}
 	m.mu.Unlock()
 
-	if m.OnUnregister != nil {
+	if state == stateRegistered && m.OnUnregister != nil {
 		m.OnUnregister(conn)
 	}
 
-- 
2.43.0


From 58f25e3f514c0c10dd160f324c64472cfc7300ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 19/26] fix: shut managers down without holding their locks

---
 manager.go       | 12 +++++-------
 rooms_manager.go | 24 ++++++++++++------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/manager.go b/manager.go
index 4798d65..10b7dfd 100755
--- a/manager.go
+++ b/manager.go
@@ -226,10 +226,9 @@ func (m *Manager[KeyType]) BroadcastJSON(ctx context.Context, v interface{}, exc
 // - Closes all connections normaly.
 // - Clears the conns map.
 func (m *Manager[KeyType]) Shutdown() {
-	m.mu.Lock()
-	defer m.mu.Unlock()
-
-	workers := (len(m.conns) / 5) + 2
+	// The lock isn't held while closing: every closed connection removes itself from the map.
+	conns := m.GetAllConns()
+	workers := (len(conns) / 5) + 2
 	var wg sync.WaitGroup
 	ch := make(chan *ManagedConn[KeyType], workers)
 
@@ -238,19 +237,18 @@ func (m *Manager[KeyType]) Shutdown() {
 		go func() {
 			for conn := range ch {
 				conn.Close()
+				// it may have been closed by someone else
+				<-conn.cleaned
 			}
 			wg.Done()
 		}()
 	}
 
-	conns := m.GetAllConns()
 	for _, conn := range conns {
 		ch <- conn
 	}
 	close(ch)
 	wg.Wait()
-
-	m.conns = make(map[KeyType]*ManagedConn[KeyType])
 }
 
 // BatchBroadcast loops over the manager's connections and adds the given data into their batch.
diff --git a/rooms_manager.go b/rooms_manager.go
index 718b3b1..862a223 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -171,14 +171,17 @@ func (rm *RoomManager[keyType]) GetRoomKeys() []keyType {
 //
 // After calling Shutdown, the RoomManager should not be used.
 func (rm *RoomManager[keyType]) Shutdown() {
+	// The locks aren't held while closing, because the hooks may use the room manager and the rooms.
 	rm.mu.Lock()
-	defer rm.mu.Unlock()
+	rooms := rm.rooms
+	rm.rooms = make(map[keyType]*Room[keyType])
+	rm.mu.Unlock()
 
-	connsCount := 0
-	for _, r := range rm.rooms {
-		r.mu.Lock()
-		connsCount += len(r.conns)
+	var conns []*Conn
+	for _, r := range rooms {
+		conns = append(conns, r.GetAllConns()...)
 	}
+	connsCount := len(conns)
 
 	var wg sync.WaitGroup
 	workers := (connsCount / 5) + 2
@@ -190,20 +193,17 @@ func (rm *RoomManager[keyType]) Shutdown() {
 			defer wg.Done()
 			for c := range ch {
 				c.CloseWithCode(CloseGoingAway, "server is shutting down")
+				// it may have been closed by someone else
+				<-c.cleaned
 			}
 		}()
 	}
 
-	for _, r := range rm.rooms {
-		for c := range r.conns {
-			ch <- c
-		}
-		r.mu.Unlock()
+	for _, c := range conns {
+		ch <- c
 	}
 
 	close(ch)
-	rm.rooms = make(map[keyType]*Room[keyType])
-
 	wg.Wait()
 }
 
-- 
2.43.0


From c282d26e62962b2e913b362a3409aea69563eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 20/26] fix: leave space for a payload in small write buffers

---
 options.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/options.go b/options.go
index 8c3f0bc..a5e0f2d 100755
--- a/options.go
+++ b/options.go
@@ -116,6 +116,9 @@ func (opt *Options) WithDefault() {
 	}
 	if opt.WriteBufferSize == 0 {
 		opt.WriteBufferSize = DefaultWriteBufferSize
+	} else if opt.WriteBufferSize <= MaxHeaderSize {
+		// the header of a frame is written to the same buffer
+		opt.WriteBufferSize += MaxHeaderSize
 	}
 	if opt.BroadcastChannelsSize == 0 {
 		opt.BroadcastChannelsSize = DefaultBroadcastChannelsSize
-- 
2.43.0


From f533ba130e455af059a216f804697813d85f0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:45 +0000
Subject: [PATCH 21/26] fix: send batches in order, within MaxBatchSize and
 without losing messages at flusher close

---
 conn.go         |  5 +++--
 conn_batcher.go | 59 ++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/conn.go b/conn.go
index e5e0e91..3cf38d6 100755
--- a/conn.go
+++ b/conn.go
@@ -92,6 +92,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 
 	if u.Flusher != nil {
 		conn.batch = u.Flusher.newBatch(conn)
+		conn.batch.flusher.add(conn)
 	}
 
 	conn.ticker = time.NewTicker(u.PingEvery)
@@ -254,8 +255,8 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 		conn.upgrader.Limiter.removeClient(conn)
 	}
 
-	if conn.upgrader.Flusher != nil {
-		conn.upgrader.Flusher.remove(conn)
+	if conn.batch != nil {
+		conn.batch.flusher.remove(conn)
 	}
 }
 
diff --git a/conn_batcher.go b/conn_batcher.go
index 363e81e..c1d1fad 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -10,13 +10,16 @@ import (
 type messageBatch struct {
 	messages  [][]byte
 	totalSize int
-	mu        sync.Mutex
-	conn      *Conn
-	flusher   *batchFlusher
+	// flushed batches that haven't been sent yet, in order.
+	pending [][][]byte
+	// true while a goroutine is sending the pending batches.
+	sending bool
+	mu      sync.Mutex
+	conn    *Conn
+	flusher *batchFlusher
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
-	f.add(conn)
 	return &messageBatch{
 		messages: make([][]byte, 0),
 		conn:     conn,
@@ -41,9 +44,17 @@ func (conn *Conn) Batch(data []byte) error {
 		return ErrBatchingUninitialized
 	}
 
+	// locked before checking if the flusher is closed, so that the last flush can't miss the message.
+	conn.batch.mu.Lock()
+	defer conn.batch.mu.Unlock()
+
 	select {
 	case <-conn.done:
-		return ErrConnClosed
+		return fatal(ErrConnClosed)
+	default:
+	}
+
+	select {
 	case <-conn.batch.flusher.closed:
 		return ErrFlusherClosed
 	case <-conn.batch.flusher.ctx.Done():
@@ -51,16 +62,12 @@ func (conn *Conn) Batch(data []byte) error {
 	default:
 	}
 
-	conn.batch.mu.Lock()
 	if conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {
-		conn.batch.mu.Unlock()
-		conn.batch.flush()
-		conn.batch.mu.Lock()
+		conn.batch.flushLocked()
 	}
 
 	conn.batch.messages = append(conn.batch.messages, data)
 	conn.batch.totalSize += len(data)
-	conn.batch.mu.Unlock()
 
 	return nil
 }
@@ -88,16 +95,42 @@ func (conn *Conn) BatchJSON(v interface{}) error {
 // if the messages slice isn't empty, it copies it, allocates a new one, and sends it.
 func (b *messageBatch) flush() {
 	b.mu.Lock()
+	defer b.mu.Unlock()
+	b.flushLocked()
+}
+
+// flushLocked is flush for callers that hold the lock.
+func (b *messageBatch) flushLocked() {
 	if len(b.messages) == 0 {
-		b.mu.Unlock()
 		return
 	}
 	c := b.messages
 	b.messages = make([][]byte, 0)
 	b.totalSize = 0
-	b.mu.Unlock()
 
-	go b.send(c)
+	// the batches are sent one after another by a single goroutine, to keep their order.
+	b.pending = append(b.pending, c)
+	if !b.sending {
+		b.sending = true
+		go b.sendPending()
+	}
+}
+
+// sendPending sends the pending batches until there are none left.
+func (b *messageBatch) sendPending() {
+	for {
+		b.mu.Lock()
+		if len(b.pending) == 0 {
+			b.sending = false
+			b.mu.Unlock()
+			return
+		}
+		c := b.pending[0]
+		b.pending = b.pending[1:]
+		b.mu.Unlock()
+
+		b.send(c)
+	}
 }
 
 // receives the connections slice and the messages and calls the appropriate send function.
-- 
2.43.0


From e937f47136adbc01a7a60ed942a28543c5839850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 22/26] fix: start a connection only after its handshake
 response has been written

---
 conn.go     |  5 +++++
 upgrader.go | 13 ++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 3cf38d6..d3fe62b 100755
--- a/conn.go
+++ b/conn.go
@@ -95,6 +95,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		conn.batch.flusher.add(conn)
 	}
 
+	// before the connection can be closed (closing removes it).
+	if u.Limiter != nil {
+		u.Limiter.addClient(conn)
+	}
+
 	conn.ticker = time.NewTicker(u.PingEvery)
 	go conn.pingLoop()
 
diff --git a/upgrader.go b/upgrader.go
index 0ce1c74..d7b1426 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -9,6 +9,7 @@ import (
 	"slices"
 	"strings"
 	"sync"
+	"time"
 )
 
 const GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
@@ -105,7 +106,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 
 	p := brw.Writer.AvailableBuffer()
-	conn := u.newConn(c, subProtocol, brw.Reader, p)
 
 	// writing response
 	p = append(p, "HTTP/1.1 101 Switching Protocols\r\n"...)
@@ -121,19 +121,22 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 	p = append(p, "\r\n"...)
 
+	if err = c.SetWriteDeadline(time.Now().Add(u.WriteWait)); err != nil {
+		c.Close()
+		return nil, err
+	}
 	_, err = c.Write(p)
 	if err != nil {
+		c.Close()
 		return nil, err
 	}
 
+	conn := u.newConn(c, subProtocol, brw.Reader, p)
+
 	if u.OnConnect != nil {
 		u.OnConnect(conn)
 	}
 
-	if u.Limiter != nil {
-		u.Limiter.addClient(conn)
-	}
-
 	return conn, err
 }
 
-- 
2.43.0


From a75d4f1dd37bd64db81c417b6e4e206d292ba20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 23/26] fix: accept handshake header lists that are split over
 several lines

---
 upgrader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index d7b1426..f255478 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -141,7 +141,7 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 }
 
 func validateConnectionHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Connection")
+	rawHeader := strings.Join(r.Header.Values("Connection"), ",")
 	if rawHeader == "" {
 		return ErrMissingConnectionHeader
 	}
@@ -158,7 +158,7 @@ func validateConnectionHeader(r *http.Request) error {
 }
 
 func validateUpgradeHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Upgrade")
+	rawHeader := strings.Join(r.Header.Values("Upgrade"), ",")
 	if rawHeader == "" {
 		return ErrMissingUpgradeHeader
 	}
@@ -204,7 +204,7 @@ func selectSubProtocol(r *http.Request, subProtocols []string) string {
 	if subProtocols == nil {
 		return ""
 	}
-	rawHeader := r.Header.Get("Sec-WebSocket-Protocol")
+	rawHeader := strings.Join(r.Header.Values("Sec-WebSocket-Protocol"), ",")
 	if rawHeader == "" {
 		return ""
 	}
-- 
2.43.0


From 0689df203d87923c8a4833fdbb6009d9a9709181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 24/26] fix: GetArg returns the zero value for a negative index
 instead of panicking

---
 rooms_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 862a223..af70934 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -21,7 +21,7 @@ type roomHook[keyType comparable] func(room *Room[keyType], conn *Conn, args ...
 // it returns the casted value and true.
 // Otherwise it returns the zero value of the given generic type and false.
 func GetArg[T any](args []any, index int) (T, bool) {
-	if len(args) > index {
+	if index >= 0 && index < len(args) {
 		v, ok := args[index].(T)
 		return v, ok
 	}
-- 
2.43.0


From dc36acbe96fc13e97d12b9e454521305a44dbfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 25/26] fix: a connection is unregistered from whatever key it
 was registered under, also if it does not come from Connect

---
 conn.go    |  2 ++
 manager.go | 21 ++++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index d3fe62b..2af34c8 100755
--- a/conn.go
+++ b/conn.go
@@ -124,6 +124,8 @@ type ManagedConn[KeyType comparable] struct {
 
 	// state of the registration, protected by the manager's lock.
 	state registrationState
+	// the keys it has been registered under, usually only Key. protected by the manager's lock.
+	keys []KeyType
 }
 
 type registrationState uint8
diff --git a/manager.go b/manager.go
index 10b7dfd..e13f3d9 100755
--- a/manager.go
+++ b/manager.go
@@ -73,6 +73,9 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	// before the conn can be found by a broadcast
 	conn.enableBroadcasting()
 
+	// the conn may not come from Connect.
+	conn.setOnClose(m, func() { m.unregister(conn) })
+
 	m.mu.Lock()
 	prev := m.conns[key]
 	select {
@@ -87,13 +90,23 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 		return
 	}
 	m.conns[key] = conn
-	conn.state = stateRegistering
+	if !slices.Contains(conn.keys, key) {
+		conn.keys = append(conn.keys, key)
+	}
+	another := conn.state != stateUnregistered // it's already registered under another key
+	if !another {
+		conn.state = stateRegistering
+	}
 	m.mu.Unlock()
 
 	if prev != nil {
 		prev.CloseWithCode(ClosePolicyViolation, "replaced by a new connection")
 	}
 
+	if another {
+		return
+	}
+
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
@@ -123,8 +136,10 @@ func (m *Manager[KeyType]) unregister(conn *ManagedConn[KeyType]) error {
 	}
 
 	// the key belongs to another connection if this one has been replaced.
-	if m.conns[conn.Key] == conn {
-		delete(m.conns, conn.Key)
+	for _, key := range conn.keys {
+		if m.conns[key] == conn {
+			delete(m.conns, key)
+		}
 	}
 	m.mu.Unlock()
 
-- 
2.43.0


From 522d3423d044232c56018ac10a828e8ec263460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 26/26] fix: Use doesn't append into the array behind the
 caller's list of middlewares

---
 upgrader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upgrader.go b/upgrader.go
index f255478..e476201 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -223,7 +223,7 @@ func selectSubProtocol(r *http.Request, subProtocols []string) string {
 
 // Appends the receive middleware to the middlewares slice of the upgrader.
 func (u *Upgrader) Use(mw Middlware) {
-	u.Middlwares = append(u.Middlwares, mw)
+	u.Middlwares = append(slices.Clip(u.Middlwares), mw)
 }
 
 // This is from gorilla/websocket
-- 
2.43.0

