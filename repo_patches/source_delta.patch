From ba956c5043dce43defbf5f992566bf3f8fb332bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 01/13] fix: keep WriteBufferLength current when data is sent
 from a queued task

---
 connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/connection.go b/connection.go
index e986a62..9b3e27d 100644
--- a/connection.go
+++ b/connection.go
@@ -324,6 +324,7 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 		}
 	}
 
+	c.outBufferLen.Swap(int64(c.outBuffer.Length()))
 	return
 }
 
-- 
2.43.0


From 365ee5c9a1a512d930d0f750255137bde0116b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 02/13] fix: start a connection's idle timer only on its loop,
 so it cannot be closed before it is connected and registered

---
 server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index ce117d2..66120d1 100644
--- a/server.go
+++ b/server.go
@@ -80,9 +80,10 @@ func (s *Server) RunEvery(d time.Duration, f func()) *timingwheel.Timer {
 func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	loop := s.opts.Strategy(s.workLoops)
 
-	c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
-
 	loop.QueueInLoop(func() {
+		// create the connection (and its idle timer) on the loop, so that no close can be queued before it is registered
+		c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
+
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
-- 
2.43.0


From 0f9dfd158d47b71c84c1de22d78696ca1b2ac9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 03/13] fix: removing a descriptor that is not registered does
 not change the connection count

---
 eventloop/eventloop.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index e5d7ee6..58ffcd0 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -81,8 +81,10 @@ func (l *EventLoop) DeleteFdInLoop(fd int) {
 	if err := l.poll.Del(fd); err != nil {
 		log.Error("[DeleteFdInLoop]", err)
 	}
-	delete(l.sockets, fd)
-	l.ConnCunt.Add(-1)
+	if _, ok := l.sockets[fd]; ok {
+		delete(l.sockets, fd)
+		l.ConnCunt.Add(-1)
+	}
 }
 
 // AddSocketAndEnableRead 增加 Socket 到事件循环中，并注册可读事件
-- 
2.43.0


From bce79983bc7d1652c8653d4f7b7c4a7d1f218e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 04/13] fix: ShutdownWrite on a closed connection reports it
 instead of shutting down a descriptor that may be in use again

---
 connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connection.go b/connection.go
index 9b3e27d..8631fe9 100644
--- a/connection.go
+++ b/connection.go
@@ -155,6 +155,9 @@ func (c *Connection) Close() error {
 
 // ShutdownWrite 关闭可写端，等待读取完接收缓冲区所有数据
 func (c *Connection) ShutdownWrite() error {
+	if !c.connected.Get() {
+		return ErrConnectionClosed
+	}
 	return unix.Shutdown(c.fd, unix.SHUT_WR)
 }
 
-- 
2.43.0


From 3c0c9d45f25402aa80a83e2a5bf7c45a7c4dad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 05/13] fix: a failed registration leaves an already registered
 socket in place

---
 eventloop/eventloop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index 58ffcd0..7b17f0b 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -89,12 +89,11 @@ func (l *EventLoop) DeleteFdInLoop(fd int) {
 
 // AddSocketAndEnableRead 增加 Socket 到事件循环中，并注册可读事件
 func (l *EventLoop) AddSocketAndEnableRead(fd int, s Socket) error {
-	l.sockets[fd] = s
 	if err := l.poll.AddRead(fd); err != nil {
-		delete(l.sockets, fd)
 		return err
 	}
 
+	l.sockets[fd] = s
 	l.ConnCunt.Add(1)
 	return nil
 }
-- 
2.43.0


From 69f9b9fc809be36f26d1afd795f34cf2d9505968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 06/13] fix: start the idle timer after queueing the connect
 task, without moving the creation of the connection to the loop

---
 connection.go | 27 +++++++++++++++++++++------
 server.go     |  8 +++++---
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index 8631fe9..697378a 100644
--- a/connection.go
+++ b/connection.go
@@ -50,6 +50,19 @@ var ErrConnectionClosed = errors.New("connection closed")
 
 // NewConnection 创建 Connection
 func NewConnection(fd int,
+	loop *eventloop.EventLoop,
+	sa unix.Sockaddr,
+	protocol Protocol,
+	tw *timingwheel.TimingWheel,
+	idleTime time.Duration,
+	callBack CallBack) *Connection {
+	conn := newConnection(fd, loop, sa, protocol, tw, idleTime, callBack)
+	conn.startIdleTimer()
+
+	return conn
+}
+
+func newConnection(fd int,
 	loop *eventloop.EventLoop,
 	sa unix.Sockaddr,
 	protocol Protocol,
@@ -70,15 +83,17 @@ func NewConnection(fd int,
 	}
 	conn.connected.Set(true)
 
-	if conn.idleTime > 0 {
-		_ = conn.activeTime.Swap(time.Now().Unix())
-		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
-		conn.timer.Store(timer)
-	}
-
 	return conn
 }
 
+func (c *Connection) startIdleTimer() {
+	if c.idleTime > 0 {
+		_ = c.activeTime.Swap(time.Now().Unix())
+		timer := c.timingWheel.AfterFunc(c.idleTime, c.closeTimeoutConn())
+		c.timer.Store(timer)
+	}
+}
+
 func (c *Connection) UserBuffer() *[]byte {
 	return c.loop.UserBuffer
 }
diff --git a/server.go b/server.go
index 66120d1..a6ee306 100644
--- a/server.go
+++ b/server.go
@@ -80,15 +80,17 @@ func (s *Server) RunEvery(d time.Duration, f func()) *timingwheel.Timer {
 func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	loop := s.opts.Strategy(s.workLoops)
 
-	loop.QueueInLoop(func() {
-		// create the connection (and its idle timer) on the loop, so that no close can be queued before it is registered
-		c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
+	c := newConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
 
+	loop.QueueInLoop(func() {
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
 		}
 	})
+
+	// 在建立连接的任务入队之后再启动 idle timer，保证超时的关闭任务排在其后
+	c.startIdleTimer()
 }
 
 // Start 启动 Server
-- 
2.43.0


From 0a173412f770887bac22914c7a2e0d138508538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 07/13] fix: DefaultProtocol.UnPacket must not lose bytes when
 the shared UserBuffer was re-sliced

---
 protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol.go b/protocol.go
index 1a689a2..a0ecb1d 100644
--- a/protocol.go
+++ b/protocol.go
@@ -25,6 +25,7 @@ func (d *DefaultProtocol) UnPacket(c *Connection, buffer *ringbuffer.RingBuffer)
 			userBuffer = make([]byte, size)
 			*c.UserBuffer() = userBuffer
 		}
+		userBuffer = userBuffer[:size]
 
 		copy(userBuffer, s)
 		copy(userBuffer[len(s):], e)
-- 
2.43.0


From 95f43df46ec8efaf2d55df06bfbb50eaa2147194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:23 +0000
Subject: [PATCH 08/13] fix: protobuf UnPacket must not panic on a type longer
 than its frame, nor hold back an empty frame

---
 plugins/protobuf/protocol.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 83961c6..ad1016a 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -25,18 +25,23 @@ func New() *Protocol {
 
 // UnPacket ...
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
-	if buffer.Length() > 6 {
+	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
 		if buffer.Length() >= length+4 {
 			buffer.Retrieve(4)
 
 			typeLen := int(buffer.PeekUint16())
+			dataLen := length - 2 - typeLen
+			if dataLen < 0 {
+				// the type does not fit into the frame, drop the frame
+				buffer.Retrieve(length)
+				return
+			}
 			buffer.Retrieve(2)
 
 			typeByte := pbytes.GetLen(typeLen)
 			_, _ = buffer.Read(typeByte)
 
-			dataLen := length - 2 - typeLen
 			data := make([]byte, dataLen)
 			_, _ = buffer.Read(data)
 
-- 
2.43.0


From df5250418ba079fcf2f1bbfec154533b96e57a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 09/13] fix: reading a WebSocket frame header must not disturb
 a buffer that does not hold the whole frame yet

---
 plugins/websocket/protocol.go | 10 ++++------
 plugins/websocket/ws/read.go  | 34 +++++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/plugins/websocket/protocol.go b/plugins/websocket/protocol.go
index 97eecb8..28ea749 100644
--- a/plugins/websocket/protocol.go
+++ b/plugins/websocket/protocol.go
@@ -34,18 +34,18 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 			return
 		}
 		c.Set(upgradedKey, true)
-		c.Set(headerbufferKey, pbytes.Get(0, ws.MaxHeaderSize-2))
+		c.Set(headerbufferKey, pbytes.Get(0, ws.MaxHeaderSize))
 	} else {
 		bts, _ := c.Get(headerbufferKey)
-		header, err := ws.VirtualReadHeader(bts.([]byte), buffer)
+		header, size, err := ws.PeekHeader(bts.([]byte), buffer)
 		if err != nil {
 			if err != ws.ErrHeaderNotReady {
 				log.Error(err)
 			}
 			return
 		}
-		if buffer.VirtualLength() >= int(header.Length) {
-			buffer.VirtualFlush()
+		if buffer.Length()-size >= int(header.Length) {
+			buffer.Retrieve(size)
 
 			payload := make([]byte, int(header.Length))
 			_, _ = buffer.Read(payload)
@@ -56,8 +56,6 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 
 			ctx = &header
 			out = payload
-		} else {
-			buffer.VirtualRevert()
 		}
 	}
 	return
diff --git a/plugins/websocket/ws/read.go b/plugins/websocket/ws/read.go
index 1556026..a4490b1 100644
--- a/plugins/websocket/ws/read.go
+++ b/plugins/websocket/ws/read.go
@@ -17,14 +17,28 @@ var (
 
 // VirtualReadHeader reads a frame header from r.
 func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err error) {
-	if in.Length() < 6 {
-		err = ErrHeaderNotReady
+	h, size, err := PeekHeader(bts, in)
+	if err != nil {
 		return
 	}
 
-	bts = bts[:2]
-	// Prepare to hold first 2 bytes to choose size of next read.
-	_, _ = in.VirtualRead(bts)
+	if cap(bts) < size {
+		bts = make([]byte, size)
+	}
+	_, _ = in.VirtualRead(bts[:size])
+
+	return
+}
+
+// PeekHeader decodes the frame header at the front of r, and its size, and leaves r as it is.
+// It uses bts as scratch space.
+func PeekHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, size int, err error) {
+	first, end := in.Peek(MaxHeaderSize)
+	bts = append(append(bts[:0], first...), end...)
+	if len(bts) < 2 {
+		err = ErrHeaderNotReady
+		return
+	}
 
 	h.Fin = bts[0]&bit0 != 0
 	h.Rsv = (bts[0] & 0x70) >> 4
@@ -53,14 +67,12 @@ func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err err
 		return
 	}
 
-	if extra == 0 {
+	size = 2 + extra
+	if len(bts) < size {
+		err = ErrHeaderNotReady
 		return
 	}
-
-	// Increase len of bts to extra bytes need to read.
-	// Overwrite first 2 bytes that was read before.
-	bts = bts[:extra]
-	_, _ = in.VirtualRead(bts)
+	bts = bts[2:size]
 
 	switch {
 	case length == 126:
-- 
2.43.0


From c472e3ba12c29028aab6060aae3699e30ce02a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 10/13] fix: send the WebSocket close reply before shutting
 down the write side

---
 plugins/websocket/wrap.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugins/websocket/wrap.go b/plugins/websocket/wrap.go
index 14c36c9..a9e0a93 100644
--- a/plugins/websocket/wrap.go
+++ b/plugins/websocket/wrap.go
@@ -53,7 +53,13 @@ func (s *HandlerWrap) OnMessage(c *gev.Connection, ctx interface{}, payload []by
 				if err != nil {
 					log.Error(err)
 				}
-				_ = c.ShutdownWrite()
+				// 应答发送完毕后才能关闭写端
+				_ = c.Send(out, gev.SendInLoop(func(interface{}) {
+					if c.WriteBufferLength() == 0 {
+						_ = c.ShutdownWrite()
+					}
+				}))
+				return nil
 			case ws.OpPing:
 				out, err = util.HandlePing(payload)
 				if err != nil {
-- 
2.43.0


From 3962ae1134433c091952caa0a7ad142d6e27e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 11/13] fix: only '0' to '9' are digits of an HTTP version

---
 plugins/websocket/ws/util.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plugins/websocket/ws/util.go b/plugins/websocket/ws/util.go
index 5892314..7c66b72 100644
--- a/plugins/websocket/ws/util.go
+++ b/plugins/websocket/ws/util.go
@@ -7,15 +7,14 @@ import (
 
 // asciiToInt converts bytes to int.
 func asciiToInt(bts []byte) (ret int, err error) {
-	// ASCII numbers all start with the high-order bits 0011.
-	// If you see that, and the next bits are 0-9 (0000 - 1001) you can grab those
-	// bits and interpret them directly as an integer.
+	// ASCII digits all start with the high-order bits 0011, and the next bits
+	// are 0-9 (0000 - 1001): those can be interpreted directly as an integer.
 	var n int
 	if n = len(bts); n < 1 {
 		return 0, fmt.Errorf("converting empty bytes to int")
 	}
 	for i := 0; i < n; i++ {
-		if bts[i]&0xf0 != 0x30 {
+		if bts[i] < '0' || bts[i] > '9' {
 			return 0, fmt.Errorf("%s is not a numeric character", string(bts[i]))
 		}
 		ret += int(bts[i]&0xf) * pow(10, n-i-1)
-- 
2.43.0


From 8b467953cd564168e3501ddee4eb238e8d289414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:14 +0000
Subject: [PATCH 12/13] fix: find the end of a WebSocket upgrade request
 wherever it lies in the buffer

---
 plugins/websocket/ws/errors.go |  5 +++++
 plugins/websocket/ws/ws.go     | 31 ++++++++++++++++---------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/plugins/websocket/ws/errors.go b/plugins/websocket/ws/errors.go
index 59d34b1..ad1832c 100644
--- a/plugins/websocket/ws/errors.go
+++ b/plugins/websocket/ws/errors.go
@@ -1,6 +1,7 @@
 package ws
 
 import (
+	"errors"
 	"fmt"
 	"net/http"
 )
@@ -57,6 +58,10 @@ var (
 	)
 )
 
+// ErrRequestNotReady is returned when the HTTP request has not been received
+// completely yet.
+var ErrRequestNotReady = errors.New("HTTP request is not ready")
+
 // ErrMalformedRequest is returned when HTTP request can not be parsed.
 var ErrMalformedRequest = RejectConnectionError(
 	RejectionStatus(http.StatusBadRequest),
diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 4f5f23b..2bb9889 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -154,7 +154,7 @@ type Upgrader struct {
 // Non-nil error means that request for the WebSocket upgrade is invalid or
 // malformed and usually connection should be closed.
 // Even when error is non-nil Upgrade will write appropriate response into
-// connection in compliance with RFC.
+// connection in compliance with RFC, unless the error is ErrRequestNotReady.
 func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []byte, hs Handshake, err error) {
 	// headerSeen constants helps to report whether or not some header was seen
 	// during reading request bytes.
@@ -175,20 +175,21 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			headerSeenSecKey
 	)
 
-	first, end := in.PeekAll()
-	var data []byte
-	if index := bytes.Index(first, []byte("\r\n\r\n")); index != -1 {
-		data = make([]byte, index+4)
-		if _, err = in.Read(data); err != nil {
-			return
-		}
-	} else if len(end) > 0 {
-		if index := bytes.Index(end, []byte("\r\n\r\n")); index != -1 {
-			data = make([]byte, index+4)
-			if _, err = in.Read(data); err != nil {
-				return
-			}
-		}
+	// A request ends with the first empty line. The received bytes may lie in
+	// two pieces, and so may the empty line itself.
+	received, rest := in.PeekAll()
+	if len(rest) > 0 {
+		received = in.Bytes()
+	}
+	index := bytes.Index(received, []byte("\r\n\r\n"))
+	if index == -1 {
+		// Nothing is consumed until the rest of the request has arrived.
+		err = ErrRequestNotReady
+		return
+	}
+	data := make([]byte, index+4)
+	if _, err = in.Read(data); err != nil {
+		return
 	}
 
 	lines := bytes.Split(data, []byte("\r\n"))
-- 
2.43.0


From 1624f1ae5cb469610cbef038afa65fa9e0237a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 13/13] fix: answer an upgrade request rejected at its request
 line with an HTTP error

---
 plugins/websocket/ws/ws.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 2bb9889..70f9c57 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -200,9 +200,6 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 
 	// Parse request line data like HTTP version, uri and method.
 	req, err := httpParseRequestLine(lines[0])
-	if err != nil {
-		return
-	}
 
 	// Prepare stack-based handshake header list.
 	header := handshakeHeader{
@@ -214,6 +211,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 	// Even if RFC says "1.1 or higher" without mentioning the part of the
 	// version, we apply it only to minor part.
 	switch {
+	case err != nil:
+		// Malformed request line.
 	case req.major != 1 || req.minor < 1:
 		// Abort processing the whole request because we do not even know how
 		// to actually parse it.
@@ -225,9 +224,6 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			err = onRequest(c, req.uri)
 		}
 	}
-	if err != nil {
-		return
-	}
 
 	// Start headers read/parse loop.
 	var (
-- 
2.43.0

