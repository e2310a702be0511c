From 72b5fbd56316526e9abb014ba743b51cda37ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:18 +0000
Subject: [PATCH 01/33] fix: an unsent frame's payload no longer leaks into the
 next frame written

---
 framewriter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framewriter.go b/framewriter.go
index 94d7390..d73d3db 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -49,6 +49,8 @@ func (dfw *defaultFrameWriter) Finalize() {
 
 // StartWrite Write the FrameHeader.
 func (dfw *defaultFrameWriter) StartWrite(requestID uint64, cmd Cmd, flags FrameFlag) {
+	// drop the payload of a previous frame that was started but never sent
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	binary.BigEndian.PutUint64(dfw.wbuf[4:], requestID)
 	cmdAndFlags := uint32(flags)<<24 + uint32(cmd)&0xffffff
 	binary.BigEndian.PutUint32(dfw.wbuf[12:], cmdAndFlags)
@@ -185,6 +187,8 @@ type defaultStreamWriter defaultFrameWriter
 
 func (dsw *defaultStreamWriter) StartWrite(cmd Cmd) {
 	dfw := (*defaultFrameWriter)(dsw)
+	// drop the payload of a previous frame that was started but never sent
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	dfw.SetCmd(cmd)
 }
 
-- 
2.43.0


From ac9fea39e491e35637af5b1363589a183dec5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:19 +0000
Subject: [PATCH 02/33] fix: closing a client connection right after dialing no
 longer crashes the process

---
 clientconn.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 184b82d..c52138b 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -478,11 +478,14 @@ func (conn *Connection) readFrames() {
 
 	defer conn.loopCancelCtx()
 
+	conn.mu.Lock()
+	rwc := conn.rwc
+	conn.mu.Unlock()
 	// in case closeRWC is already called
-	if conn.rwc == nil {
+	if rwc == nil {
 		return
 	}
-	reader := newFrameReader(*conn.loopCtx, conn.rwc, conn.conf.ReadTimeout, conn.conf.Codec)
+	reader := newFrameReader(*conn.loopCtx, rwc, conn.conf.ReadTimeout, conn.conf.Codec)
 	defer reader.Finalize()
 
 	for {
-- 
2.43.0


From 833fa19dc49cc3778e332bada769879d5519e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:21 +0000
Subject: [PATCH 03/33] fix: a closed reconnecting connection stops dialing

---
 clientconn.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index c52138b..54f4407 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -264,6 +264,11 @@ func (conn *Connection) connect() error {
 
 	count := 0
 	for {
+		// never dial again once closed
+		if err := conn.ctx.Err(); err != nil {
+			return err
+		}
+
 		addr := conn.addrs[conn.idx%len(conn.addrs)]
 		conn.idx++
 		count++
@@ -294,12 +299,6 @@ func (conn *Connection) connect() error {
 		if count >= len(conn.addrs) {
 			time.Sleep(reconnectIntervalAfter1stRound)
 		}
-
-		select {
-		case <-conn.ctx.Done():
-			return conn.ctx.Err()
-		default:
-		}
 	}
 
 }
-- 
2.43.0


From 444276109c82a52b7cce5913981d8ab5f2076316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:22 +0000
Subject: [PATCH 04/33] fix: closing a reconnecting connection fails the writes
 still queued on it

---
 clientconn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 54f4407..7d9a50e 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -395,13 +395,15 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 		return loopCtx.Err()
 	}
 
-	// if reconnect is enabled, wfr is guaranteed to be processed finally once committed
+	// if reconnect is enabled, wfr is guaranteed to be processed finally once committed, unless conn is closed
 	if conn.reconnect {
 		select {
 		case err := <-wfr.result:
 			wfr.dfw = nil
 			wfrPool.Put(wfr)
 			return err
+		case <-conn.ctx.Done():
+			return conn.ctx.Err()
 		}
 	} else {
 		select {
-- 
2.43.0


From d6ffaa13f178859dd7fa40974fbedf0bac59dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 05/33] fix: a request reset by the peer no longer leaves its
 caller waiting forever

---
 clientconn.go  |  4 ++++
 framereader.go |  7 ++++++-
 serveconn.go   |  5 +++++
 stream.go      | 14 ++++++++++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 7d9a50e..8b34f8d 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -515,6 +515,10 @@ func (conn *Connection) readFrames() {
 				// just ignore it
 				return
 			}
+			if frame.Flags.IsRst() {
+				// nobody is waiting for it
+				continue
+			}
 			if conn.conf.Handler != nil {
 				if !frame.FromServer() {
 					l.Error("clientconn get RequestFrame.RequestID not even")
diff --git a/framereader.go b/framereader.go
index 3240649..8690ed0 100644
--- a/framereader.go
+++ b/framereader.go
@@ -36,7 +36,8 @@ func newFrameReaderWithMFS(ctx context.Context, rwc net.Conn, timeout int, codec
 	return &defaultFrameReader{Reader: NewReaderWithTimeout(ctx, rwc, timeout), ctx: ctx, codec: codec, maxFrameSize: maxFrameSize}
 }
 
-// ReadFrame will only return the first frame in stream
+// ReadFrame will only return the first frame in stream,
+// which is a rst frame if the stream is reset before any other frame
 func (dfr *defaultFrameReader) ReadFrame(cs *ConnStreams) (*Frame, error) {
 start:
 	f, err := dfr.readFrame()
@@ -55,6 +56,10 @@ start:
 		s := cs.GetStream(requestID, flags)
 		if s != nil {
 			s.ResetByPeer()
+			if s.tryBindRst(f) {
+				// the first frame is still awaited, let the waiter know it will never come
+				return f, nil
+			}
 		}
 
 		goto start
diff --git a/serveconn.go b/serveconn.go
index 0a7f6d5..326fbaa 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -411,6 +411,11 @@ func (sc *serveconn) readFrames() (err error) {
 			}
 		}
 
+		if req.Flags.IsRst() {
+			// nobody is waiting for it
+			continue
+		}
+
 		if req.Flags.IsNonBlock() {
 			select {
 			case sc.readFrameCh <- readFrameResult{f: (*RequestFrame)(req)}:
diff --git a/stream.go b/stream.go
index 20c3e96..775dc1c 100644
--- a/stream.go
+++ b/stream.go
@@ -117,6 +117,20 @@ func (s *Stream) TryBind(firstFrame *Frame) bool {
 	return true
 }
 
+// tryBindRst is like TryBind, for the rst frame of a stream already reset by peer
+// not ts
+func (s *Stream) tryBindRst(rstFrame *Frame) bool {
+
+	if s.binded {
+		return false
+	}
+	s.binded = true
+
+	rstFrame.Stream = s
+
+	return true
+}
+
 // Done returns a channel for caller to wait for stream close
 // when channel returned, stream is cleanly closed
 func (s *Stream) Done() <-chan struct{} {
-- 
2.43.0


From 2b43db632b8f3cf28b429ade84024e755acdc098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 06/33] fix: a stream reset by the peer after our side ended is
 released

---
 stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream.go b/stream.go
index 775dc1c..1086586 100644
--- a/stream.go
+++ b/stream.go
@@ -216,6 +216,10 @@ func (s *Stream) ResetByPeer() {
 	}
 
 	s.reset()
+
+	if atomic.LoadInt32(&s.closedSelf) != 0 {
+		s.afterDone()
+	}
 }
 
 func (s *Stream) afterDone() {
-- 
2.43.0


From 7b4c69dbde6ca968b0b3f05e9b5ba751b3ee3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 07/33] fix: blocking requests no longer raise the inflight
 stream limit

---
 serveconn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index 326fbaa..71f7d60 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -199,7 +199,8 @@ func (sc *serveconn) serve() {
 
 			if res.readMore != nil {
 				func() {
-					defer sc.handleRequestPanic(res.f, time.Now(), inflightStreamsPtr)
+					// blocking requests are not counted in inflightStreams
+					defer sc.handleRequestPanic(res.f, time.Now(), nil)
 					handler.ServeQRPC(sc.writer, res.f)
 				}()
 				res.readMore()
-- 
2.43.0


From 6306947122a0603d5968acee19b52da49e515786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:27 +0000
Subject: [PATCH 08/33] fix: a push racing with accept no longer wedges the
 connection's writes

---
 serveconn.go | 1 -
 server.go    | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index 71f7d60..e435c76 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -174,7 +174,6 @@ func (sc *serveconn) serve() {
 	}
 	sc.writer = newFrameWriter(sc) // only used by blocking mode
 
-	sc.inflight = 1
 	util.GoFunc(&sc.wg, func() {
 		sc.readFrames()
 	})
diff --git a/server.go b/server.go
index bf17653..c75cde1 100644
--- a/server.go
+++ b/server.go
@@ -424,6 +424,7 @@ func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serv
 		rwc:            rwc,
 		idx:            idx,
 		untrackedCh:    make(chan struct{}),
+		inflight:       1, // for readFrames, must be set before sc is visible to others
 		cs:             &ConnStreams{},
 		readFrameCh:    make(chan readFrameResult, srv.bindings[idx].ReadFrameChSize),
 		writeFrameCh:   make(chan *writeFrameRequest, srv.bindings[idx].WriteFrameChSize),
-- 
2.43.0


From e39ad806d6a3aab19b4f6f4dbaac2cf3a788986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 09/33] fix: SetID racing with close no longer corrupts the id
 registry

---
 server.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index c75cde1..6baf2d8 100644
--- a/server.go
+++ b/server.go
@@ -136,6 +136,7 @@ type Server struct {
 	shutdownFunc []func()
 	done         bool
 
+	idMu             sync.Mutex // for modifying id2Conn
 	id2Conn          []sync.Map
 	activeConn       []sync.Map // for better iterate when write, map[*serveconn]struct{}
 	throttle         []atomic.Value
@@ -453,7 +454,15 @@ func (srv *Server) bindID(sc *serveconn, id string) (kick bool, ko uint64) {
 	idx := sc.idx
 
 check:
+	srv.idMu.Lock()
+	if sc.IsClosed() {
+		// already untracked, so nobody would ever remove it again
+		srv.idMu.Unlock()
+		ko = atomic.LoadUint64(&kickOrder)
+		return
+	}
 	v, loaded := srv.id2Conn[idx].LoadOrStore(id, sc)
+	srv.idMu.Unlock()
 
 	if loaded {
 		vsc := v.(*serveconn)
@@ -499,7 +508,12 @@ func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	id := sc.GetID()
 	if id != "" {
-		srv.id2Conn[idx].Delete(id)
+		srv.idMu.Lock()
+		// the id may still belong to another connection
+		if v, ok := srv.id2Conn[idx].Load(id); ok && v.(*serveconn) == sc {
+			srv.id2Conn[idx].Delete(id)
+		}
+		srv.idMu.Unlock()
 	}
 	srv.activeConn[idx].Delete(sc)
 
-- 
2.43.0


From 136f237a5ec0228b4657bb6341a83a50e9426827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 10/33] fix: frames for a handler that has returned no longer
 stall the connection

---
 clientconn.go |  2 ++
 serveconn.go  |  2 ++
 stream.go     | 15 +++++++++------
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 8b34f8d..0e46777 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -563,6 +563,8 @@ func (conn *Connection) handleRequestPanic(frame *RequestFrame, begin time.Time)
 	}
 
 	s := frame.Stream
+	// the handler has returned, don't wait for it to consume more frames
+	s.reset()
 	if !s.IsSelfClosed() {
 		// send error frame
 		w := conn.getWriter()
diff --git a/serveconn.go b/serveconn.go
index e435c76..ad99ef0 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -265,6 +265,8 @@ func (sc *serveconn) handleRequestPanic(frame *RequestFrame, begin time.Time, in
 	}
 
 	s := frame.Stream
+	// the handler has returned, don't wait for it to consume more frames
+	s.reset()
 	if !s.IsSelfClosed() {
 		// send error frame
 		writer := sc.GetWriter()
diff --git a/stream.go b/stream.go
index 1086586..4715e89 100644
--- a/stream.go
+++ b/stream.go
@@ -147,13 +147,16 @@ func (s *Stream) AddInFrame(frame *Frame) bool {
 		return false
 	}
 
-	select {
-	case s.frameCh <- frame:
-		s.closePeerIfNeeded(frame.Flags)
-		return true
-	case <-s.ctx.Done():
-		return false
+	// once canceled, nobody is expected to consume frames any more:
+	// discard this one and all that follow, so that other streams can go on
+	if s.ctx.Err() == nil {
+		select {
+		case s.frameCh <- frame:
+		case <-s.ctx.Done():
+		}
 	}
+	s.closePeerIfNeeded(frame.Flags)
+	return true
 }
 
 func (s *Stream) closePeerIfNeeded(flags FrameFlag) {
-- 
2.43.0


From e06c04db0a2d2585c7aa480ed803f6ef12b8f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 11/33] fix: closing a connection no longer hangs when its
 reader waits for a stream

---
 framereader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framereader.go b/framereader.go
index 8690ed0..9d770b6 100644
--- a/framereader.go
+++ b/framereader.go
@@ -74,7 +74,11 @@ start:
 	}
 	ok := s.AddInFrame(f)
 	if !ok {
-		<-s.Done()
+		select {
+		case <-s.Done():
+		case <-dfr.ctx.Done():
+			return nil, dfr.ctx.Err()
+		}
 	}
 
 	goto start
-- 
2.43.0


From 37fe62e0eca9f99d9f2ffdffc039cfe56e298645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:33 +0000
Subject: [PATCH 12/33] fix: a batched continuation frame is not sent once its
 stream is gone

---
 clientconn.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 0e46777..f6fc5ad 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -686,9 +686,19 @@ firstFrame:
 					break
 				}
 			} else if !flags.IsPush() { // skip stream logic if PushFlag set
-				s, loaded := conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
-				if !loaded {
-					l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+				var s *Stream
+				if dfw.checkExist {
+					s = conn.cs.GetStream(requestID, flags)
+					if s == nil {
+						res.result <- ErrStreamNotExists
+						break
+					}
+				} else {
+					var loaded bool
+					s, loaded = conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
+					if !loaded {
+						l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+					}
 				}
 				if !s.AddOutFrame(requestID, flags) {
 					res.result <- ErrWriteAfterCloseSelf
-- 
2.43.0


From b7bc7a0839b47240b775f565a918c5bdad41bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:34 +0000
Subject: [PATCH 13/33] fix: registering two handlers for the same routing cmd
 panics

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 6baf2d8..c26c5f5 100644
--- a/server.go
+++ b/server.go
@@ -98,7 +98,7 @@ func (mux *ServeMux) Handle(cmd Cmd, handler Handler, middleware ...MiddlewareFu
 	if mux.m == nil {
 		mux.m = make(map[Cmd]Handler)
 	}
-	if _, exist := mux.m[cmd]; exist {
+	if _, exist := mux.m[cmd.Routing()]; exist {
 		panic("qrpc: multiple registrations for " + string(cmd))
 	}
 
-- 
2.43.0


From ac4a1e2a941907794a949648fed79414b415f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 14/33] fix: ToNonStream really clears the stream flags

---
 qrpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrpc.go b/qrpc.go
index 67731bf..3d6ecfb 100644
--- a/qrpc.go
+++ b/qrpc.go
@@ -46,7 +46,7 @@ const (
 
 // ToNonStream convert flg to nonstreamed flag
 func (flg FrameFlag) ToNonStream() FrameFlag {
-	return flg & ^(StreamFlag & StreamEndFlag)
+	return flg & ^(StreamFlag | StreamEndFlag)
 }
 
 // ToStream convert flg to streamed flag
-- 
2.43.0


From 2e914d4d0da1954191412a5a89ee916646acf60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 15/33] fix: channel Send honours end for every message

---
 channel/clienttransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index dd7d0d0..60de0e9 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -88,7 +88,7 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 
 	s.streamWriter.StartWrite(cmd)
 	s.streamWriter.WriteBytes(bytes)
-	err = s.streamWriter.EndWrite(false)
+	err = s.streamWriter.EndWrite(end)
 
 	return
 }
-- 
2.43.0


From 7c730b46f447304244fad2a834765cde0224e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 16/33] fix: channel Receive delivers the message when cmd is
 not wanted

---
 channel/servetransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/servetransport.go b/channel/servetransport.go
index 89e03fc..310c8b5 100644
--- a/channel/servetransport.go
+++ b/channel/servetransport.go
@@ -87,7 +87,7 @@ func (r *serveReceiver) Receive(ctx context.Context, cmd *qrpc.Cmd, msg interfac
 
 	if cmd != nil {
 		*cmd = frame.Cmd
-		err = Unmarshal(frame.Payload, msg)
 	}
+	err = Unmarshal(frame.Payload, msg)
 	return
 }
-- 
2.43.0


From dc5af8deec8d1505b5cd066979e22774f8f429f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 17/33] fix: Serve returns at once when the server is already
 shut down

---
 server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index c26c5f5..22679fa 100644
--- a/server.go
+++ b/server.go
@@ -284,7 +284,9 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 	defer ln.Close()
 	var tempDelay time.Duration // how long to sleep on accept failure
 
-	srv.trackListener(ln, idx, true)
+	if !srv.trackListener(ln, idx, true) {
+		return ErrServerClosed
+	}
 	defer srv.trackListener(ln, idx, false)
 
 	acceptCheckFunc := srv.bindings[idx].LifecycleCallbacks.OnAccept
@@ -408,14 +410,19 @@ func (ln *TCPKeepAliveListener) Accept() (c net.Conn, err error) {
 	return
 }
 
-func (srv *Server) trackListener(ln net.Listener, idx int, add bool) {
+// trackListener returns false if it is too late to add a listener
+func (srv *Server) trackListener(ln net.Listener, idx int, add bool) bool {
 	srv.mu.Lock()
 	defer srv.mu.Unlock()
 	if add {
+		if srv.done {
+			return false
+		}
 		srv.listeners[idx] = ln
 	} else {
 		srv.listeners[idx] = nil
 	}
+	return true
 }
 
 // Create new connection from rwc.
-- 
2.43.0


From 3403341c9db22f0052b673ca9938b1ce85404bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 18/33] fix: reconnecting connections honour TLSConf

---
 clientconn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index f6fc5ad..14f6edc 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -164,9 +164,9 @@ func NewConnectionWithReconnect(addrs []string, conf ConnectionConfig, f SubFunc
 		err error
 	)
 	if conf.OverlayNetwork != nil {
-		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	} else {
-		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	}
 	if err != nil {
 		l.Error("initconnect DialTimeout", zap.Error(err))
@@ -278,9 +278,9 @@ func (conn *Connection) connect() error {
 			err error
 		)
 		if conn.conf.OverlayNetwork != nil {
-			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		} else {
-			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		}
 
 		if err != nil {
-- 
2.43.0


From b5c9523225e4338b8105a1304c9d9eb1cd1a1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 19/33] fix: a handler's frame for an already finished stream
 is refused

---
 clientconn.go |  1 +
 serveconn.go  | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 14f6edc..85fd003 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -531,6 +531,7 @@ func (conn *Connection) readFrames() {
 				util.GoFunc(conn.loopWG, func() {
 					defer conn.handleRequestPanic((*RequestFrame)(frame), time.Now())
 					w := conn.getWriter()
+					w.checkExist = true // only answers existing streams
 					conn.conf.Handler.ServeQRPC(w, (*RequestFrame)(frame))
 					w.Finalize()
 				})
diff --git a/serveconn.go b/serveconn.go
index ad99ef0..4b3b2e3 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -172,7 +172,7 @@ func (sc *serveconn) serve() {
 		}
 		sc.reader = newFrameReaderWithMFS(ctx, sc.rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
 	}
-	sc.writer = newFrameWriter(sc) // only used by blocking mode
+	sc.writer = sc.newHandlerWriter() // only used by blocking mode
 
 	util.GoFunc(&sc.wg, func() {
 		sc.readFrames()
@@ -213,7 +213,7 @@ func (sc *serveconn) serve() {
 				util.GoFunc(&sc.wg, func() {
 					defer sc.handleRequestPanic(res.f, time.Now(), inflightStreamsPtr)
 
-					w := newFrameWriter(sc)
+					w := sc.newHandlerWriter()
 					handler.ServeQRPC(w, res.f)
 					w.Finalize()
 				})
@@ -290,6 +290,14 @@ func (sc *serveconn) GetWriter() FrameWriter {
 	return newFrameWriter(sc)
 }
 
+// newHandlerWriter generates a writer for handlers,
+// which only answers existing streams
+func (sc *serveconn) newHandlerWriter() *defaultFrameWriter {
+	w := newFrameWriter(sc)
+	w.checkExist = true
+	return w
+}
+
 var (
 	// ErrInvalidPacket when packet invalid
 	ErrInvalidPacket = errors.New("invalid packet")
-- 
2.43.0


From 386ae8d08a8cf505bee8cc602acfe463df141d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 20/33] fix: writing after a StreamWriter's ResetFrame fails
 instead of sending a reset again

---
 framewriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framewriter.go b/framewriter.go
index d73d3db..56ed244 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -210,7 +210,10 @@ func (dsw *defaultStreamWriter) EndWriteCompressed() (err error) {
 
 func (dsw *defaultStreamWriter) ResetFrame(reason Cmd) (err error) {
 	dfw := (*defaultFrameWriter)(dsw)
+	// the rst flag only belongs to this frame
+	flags := dfw.Flags()
 	err = dfw.ResetFrame(dfw.RequestID(), reason)
+	dfw.SetFlags(flags)
 	return
 
 }
-- 
2.43.0


From 7e3101731e193ff9493411601a4f6741247eb59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 21/33] fix: API.Call tries the other active connections when
 one of them fails

---
 api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 93fab82..2939313 100644
--- a/api.go
+++ b/api.go
@@ -229,7 +229,8 @@ func (api *defaultAPI) callViaActiveConns(ctx context.Context, cmd Cmd, payload
 			result, err = resp.GetFrameWithContext(ctx)
 		}
 
-		return false
+		// go on with the next one if this one failed
+		return err != nil && ctx.Err() == nil
 	})
 
 	return
-- 
2.43.0


From 56eb15c518917161f74c935a1842332ee7d657c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 22/33] fix: API.Call doesn't repeat a call whose context has
 ended

---
 api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 2939313..061d801 100644
--- a/api.go
+++ b/api.go
@@ -81,7 +81,7 @@ func (api *defaultAPI) Call(ctx context.Context, cmd Cmd, payload []byte) (resul
 
 	idx := api.getIdx()
 	result, err = api.callViaIdx(ctx, idx, cmd, payload)
-	if err != nil {
+	if err != nil && ctx.Err() == nil {
 		result, err = api.callViaActiveConns(ctx, cmd, payload)
 	}
 
-- 
2.43.0


From 4b885676dec08c8d3bc9b77b282e7b38f646f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:46 +0000
Subject: [PATCH 23/33] fix: handlers of a lost client connection no longer
 hang or block reconnecting

---
 clientconn.go | 52 ++++++++++++++++++++++++++++++++++++++++++++-------
 serveconn.go  |  1 +
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 85fd003..7ffdace 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -528,12 +528,14 @@ func (conn *Connection) readFrames() {
 					l.Error("clientconn get RequestFrame block")
 					return
 				}
-				util.GoFunc(conn.loopWG, func() {
-					defer conn.handleRequestPanic((*RequestFrame)(frame), time.Now())
-					w := conn.getWriter()
+				// the handler may outlive the loop
+				lw := &loopWriter{Connection: conn, ctx: *conn.loopCtx}
+				util.GoFunc(&conn.wg, func() {
+					defer conn.handleRequestPanic((*RequestFrame)(frame), time.Now(), lw)
+					w := newFrameWriter(lw)
 					w.checkExist = true // only answers existing streams
 					conn.conf.Handler.ServeQRPC(w, (*RequestFrame)(frame))
-					w.Finalize()
+					lw.finalize(w)
 				})
 				continue
 			}
@@ -554,7 +556,37 @@ func (conn *Connection) readFrames() {
 	}
 }
 
-func (conn *Connection) handleRequestPanic(frame *RequestFrame, begin time.Time) {
+// loopWriter is used by handlers, it only writes to the network connection the request came from
+type loopWriter struct {
+	*Connection
+	ctx context.Context
+}
+
+func (lw *loopWriter) writeFrameBytes(dfw *defaultFrameWriter) error {
+	wfr := &writeFrameRequest{dfw: dfw, result: make(chan error, 1), ctx: lw.ctx}
+
+	select {
+	case lw.writeFrameCh <- wfr:
+	case <-lw.ctx.Done():
+		return lw.ctx.Err()
+	}
+
+	select {
+	case err := <-wfr.result:
+		return err
+	case <-lw.ctx.Done():
+		return lw.ctx.Err()
+	}
+}
+
+func (lw *loopWriter) finalize(dfw *defaultFrameWriter) {
+	// dfw may still be referenced by an abandoned request
+	if lw.ctx.Err() == nil {
+		dfw.Finalize()
+	}
+}
+
+func (conn *Connection) handleRequestPanic(frame *RequestFrame, begin time.Time, lw *loopWriter) {
 	err := recover()
 	if err != nil {
 		const size = 64 << 10
@@ -568,13 +600,13 @@ func (conn *Connection) handleRequestPanic(frame *RequestFrame, begin time.Time)
 	s.reset()
 	if !s.IsSelfClosed() {
 		// send error frame
-		w := conn.getWriter()
+		w := newFrameWriter(lw)
 		w.StartWrite(frame.RequestID, 0, StreamRstFlag)
 		err := w.EndWrite()
 		if err != nil {
 			l.Debug("Connection.send error frame", zap.Any("frame", frame), zap.Error(err))
 		}
-		w.Finalize()
+		lw.finalize(w)
 	}
 }
 
@@ -618,6 +650,9 @@ func (conn *Connection) collectWriteFrames(batch int) error {
 firstFrame:
 	select {
 	case res = <-conn.writeFrameCh:
+		if res.ctx != nil && res.ctx.Err() != nil {
+			goto firstFrame
+		}
 		dfw = res.dfw
 		flags = dfw.Flags()
 		requestID = dfw.RequestID()
@@ -671,6 +706,9 @@ firstFrame:
 	for i := 0; i < batch; i++ {
 		select {
 		case res = <-conn.writeFrameCh:
+			if res.ctx != nil && res.ctx.Err() != nil {
+				break
+			}
 			dfw = res.dfw
 			flags = dfw.Flags()
 			requestID = dfw.RequestID()
diff --git a/serveconn.go b/serveconn.go
index 4b3b2e3..cfa405c 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -317,6 +317,7 @@ type readFrameResult struct {
 type writeFrameRequest struct {
 	dfw    *defaultFrameWriter
 	result chan error
+	ctx    context.Context // if not nil, the request is abandoned once ctx is done
 }
 
 // A gate lets two goroutines coordinate their activities.
-- 
2.43.0


From a2966e81c3c8b3cfa76e8f2861f823f9eef76989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 24/33] fix: a streamed frame nobody consumes no longer stalls
 the connection

---
 clientconn.go | 5 +++++
 serveconn.go  | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 7ffdace..3dd421f 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -499,6 +499,9 @@ func (conn *Connection) readFrames() {
 			// pushed frame
 			if conn.subscriber != nil {
 				conn.subscriber(conn, frame)
+			} else {
+				// nobody is going to consume the stream
+				frame.Stream.reset()
 			}
 
 			continue
@@ -541,6 +544,8 @@ func (conn *Connection) readFrames() {
 			}
 
 			l.Error("dangling resp", zap.Uint64("requestID", frame.RequestID))
+			// nobody is going to consume the stream
+			frame.Stream.reset()
 
 			continue
 		}
diff --git a/serveconn.go b/serveconn.go
index cfa405c..6d1987f 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -397,6 +397,9 @@ func (sc *serveconn) readFrames() (err error) {
 			// pushed frame
 			if binding.SubFunc != nil {
 				binding.SubFunc(ci, req)
+			} else {
+				// nobody is going to consume the stream
+				req.Stream.reset()
 			}
 
 			continue
-- 
2.43.0


From dc572b7b5d6de0f463ac943877335d7135461394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 25/33] fix: a write abandoned because its connection closed no
 longer shares its buffer with later writes

---
 clientconn.go  | 8 ++++++--
 framewriter.go | 7 +++++++
 serveconn.go   | 9 +++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 3dd421f..af71505 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -379,7 +379,7 @@ func (conn *Connection) getCodec() CompressorCodec {
 func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 
 	wfr := wfrPool.Get().(*writeFrameRequest)
-	wfr.dfw = dfw
+	wfr.capture(dfw)
 	// just in case
 	if len(wfr.result) > 0 {
 		<-wfr.result
@@ -403,6 +403,7 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 			wfrPool.Put(wfr)
 			return err
 		case <-conn.ctx.Done():
+			dfw.detach()
 			return conn.ctx.Err()
 		}
 	} else {
@@ -412,6 +413,7 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 			wfrPool.Put(wfr)
 			return err
 		case <-loopCtx.Done():
+			dfw.detach()
 			return loopCtx.Err()
 		}
 	}
@@ -568,7 +570,8 @@ type loopWriter struct {
 }
 
 func (lw *loopWriter) writeFrameBytes(dfw *defaultFrameWriter) error {
-	wfr := &writeFrameRequest{dfw: dfw, result: make(chan error, 1), ctx: lw.ctx}
+	wfr := &writeFrameRequest{result: make(chan error, 1), ctx: lw.ctx}
+	wfr.capture(dfw)
 
 	select {
 	case lw.writeFrameCh <- wfr:
@@ -580,6 +583,7 @@ func (lw *loopWriter) writeFrameBytes(dfw *defaultFrameWriter) error {
 	case err := <-wfr.result:
 		return err
 	case <-lw.ctx.Done():
+		dfw.detach()
 		return lw.ctx.Err()
 	}
 }
diff --git a/framewriter.go b/framewriter.go
index 56ed244..a7c46ee 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -47,6 +47,13 @@ func (dfw *defaultFrameWriter) Finalize() {
 	fwPool.Put(dfw)
 }
 
+// detach leaves the current buffer to an abandoned request
+func (dfw *defaultFrameWriter) detach() {
+	wbuf := make([]byte, headerSize, DefaultWBufSize)
+	copy(wbuf, dfw.wbuf)
+	dfw.wbuf = wbuf
+}
+
 // StartWrite Write the FrameHeader.
 func (dfw *defaultFrameWriter) StartWrite(requestID uint64, cmd Cmd, flags FrameFlag) {
 	// drop the payload of a previous frame that was started but never sent
diff --git a/serveconn.go b/serveconn.go
index 6d1987f..605141c 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -318,6 +318,15 @@ type writeFrameRequest struct {
 	dfw    *defaultFrameWriter
 	result chan error
 	ctx    context.Context // if not nil, the request is abandoned once ctx is done
+	frame  defaultFrameWriter
+}
+
+// capture makes the request independent of dfw, so that dfw can be used again
+// even if the request is abandoned while still in progress, see (*defaultFrameWriter).detach
+func (wfr *writeFrameRequest) capture(dfw *defaultFrameWriter) {
+	wfr.frame = *dfw
+	wfr.dfw = &wfr.frame
+	dfw.resp = nil
 }
 
 // A gate lets two goroutines coordinate their activities.
-- 
2.43.0


From 5584693d56c753cd9c39bac9882b3f6c2a89047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 26/33] fix: handlers of a client's first network connection
 find their connection

RequestFrame.Close, ClientConnectionInfo and StreamInitiator panicked in them,
because the context of the first connection lacked the ClientConnectionInfo.
---
 clientconn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index af71505..fb1f290 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -201,7 +201,7 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 
 	if rwc != nil {
 		// loopxxx should be paired with rwc
-		loopCtx, loopCancelCtx := context.WithCancel(ctx)
+		loopCtx, loopCancelCtx := context.WithCancel(c.ctx)
 		c.loopCancelCtx = loopCancelCtx
 		atomic.StorePointer((*unsafe.Pointer)((unsafe.Pointer)(&c.loopCtx)), unsafe.Pointer(&loopCtx))
 		c.loopBytesWriter = NewWriterWithTimeout(loopCtx, rwc, conf.WriteTimeout)
-- 
2.43.0


From a4346b03716f847b2f7b244a38ed50ac2bf50cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 27/33] fix: an answer read while its connection is closing is
 not handled as a request

---
 serveconn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index 605141c..54e66e8 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -415,6 +415,11 @@ func (sc *serveconn) readFrames() (err error) {
 		}
 		if req.FromServer() {
 			ci.Lock()
+			if ci.closed {
+				// an answer that is no longer waited for is not a request
+				ci.Unlock()
+				return ErrConnAlreadyClosed
+			}
 			if ci.respes != nil {
 				resp, ok := ci.respes[req.RequestID]
 				if ok {
-- 
2.43.0


From b40883fdf25daf61f4e1d03e163af589e4cc6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:14 +0000
Subject: [PATCH 28/33] fix: RequestFrame.Close in a client handler closes the
 connection of that request, completely

It closed whatever network connection was current, and the loop went on
unaware of it as long as the reader was held up by another stream.
---
 clientconn.go | 12 ++++++++++--
 frame.go      |  6 ++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index fb1f290..8d47a1b 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -184,6 +184,14 @@ type ClientConnectionInfo struct {
 	CC *Connection
 }
 
+// loopCancelKey is context key for the function that ends the loop of a network connection
+var loopCancelKey = &contextKey{"qrpc-loopcancel"}
+
+func newLoopCtx(ctx context.Context) (context.Context, context.CancelFunc) {
+	loopCtx, loopCancelCtx := context.WithCancel(ctx)
+	return context.WithValue(loopCtx, loopCancelKey, loopCancelCtx), loopCancelCtx
+}
+
 func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc, reconnect bool) *Connection {
 	ctx, cancelCtx := context.WithCancel(context.Background())
 
@@ -201,7 +209,7 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 
 	if rwc != nil {
 		// loopxxx should be paired with rwc
-		loopCtx, loopCancelCtx := context.WithCancel(c.ctx)
+		loopCtx, loopCancelCtx := newLoopCtx(c.ctx)
 		c.loopCancelCtx = loopCancelCtx
 		atomic.StorePointer((*unsafe.Pointer)((unsafe.Pointer)(&c.loopCtx)), unsafe.Pointer(&loopCtx))
 		c.loopBytesWriter = NewWriterWithTimeout(loopCtx, rwc, conf.WriteTimeout)
@@ -286,7 +294,7 @@ func (conn *Connection) connect() error {
 		if err != nil {
 			l.Error("connect DialTimeout", zap.Error(err))
 		} else {
-			ctx, cancelCtx := context.WithCancel(conn.ctx)
+			ctx, cancelCtx := newLoopCtx(conn.ctx)
 			conn.mu.Lock()
 			conn.rwc = rwc
 			atomic.StorePointer((*unsafe.Pointer)((unsafe.Pointer)(&conn.loopCtx)), unsafe.Pointer(&ctx))
diff --git a/frame.go b/frame.go
index 528bc3b..86d0b4a 100644
--- a/frame.go
+++ b/frame.go
@@ -80,13 +80,15 @@ func (r *RequestFrame) Close() error {
 		return ci.serveconn.Close()
 	}
 
-	cci, ok := r.Stream.ctx.Value(ClientConnectionInfoKey).(*ClientConnectionInfo)
+	_, ok := r.Stream.ctx.Value(ClientConnectionInfoKey).(*ClientConnectionInfo)
 	// this is for compatibility with old qrpc client
 	if !ok {
 		ci := r.Stream.ctx.Value(ConnectionInfoKey).(*ConnectionInfo)
 		return ci.serveconn.Close()
 	}
-	cci.CC.closeRWC()
+	// ends the loop of the network connection the request came from,
+	// which isn't necessarily the current one
+	r.Stream.ctx.Value(loopCancelKey).(context.CancelFunc)()
 	return nil
 
 }
-- 
2.43.0


From 6c7a7ec154944f16144c2975c26a55a445317104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:04 +0000
Subject: [PATCH 29/33] fix: server: don't reuse the buffer of a frame whose
 write was abandoned while it is still being written

---
 serveconn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index 54e66e8..14c638c 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -484,7 +484,7 @@ var wfrPool = sync.Pool{New: func() interface{} {
 
 func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 	wfr := wfrPool.Get().(*writeFrameRequest)
-	wfr.dfw = dfw
+	wfr.capture(dfw)
 	// just in case
 	if len(wfr.result) > 0 {
 		<-wfr.result
@@ -567,6 +567,8 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 		wfrPool.Put(wfr)
 		return err
 	case <-sc.ctx.Done():
+		// another goroutine may still be writing the frame
+		dfw.detach()
 		return sc.ctx.Err()
 	}
 
-- 
2.43.0


From 8fc9a9a1b32c1337708e8030ac109c7d436aa102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:35 +0000
Subject: [PATCH 30/33] fix: server: Shutdown could return before a connection
 accepted meanwhile was torn down

---
 server.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/server.go b/server.go
index 22679fa..257059e 100644
--- a/server.go
+++ b/server.go
@@ -322,6 +322,12 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 		}
 		tempDelay = 0
 
+		// Shutdown waits for rw from now on
+		if !srv.addConn() {
+			rw.Close()
+			return ErrServerClosed
+		}
+
 		if acceptCheckFunc != nil {
 			e = acceptCheckFunc(rw)
 			if e != nil {
@@ -330,6 +336,7 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 				if closeNotifyFunc != nil {
 					closeNotifyFunc(rw)
 				}
+				srv.wg.Done()
 				continue
 			}
 		}
@@ -338,6 +345,7 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 			c := srv.newConn(serveCtx, rw, idx)
 			c.serve()
 		})
+		srv.wg.Done()
 	}
 }
 
@@ -425,6 +433,17 @@ func (srv *Server) trackListener(ln net.Listener, idx int, add bool) bool {
 	return true
 }
 
+// addConn returns false if it is too late to serve another connection
+func (srv *Server) addConn() bool {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+	if srv.done {
+		return false
+	}
+	srv.wg.Add(1)
+	return true
+}
+
 // Create new connection from rwc.
 func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serveconn) {
 	sc = &serveconn{
-- 
2.43.0


From 00fd0962f5c42ff14f786ee37d64eb5773aea3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:51 +0000
Subject: [PATCH 31/33] fix: SetID: order numbers of concurrent kicks could be
 equal or contradict the order of the kicks

---
 server.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index 257059e..f5e836f 100644
--- a/server.go
+++ b/server.go
@@ -483,11 +483,15 @@ check:
 	srv.idMu.Lock()
 	if sc.IsClosed() {
 		// already untracked, so nobody would ever remove it again
+		ko = nextKickOrder(kick)
 		srv.idMu.Unlock()
-		ko = atomic.LoadUint64(&kickOrder)
 		return
 	}
 	v, loaded := srv.id2Conn[idx].LoadOrStore(id, sc)
+	if !loaded {
+		// still under the lock, so that orders agree with who came after whom
+		ko = nextKickOrder(kick)
+	}
 	srv.idMu.Unlock()
 
 	if loaded {
@@ -514,16 +518,21 @@ check:
 			srv.bindings[idx].CounterMetric.With(countlvs...).Add(1)
 		}
 
-		atomic.AddUint64(&kickOrder, 1)
 		kick = true
 
 		goto check
 	}
 
-	ko = atomic.LoadUint64(&kickOrder)
 	return
 }
 
+func nextKickOrder(kick bool) uint64 {
+	if kick {
+		return atomic.AddUint64(&kickOrder, 1)
+	}
+	return atomic.LoadUint64(&kickOrder)
+}
+
 func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	locked := atomic.CompareAndSwapUint32(&sc.untrack, 0, 1)
-- 
2.43.0


From c9ea1b46f845834d8cd48316262d2dee82174fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:06 +0000
Subject: [PATCH 32/33] fix: server: SetThrottle and ClearThrottle are safe for
 concurrent use

---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index f5e836f..fab1938 100644
--- a/server.go
+++ b/server.go
@@ -670,6 +670,9 @@ func (srv *Server) waitThrottle(idx int, doneCh <-chan struct{}) {
 
 // SetThrottle sets throttle on
 func (srv *Server) SetThrottle(idx int) {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v != nil {
 		// already on,do nothing
@@ -682,6 +685,9 @@ func (srv *Server) SetThrottle(idx int) {
 
 // ClearThrottle clears throttle onff
 func (srv *Server) ClearThrottle(idx int) {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v == nil {
 		return
-- 
2.43.0


From c68289756a2701376bd0415470f1c868a692dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:37 +0000
Subject: [PATCH 33/33] fix: channel Receive reports a stream that ended before
 any message as finished

---
 channel/clienttransport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index 60de0e9..58a4d38 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -120,6 +120,10 @@ func (s *clientSender) getFrame(ctx context.Context) (frame *qrpc.Frame, err err
 
 	if s.firstFrame == nil {
 		frame, err = s.resp.GetFrameWithContext(ctx)
+		if err == qrpc.ErrStreamClosed {
+			// the stream ended before any message
+			err = ErrStreamFinished
+		}
 		s.firstFrame = frame
 	} else {
 		select {
-- 
2.43.0

