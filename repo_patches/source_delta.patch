From 6dce71d48283ec74f58f9c7264a55f012faec616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 01/23] fix: accept UTF16 signals that carry a name but no
 payload

---
 message/parseSignalUtf16.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/message/parseSignalUtf16.go b/message/parseSignalUtf16.go
index 1998db8..e361bef 100644
--- a/message/parseSignalUtf16.go
+++ b/message/parseSignalUtf16.go
@@ -25,8 +25,13 @@ func (msg *Message) parseSignalUtf16() error {
 	// Read name length
 	nameLen := int(dat[1])
 
-	// Determine minimum required message length
-	minMsgSize := MinLenSignalUtf16 + nameLen
+	// Determine minimum required message length.
+	// There's at least a 2 byte header and a 2 byte payload expected
+	minMsgSize := MinLenSignalUtf16
+	if nameLen > 0 {
+		// ...unless a name is given, in which case the payload isn't required
+		minMsgSize = 2 + nameLen
+	}
 	payloadOffset := 2 + nameLen
 
 	// Check whether a name padding byte is to be expected
@@ -40,8 +45,7 @@ func (msg *Message) parseSignalUtf16() error {
 	// name length doesn't correspond to the actual name length
 	if msg.MsgBuffer.len < minMsgSize {
 		return fmt.Errorf(
-			"invalid signal message, too short for full name (%d) "+
-				"and the minimum payload (2)",
+			"invalid signal message, too short for full name (%d)",
 			nameLen,
 		)
 	}
-- 
2.43.0


From 63495fe67a07ece88a2d0e6088da98566fe10d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 02/23] fix: refuse to write signals without a name and a
 payload

---
 message/writeMsgSignal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/message/writeMsgSignal.go b/message/writeMsgSignal.go
index ac8fd9a..0fa6d9c 100644
--- a/message/writeMsgSignal.go
+++ b/message/writeMsgSignal.go
@@ -1,6 +1,7 @@
 package message
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -16,6 +17,17 @@ func WriteMsgSignal(
 	payloadData []byte,
 	safeMode bool,
 ) error {
+	// Require either a name, or a payload or both, but don't allow none
+	if len(name) < 1 && len(payloadData) < 1 {
+		initialErr := errors.New(
+			"signal message requires either a name, or a payload, or both",
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+
 	if len(name) > 255 {
 		initialErr := fmt.Errorf(
 			"unsupported request message name length: %d",
-- 
2.43.0


From 7dfdd161e4e67ba951ec4c27bc3f0aab58653d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 03/23] fix: detect buffer overflow when the last chunk comes
 with the end of the stream

---
 message/buffer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/message/buffer.go b/message/buffer.go
index f20508f..f0cabc5 100644
--- a/message/buffer.go
+++ b/message/buffer.go
@@ -32,9 +32,10 @@ func (buf *Buffer) Read(reader io.Reader) error {
 	cursor := 0
 	for {
 		if cursor >= len(buf.buf) {
-			// Expect EOF on full buffer
-			_, err := reader.Read(buf.buf)
-			if err != io.EOF {
+			// Expect EOF on full buffer, don't overwrite what was read already
+			var excess [1]byte
+			readBytes, err := reader.Read(excess[:])
+			if readBytes > 0 || err != io.EOF {
 				// Overflow! Discard the message that's bigger than the buffer
 				buf.Close()
 				io.Copy(ioutil.Discard, reader)
-- 
2.43.0


From a45610b5225031aefaebdc32a908d6eaaa054324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 04/23] fix: don't panic when closing a message that doesn't
 belong to a pool

---
 message/message.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index 5d04156..8d4add9 100644
--- a/message/message.go
+++ b/message/message.go
@@ -309,6 +309,8 @@ func (msg *Message) Close() {
 	msg.MsgPayload = pld.Payload{}
 	msg.ServerConfiguration = ServerConfiguration{}
 
-	// Call closure callback
-	msg.onClose()
+	// Call closure callback, messages that don't belong to a pool have none
+	if msg.onClose != nil {
+		msg.onClose()
+	}
 }
-- 
2.43.0


From a2fc49fe763506c09eba6992e6eab1f126b5017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 05/23] fix: don't retain fields of the previous message when
 reading into an unclosed message

---
 message/message.go | 17 +++++++++++------
 message/read.go    |  7 +++++++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/message/message.go b/message/message.go
index 8d4add9..09ded20 100644
--- a/message/message.go
+++ b/message/message.go
@@ -295,6 +295,16 @@ func (msg *Message) PayloadUtf8() ([]byte, error) {
 	return msg.MsgPayload.Utf8()
 }
 
+// resetFields resets everything that was parsed from the message buffer
+func (msg *Message) resetFields() {
+	msg.MsgType = 0
+	msg.MsgIdentifier = [8]byte{}
+	msg.MsgIdentifierBytes = nil
+	msg.MsgName = nil
+	msg.MsgPayload = pld.Payload{}
+	msg.ServerConfiguration = ServerConfiguration{}
+}
+
 // Close implements the Message interface
 func (msg *Message) Close() {
 	if msg.MsgBuffer.IsEmpty() {
@@ -302,12 +312,7 @@ func (msg *Message) Close() {
 	}
 
 	msg.MsgBuffer.Close()
-	msg.MsgType = 0
-	msg.MsgIdentifier = [8]byte{}
-	msg.MsgIdentifierBytes = nil
-	msg.MsgName = nil
-	msg.MsgPayload = pld.Payload{}
-	msg.ServerConfiguration = ServerConfiguration{}
+	msg.resetFields()
 
 	// Call closure callback, messages that don't belong to a pool have none
 	if msg.onClose != nil {
diff --git a/message/read.go b/message/read.go
index 6c18197..f25fa6d 100644
--- a/message/read.go
+++ b/message/read.go
@@ -14,7 +14,9 @@ func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
 		return false, errors.New("message buffer overflow")
 	}
 	if !msg.MsgBuffer.IsEmpty() {
+		// Don't retain anything from the previously read message
 		msg.MsgBuffer.Close()
+		msg.resetFields()
 	}
 	copy(msg.MsgBuffer.buf[:len(bytes)], bytes)
 	msg.MsgBuffer.len = len(bytes)
@@ -23,6 +25,11 @@ func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
 
 // Read reads and parses the message from the given reader
 func (msg *Message) Read(reader io.Reader) (typeParsed bool, err error) {
+	if !msg.MsgBuffer.IsEmpty() {
+		// Don't retain anything from the previously read message
+		msg.MsgBuffer.Close()
+		msg.resetFields()
+	}
 	if err := msg.MsgBuffer.Read(reader); err != nil {
 		return false, err
 	}
-- 
2.43.0


From b2d47b96ce3372b3fa245e9f59e305ae9034c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 06/23] fix: decode UTF16 surrogate pairs in Payload.Utf8

---
 payload/payload.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/payload/payload.go b/payload/payload.go
index 1c7292e..33d435f 100644
--- a/payload/payload.go
+++ b/payload/payload.go
@@ -21,13 +21,15 @@ func (pld *Payload) Utf8() ([]byte, error) {
 				"Cannot convert invalid UTF16 payload data to UTF8",
 			)
 		}
-		u16str := make([]uint16, 1)
+		// Decode all units at once, a character may consist of two of them
+		u16str := make([]uint16, len(pld.Data)/2)
+		for i := range u16str {
+			u16str[i] = uint16(pld.Data[i*2]) + (uint16(pld.Data[i*2+1]) << 8)
+		}
 		utf8str := &bytes.Buffer{}
-		utf8buf := make([]byte, 4)
-		for i := 0; i < len(pld.Data); i += 2 {
-			u16str[0] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
-			rn := utf16.Decode(u16str)
-			rnSize := utf8.EncodeRune(utf8buf, rn[0])
+		utf8buf := make([]byte, utf8.UTFMax)
+		for _, rn := range utf16.Decode(u16str) {
+			rnSize := utf8.EncodeRune(utf8buf, rn)
 			utf8str.Write(utf8buf[:rnSize])
 		}
 		return utf8str.Bytes(), nil
-- 
2.43.0


From 3c6862abd71ec6f54a63fea6ef91cea1b3355c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:04 +0000
Subject: [PATCH 07/23] fix: resolve pending requests atomically

---
 requestManager/requestManager.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index d739adb..dcb0d18 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -58,20 +58,26 @@ func (manager *RequestManager) deregister(identifier [8]byte) {
 	manager.lock.Unlock()
 }
 
+// take atomically removes and returns the request associated with the given
+// identifier. Returns nil if there's no such pending request
+func (manager *RequestManager) take(identifier [8]byte) *Request {
+	manager.lock.Lock()
+	req := manager.pending[identifier]
+	delete(manager.pending, identifier)
+	manager.lock.Unlock()
+	return req
+}
+
 // Fulfill fulfills the request associated with the given request identifier
 // with the provided reply payload.
 // Returns true if a pending request was fulfilled and deregistered,
 // otherwise returns false
 func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[msg.MsgIdentifier]
-	manager.lock.RUnlock()
-
-	if !exists {
+	req := manager.take(msg.MsgIdentifier)
+	if req == nil {
 		return false
 	}
 
-	manager.deregister(msg.MsgIdentifier)
 	req.Reply <- genericReply{
 		ReplyMsg: msg,
 	}
@@ -85,15 +91,11 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[identifier]
-	manager.lock.RUnlock()
-
-	if !exists {
+	req := manager.take(identifier)
+	if req == nil {
 		return false
 	}
 
-	manager.deregister(identifier)
 	req.Reply <- genericReply{
 		Error: err,
 	}
-- 
2.43.0


From 05a17bee9f003f25e24d5dd0946fa2db3843ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:38 +0000
Subject: [PATCH 08/23] fix: release the memchan writer when it's closed
 without any data written

---
 transport/memchan/buffer.go | 7 ++-----
 transport/memchan/socket.go | 5 +++++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index bb34082..0b53e8d 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -1,7 +1,6 @@
 package memchan
 
 import (
-	"errors"
 	"sync"
 
 	wwr "github.com/qbeon/webwire-go"
@@ -51,12 +50,10 @@ func (buf *Buffer) Write(p []byte) (int, error) {
 	return len(p), nil
 }
 
-// Close flushes the buffer to the reader
+// Close flushes the buffer to the reader. onFlush is also called when there's no
+// data to be flushed because it's responsible for releasing the writer
 func (buf *Buffer) Close() (err error) {
 	buf.lock.Lock()
-	if buf.len < 1 {
-		return errors.New("no data written")
-	}
 	err = buf.onFlush(buf.buf[:buf.len])
 	buf.reset()
 	buf.lock.Unlock()
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 1004bce..2e47f6a 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -69,6 +69,11 @@ type Socket struct {
 // reading and waits until it's finished reading eventually releasing the local
 // writer buffer
 func (sock *Socket) onBufferFlush(data []byte) (err error) {
+	if len(data) < 1 {
+		sock.writerLock.Unlock()
+		return errors.New("no data written")
+	}
+
 	if !sock.IsConnected() {
 		sock.writerLock.Unlock()
 		return errors.New("can't write to a closed socket")
-- 
2.43.0


From 25359c23635866d9db970ff0500a05bc7d25c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:41 +0000
Subject: [PATCH 09/23] fix: make closing a memchan connection safe at any
 point of a transmission

Closing one end while the other end writes or reads could panic with a send on a
closed channel, deadlock, or leave a writer waiting forever. Represent each
established connection by a link that's closed exactly once and let readers and
writers wait for either the other end or the closure of the link.
---
 transport/memchan/connection.go      |  66 ++++++++++++
 transport/memchan/entangleSockets.go |  12 +--
 transport/memchan/newSocket.go       |  10 +-
 transport/memchan/socket.go          | 144 +++++++++------------------
 transport/memchan/transport.go       |   2 +-
 5 files changed, 121 insertions(+), 113 deletions(-)
 create mode 100644 transport/memchan/connection.go

diff --git a/transport/memchan/connection.go b/transport/memchan/connection.go
new file mode 100644
index 0000000..ce5ed8a
--- /dev/null
+++ b/transport/memchan/connection.go
@@ -0,0 +1,66 @@
+package memchan
+
+import "sync"
+
+// link represents an established connection between two entangled sockets
+type link struct {
+	// closed is closed when the connection is closed
+	closed chan struct{}
+
+	// toServer and toClient pass data from a writer to the remote reader
+	toServer chan []byte
+	toClient chan []byte
+}
+
+// inbound returns the channel the given socket is to read from
+func (lnk *link) inbound(sock *Socket) chan []byte {
+	if sock.sockType == SocketServer {
+		return lnk.toServer
+	}
+	return lnk.toClient
+}
+
+// connection represents the connection state shared by two entangled sockets
+type connection struct {
+	lock sync.Mutex
+
+	// link is nil if the sockets are disconnected
+	link *link
+}
+
+// current returns the current link, or nil if the sockets are disconnected
+func (conn *connection) current() *link {
+	conn.lock.Lock()
+	lnk := conn.link
+	conn.lock.Unlock()
+	return lnk
+}
+
+// open establishes a new link and returns true, or returns false if the sockets
+// are already connected
+func (conn *connection) open() bool {
+	conn.lock.Lock()
+	defer conn.lock.Unlock()
+	if conn.link != nil {
+		return false
+	}
+	conn.link = &link{
+		closed:   make(chan struct{}),
+		toServer: make(chan []byte),
+		toClient: make(chan []byte),
+	}
+	return true
+}
+
+// close closes the given link and returns true, or returns false if it's not the
+// current one
+func (conn *connection) close(lnk *link) bool {
+	conn.lock.Lock()
+	defer conn.lock.Unlock()
+	if conn.link != lnk {
+		return false
+	}
+	close(lnk.closed)
+	conn.link = nil
+	return true
+}
diff --git a/transport/memchan/entangleSockets.go b/transport/memchan/entangleSockets.go
index ba618c8..71db555 100644
--- a/transport/memchan/entangleSockets.go
+++ b/transport/memchan/entangleSockets.go
@@ -2,10 +2,10 @@ package memchan
 
 // entangleSockets connects two sockets
 func entangleSockets(server, client *Socket) {
-	if server.status != nil {
+	if server.conn != nil {
 		panic("the server socket is already entangled")
 	}
-	if client.status != nil {
+	if client.conn != nil {
 		panic("the server socket is already entangled")
 	}
 
@@ -17,8 +17,8 @@ func entangleSockets(server, client *Socket) {
 	server.remote = client
 	client.remote = server
 
-	// Initialize shared status
-	status := statusDisconnected
-	server.status = &status
-	client.status = &status
+	// Initialize shared connection state
+	conn := &connection{}
+	server.conn = conn
+	client.conn = conn
 }
diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index cbd7afa..39ac9a8 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -17,12 +17,10 @@ func newSocket(server *Transport, bufferSize uint32) *Socket {
 		server:     server,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
 		readerErr:  make(chan error),
 		readTimer:  readTimer,
 		remote:     nil,
-		status:     nil,
+		conn:       nil,
 	}
 
 	// Allocate the outbound buffer
@@ -41,18 +39,14 @@ func newDisconnectedSocket() *Socket {
 	readTimer := time.NewTimer(0)
 	<-readTimer.C
 
-	status := statusDisconnected
-
 	socket := &Socket{
 		sockType:   SocketClient,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
 		readerErr:  make(chan error),
 		readTimer:  readTimer,
 		remote:     nil,
-		status:     &status,
+		conn:       &connection{},
 	}
 
 	// Allocate the outbound buffer
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 2e47f6a..c28ca19 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -6,16 +6,12 @@ import (
 	"io"
 	"net"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	wwr "github.com/qbeon/webwire-go"
 	"github.com/qbeon/webwire-go/message"
 )
 
-const statusConnected uint32 = 1
-const statusDisconnected uint32 = 2
-
 // SocketType represents the type of a socket
 type SocketType uint
 
@@ -40,8 +36,8 @@ type Socket struct {
 	// remote references the remote socket
 	remote *Socket
 
-	// status represents the connection status
-	status *uint32
+	// conn is the connection state shared by both entangled sockets
+	conn *connection
 
 	// readTimer enables reader timeout. It's started when the reader is applied
 	// a deadline and cleared when it finished reading
@@ -57,11 +53,14 @@ type Socket struct {
 	// onFlush callback must be connected to the sockets
 	outboundBuffer Buffer
 
-	// reader is the data receiving channel to the reader goroutine. It must be
-	// triggered as soon as any data is received
-	reader     chan []byte
-	readerErr  chan error
-	readerLock *sync.Mutex
+	// writerLink is the link the current writer was acquired for. It's protected
+	// by writerLock
+	writerLink *link
+
+	// readerErr is used by the reader to confirm to the remote writer that it
+	// finished reading the received data. The reader sends exactly one
+	// confirmation for each data it received
+	readerErr chan error
 }
 
 // onBufferFlush is a slot method that's called by the outbound buffer's onFlush
@@ -74,13 +73,15 @@ func (sock *Socket) onBufferFlush(data []byte) (err error) {
 		return errors.New("no data written")
 	}
 
-	if !sock.IsConnected() {
+	// Pass the data to the remote reader unless the connection is closed
+	lnk := sock.writerLink
+	select {
+	case <-lnk.closed:
 		sock.writerLock.Unlock()
 		return errors.New("can't write to a closed socket")
-	}
 
-	// Notify the remote reader about the new message
-	sock.remote.writeReader(data)
+	case lnk.inbound(sock.remote) <- data:
+	}
 
 	// Wait for the remote reader to finish reading
 	err = <-sock.remote.readerErr
@@ -107,17 +108,10 @@ func (sock *Socket) Dial(deadline time.Time) error {
 		return errors.New("connection refused")
 	}
 
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusDisconnected,
-		statusConnected,
-	) {
+	if !sock.conn.open() {
 		return errors.New("socket already connected")
 	}
 
-	sock.resetReader()
-	sock.remote.resetReader()
-
 	// Execute server callback
 	return sock.server.onConnect(sock, connOpts)
 }
@@ -127,7 +121,8 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 	sock.writerLock.Lock()
 
 	// Check connection status
-	if !sock.IsConnected() {
+	sock.writerLink = sock.conn.current()
+	if sock.writerLink == nil {
 		sock.writerLock.Unlock()
 		return nil, wwr.ErrDisconnected{
 			Cause: fmt.Errorf("can't write to a closed socket"),
@@ -139,49 +134,21 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 	return &sock.outboundBuffer, nil
 }
 
-func (sock *Socket) getReader() chan []byte {
-	sock.readerLock.Lock()
-	reader := sock.reader
-	sock.readerLock.Unlock()
-	return reader
-}
-
-func (sock *Socket) writeReader(data []byte) {
-	sock.readerLock.Lock()
-	sock.reader <- data
-	sock.readerLock.Unlock()
-}
-
-// closeReader closes the current reader
-func (sock *Socket) closeReader() {
-	sock.readerLock.Lock()
-	close(sock.reader)
-	sock.readerLock.Unlock()
-}
-
-// resetReader resets the socket reader
-func (sock *Socket) resetReader() {
-	sock.readerLock.Lock()
-	sock.reader = make(chan []byte, 1)
-	sock.readerLock.Unlock()
-}
-
-func (sock *Socket) readWithoutDeadline() (
+func (sock *Socket) readWithoutDeadline(lnk *link) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
 	// Await either a message or remote/local socket closure
-	data = <-sock.getReader()
-
-	if data == nil {
-		// Socket closed
+	select {
+	case <-lnk.closed:
 		return nil, ErrSockRead{closed: true}
-	}
 
-	return data, nil
+	case data = <-lnk.inbound(sock):
+		return data, nil
+	}
 }
 
-func (sock *Socket) readWithDeadline(deadline time.Time) (
+func (sock *Socket) readWithDeadline(lnk *link, deadline time.Time) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
@@ -193,13 +160,11 @@ func (sock *Socket) readWithDeadline(deadline time.Time) (
 		// Deadline exceeded
 		err = ErrSockRead{err: errors.New("read deadline exceeded")}
 
-	case result := <-sock.getReader():
-		if result == nil {
-			// Socket closed
-			err = ErrSockRead{closed: true}
-		} else {
-			data = result
-		}
+	case <-lnk.closed:
+		// Socket closed
+		err = ErrSockRead{closed: true}
+
+	case data = <-lnk.inbound(sock):
 	}
 
 	sock.readTimer.Stop()
@@ -216,7 +181,8 @@ func (sock *Socket) Read(
 	sock.readLock.Lock()
 
 	// Check connection status
-	if !sock.IsConnected() {
+	lnk := sock.conn.current()
+	if lnk == nil {
 		sock.readLock.Unlock()
 		return ErrSockRead{closed: true}
 	}
@@ -224,20 +190,20 @@ func (sock *Socket) Read(
 	var data []byte
 	if deadline.IsZero() {
 		// No deadline
-		data, err = sock.readWithoutDeadline()
+		data, err = sock.readWithoutDeadline(lnk)
 	} else {
 		// Set deadline
-		data, err = sock.readWithDeadline(deadline)
+		data, err = sock.readWithDeadline(lnk, deadline)
 	}
 
 	if err != nil {
-		sock.Close()
+		sock.closeLink(lnk)
 		sock.readLock.Unlock()
 		return err
 	}
 
 	// Try to read the socket into the message buffer and release the remote
-	// writer by sending nil to the sock.reader channel
+	// writer by sending nil to the readerErr channel
 	typeParsed, parseErr := msg.ReadBytes(data)
 	if parseErr != nil {
 		sock.readerErr <- nil
@@ -257,7 +223,7 @@ func (sock *Socket) Read(
 
 // IsConnected implements the transport.Socket interface
 func (sock *Socket) IsConnected() bool {
-	return atomic.LoadUint32(sock.status) == statusConnected
+	return sock.conn.current() != nil
 }
 
 // RemoteAddr implements the transport.Socket interface
@@ -271,39 +237,21 @@ func (sock *Socket) RemoteAddr() net.Addr {
 
 // Close implements the transport.Socket interface
 func (sock *Socket) Close() error {
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusConnected,
-		statusDisconnected,
-	) {
-		return nil
-	}
-
-	// Close remote reader and writer
-	sock.remote.closeReader()
-
-	// Fail any currently active writer
-	select {
-	case sock.remote.readerErr <- errors.New("socket closed"):
-	default:
-	}
+	sock.closeLink(sock.conn.current())
+	return nil
+}
 
-	// Send reader confirmation if any remote writer is currently awaiting
-	// the local reader to finish
-	select {
-	case sock.readerErr <- errors.New("socket closed"):
-	default:
+// closeLink closes the connection if the given link is still the current one.
+// It cancels all readers and writers which aren't currently exchanging data
+func (sock *Socket) closeLink(lnk *link) {
+	if lnk == nil || !sock.conn.close(lnk) {
+		return
 	}
 
-	// Close the local reader
-	sock.closeReader()
-
 	// Execute server callback
 	if sock.sockType == SocketClient {
 		sock.server.onDisconnect(sock.remote)
 	} else {
 		sock.server.onDisconnect(sock)
 	}
-
-	return nil
 }
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index fd84727..da0893c 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -109,7 +109,7 @@ func (srv *Transport) onConnect(
 		return errors.New("server is closed")
 	}
 
-	if clientSocket.remote == nil || clientSocket.status == nil {
+	if clientSocket.remote == nil || clientSocket.conn == nil {
 		return errors.New("uninitialized socket")
 	}
 
-- 
2.43.0


From 033ca7e2b6f69b47626da4dba13706aae5fc4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 10/23] fix: establish and shut down memchan connections
 atomically

A refused Dial left the client socket connected, a Dial concurrent to Shutdown
could establish a connection that outlived the transport, and a failing Close
unlocked an unlocked mutex.
---
 transport/memchan/connection.go | 30 +++++++++++++---------
 transport/memchan/socket.go     | 28 +++++++++-----------
 transport/memchan/transport.go  | 45 +++++++++++++++++++--------------
 3 files changed, 56 insertions(+), 47 deletions(-)

diff --git a/transport/memchan/connection.go b/transport/memchan/connection.go
index ce5ed8a..e1a2693 100644
--- a/transport/memchan/connection.go
+++ b/transport/memchan/connection.go
@@ -1,6 +1,9 @@
 package memchan
 
-import "sync"
+import (
+	"errors"
+	"sync"
+)
 
 // link represents an established connection between two entangled sockets
 type link struct {
@@ -36,31 +39,34 @@ func (conn *connection) current() *link {
 	return lnk
 }
 
-// open establishes a new link and returns true, or returns false if the sockets
-// are already connected
-func (conn *connection) open() bool {
+// open establishes a new link unless the sockets are already connected or onOpen
+// fails. onOpen is executed atomically with the change of the state
+func (conn *connection) open(onOpen func() error) error {
 	conn.lock.Lock()
 	defer conn.lock.Unlock()
 	if conn.link != nil {
-		return false
+		return errors.New("socket already connected")
+	}
+	if err := onOpen(); err != nil {
+		return err
 	}
 	conn.link = &link{
 		closed:   make(chan struct{}),
 		toServer: make(chan []byte),
 		toClient: make(chan []byte),
 	}
-	return true
+	return nil
 }
 
-// close closes the given link and returns true, or returns false if it's not the
-// current one
-func (conn *connection) close(lnk *link) bool {
+// close closes the given link if it's the current one. onClose is executed
+// atomically with the change of the state
+func (conn *connection) close(lnk *link, onClose func()) {
 	conn.lock.Lock()
 	defer conn.lock.Unlock()
-	if conn.link != lnk {
-		return false
+	if lnk == nil || conn.link != lnk {
+		return
 	}
 	close(lnk.closed)
 	conn.link = nil
-	return true
+	onClose()
 }
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index c28ca19..d455336 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -108,12 +108,10 @@ func (sock *Socket) Dial(deadline time.Time) error {
 		return errors.New("connection refused")
 	}
 
-	if !sock.conn.open() {
-		return errors.New("socket already connected")
-	}
-
-	// Execute server callback
-	return sock.server.onConnect(sock, connOpts)
+	// Establish the connection and execute the server callback
+	return sock.conn.open(func() error {
+		return sock.server.onConnect(sock, connOpts)
+	})
 }
 
 // GetWriter implements the transport.Socket interface
@@ -244,14 +242,12 @@ func (sock *Socket) Close() error {
 // closeLink closes the connection if the given link is still the current one.
 // It cancels all readers and writers which aren't currently exchanging data
 func (sock *Socket) closeLink(lnk *link) {
-	if lnk == nil || !sock.conn.close(lnk) {
-		return
-	}
-
-	// Execute server callback
-	if sock.sockType == SocketClient {
-		sock.server.onDisconnect(sock.remote)
-	} else {
-		sock.server.onDisconnect(sock)
-	}
+	sock.conn.close(lnk, func() {
+		// Execute server callback
+		if sock.sockType == SocketClient {
+			sock.server.onDisconnect(sock.remote)
+		} else {
+			sock.server.onDisconnect(sock)
+		}
+	})
 }
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index da0893c..168cf6d 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -66,23 +66,30 @@ func (srv *Transport) Serve() error {
 
 // Shutdown implements the Transport interface
 func (srv *Transport) Shutdown() error {
-	if atomic.CompareAndSwapUint32(&srv.status, serverActive, serverClosed) {
-		close(srv.shutdown)
-		srv.connectionsLock.Lock()
-		conns := make([]*Socket, len(srv.connections))
-		index := 0
-		for sock := range srv.connections {
-			conns[index] = sock
-			index++
-		}
+	if atomic.LoadUint32(&srv.status) != serverActive {
+		return nil
+	}
+
+	// Change the status while the connections are locked to ensure that no new
+	// connection is registered after the registered ones are collected
+	srv.connectionsLock.Lock()
+	if !atomic.CompareAndSwapUint32(&srv.status, serverActive, serverClosed) {
 		srv.connectionsLock.Unlock()
+		return nil
+	}
+	close(srv.shutdown)
+	conns := make([]*Socket, len(srv.connections))
+	index := 0
+	for sock := range srv.connections {
+		conns[index] = sock
+		index++
+	}
+	srv.connectionsLock.Unlock()
 
-		// Close all connections
-		for _, sock := range conns {
-			if err := sock.Close(); err != nil {
-				srv.connectionsLock.Unlock()
-				return fmt.Errorf("couldn't close socket %p: %s", sock, err)
-			}
+	// Close all connections
+	for _, sock := range conns {
+		if err := sock.Close(); err != nil {
+			return fmt.Errorf("couldn't close socket %p: %s", sock, err)
 		}
 	}
 	return nil
@@ -105,15 +112,15 @@ func (srv *Transport) onConnect(
 		return errors.New("server is shutting down")
 	}
 
-	if atomic.LoadUint32(&srv.status) != serverActive {
-		return errors.New("server is closed")
-	}
-
 	if clientSocket.remote == nil || clientSocket.conn == nil {
 		return errors.New("uninitialized socket")
 	}
 
 	srv.connectionsLock.Lock()
+	if atomic.LoadUint32(&srv.status) != serverActive {
+		srv.connectionsLock.Unlock()
+		return errors.New("server is closed")
+	}
 	srv.connections[clientSocket.remote] = clientSocket
 	srv.connectionsLock.Unlock()
 
-- 
2.43.0


From d1ce1c9fc37927568879cc658b6258a545d95ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 11/23] fix: reply to requests whose result can't be sent

A payload or error message exceeding the message buffer, an odd UTF16 payload or
an invalid error code left the client without any reply. Reply with an internal
error instead.
---
 failMsg.go            | 48 +++++++++++++++++++++++++++++++++----------
 fulfillMsg.go         | 33 ++++++++++++++++++++++++++++-
 message/calcMsgLen.go | 17 +++++++++++++++
 3 files changed, 86 insertions(+), 12 deletions(-)

diff --git a/failMsg.go b/failMsg.go
index 95d6feb..d409336 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -1,9 +1,29 @@
 package webwire
 
 import (
+	"fmt"
+
 	"github.com/qbeon/webwire-go/message"
 )
 
+// verifyRequestError returns an error if the given request error can't be sent
+// in an error reply
+func (srv *server) verifyRequestError(code, msg string) error {
+	if len(code) < 1 || len(code) > 255 {
+		return fmt.Errorf("invalid error code length: %d", len(code))
+	}
+	for i := 0; i < len(code); i++ {
+		if code[i] < 32 || code[i] > 126 {
+			return fmt.Errorf("unsupported character in error code: %q", code)
+		}
+	}
+	if uint64(message.CalcMsgLenReplyError([]byte(code), []byte(msg))) >
+		uint64(srv.options.MessageBufferSize) {
+		return ErrBufferOverflow{}
+	}
+	return nil
+}
+
 // failMsg fails the message returning an error reply
 func (srv *server) failMsg(
 	con *connection,
@@ -16,6 +36,23 @@ func (srv *server) failMsg(
 		return
 	}
 
+	if err, isPtr := reqErr.(*ErrRequest); isPtr && err != nil {
+		reqErr = *err
+	}
+
+	// Send an internal error if the request error can't be sent, the client
+	// would otherwise never receive a reply
+	if err, isReqErr := reqErr.(ErrRequest); isReqErr {
+		if err := srv.verifyRequestError(err.Code, err.Message); err != nil {
+			srv.errorLog.Printf(
+				"couldn't send error reply message for connection %p: %s",
+				con,
+				err,
+			)
+			reqErr = nil
+		}
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
@@ -38,17 +75,6 @@ func (srv *server) failMsg(
 			srv.errorLog.Println("couldn't write error reply message: ", err)
 			return
 		}
-	case *ErrRequest:
-		if err := message.WriteMsgReplyError(
-			writer,
-			msg.MsgIdentifierBytes,
-			[]byte(err.Code),
-			[]byte(err.Message),
-			true,
-		); err != nil {
-			srv.errorLog.Println("couldn't write error reply message: ", err)
-			return
-		}
 	case ErrMaxSessConnsReached:
 		if err := message.WriteMsgSpecialRequestReply(
 			writer,
diff --git a/fulfillMsg.go b/fulfillMsg.go
index f4cad1f..2a6606c 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -1,6 +1,25 @@
 package webwire
 
-import "github.com/qbeon/webwire-go/message"
+import (
+	"fmt"
+
+	"github.com/qbeon/webwire-go/message"
+)
+
+// verifyReply returns an error if the given payload can't be sent in a reply
+func (srv *server) verifyReply(payload Payload) error {
+	if payload.Encoding == EncodingUtf16 && len(payload.Data)%2 != 0 {
+		return fmt.Errorf(
+			"invalid UTF16 reply payload data length: %d",
+			len(payload.Data),
+		)
+	}
+	if uint64(message.CalcMsgLenReply(payload.Encoding, payload.Data)) >
+		uint64(srv.options.MessageBufferSize) {
+		return ErrBufferOverflow{}
+	}
+	return nil
+}
 
 // fulfillMsg fulfills the message sending the reply
 func (srv *server) fulfillMsg(
@@ -8,6 +27,18 @@ func (srv *server) fulfillMsg(
 	msg *message.Message,
 	replyPayload Payload,
 ) {
+	// Fail the request if the reply can't be sent, the client would otherwise
+	// never receive a reply
+	if err := srv.verifyReply(replyPayload); err != nil {
+		srv.errorLog.Printf(
+			"couldn't send reply message for connection %p: %s",
+			con,
+			err,
+		)
+		srv.failMsg(con, msg, nil)
+		return
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
diff --git a/message/calcMsgLen.go b/message/calcMsgLen.go
index 5e787a2..40d5f2f 100644
--- a/message/calcMsgLen.go
+++ b/message/calcMsgLen.go
@@ -27,3 +27,20 @@ func CalcMsgLenRequest(
 	}
 	return 10 + len(name) + len(payload)
 }
+
+// CalcMsgLenReply returns the size of a reply message with the given payload
+func CalcMsgLenReply(
+	encoding pld.Encoding,
+	payload []byte,
+) int {
+	if encoding == pld.Utf16 {
+		return 10 + len(payload)
+	}
+	return 9 + len(payload)
+}
+
+// CalcMsgLenReplyError returns the size of an error reply message with the given
+// error code and error message
+func CalcMsgLenReplyError(code, message []byte) int {
+	return 10 + len(code) + len(message)
+}
-- 
2.43.0


From e77dc9ab84a8841ed7ac52542c801a3635e53aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 12/23] fix: don't handle messages received during the shutdown

Signals were still handled without being accounted for, which made the number of
operations underflow and the server panic or never finish shutting down. Rejected
messages kept their handler slot forever.
---
 registerHandler.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/registerHandler.go b/registerHandler.go
index b52f6aa..cf4040d 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -14,8 +14,6 @@ func (srv *server) registerHandler(
 	con *connection,
 	msg *message.Message,
 ) bool {
-	failMsg := false
-
 	if !con.IsActive() {
 		return false
 	}
@@ -27,18 +25,21 @@ func (srv *server) registerHandler(
 
 	srv.opsLock.Lock()
 	if srv.shutdown {
-		// defer failure due to shutdown of either the server or the connection
-		failMsg = true
-	} else {
-		srv.currentOps++
-	}
-	srv.opsLock.Unlock()
+		srv.opsLock.Unlock()
 
-	if failMsg && msg.RequiresReply() {
-		// Don't process the message, fail it
-		srv.failMsgShutdown(con, msg)
+		// Release the handler slot, no handler will be executed
+		if con.options.ConcurrencyLimit > 1 {
+			con.handlerSlots.Release(1)
+		}
+
+		// Don't process the message. Fail requests, ignore anything else
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
 		return false
 	}
+	srv.currentOps++
+	srv.opsLock.Unlock()
 
 	con.registerTask()
 	return true
-- 
2.43.0


From 4980c3d606c9174272f80a78e87cdbf46f02520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:01 +0000
Subject: [PATCH 13/23] fix: don't use a missing writer when failing requests
 during the shutdown

---
 failMsg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/failMsg.go b/failMsg.go
index d409336..730dbac 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -135,6 +135,7 @@ func (srv *server) failMsgShutdown(con *connection, msg *message.Message) {
 			con,
 			err,
 		)
+		return
 	}
 
 	if err := message.WriteMsgSpecialRequestReply(
-- 
2.43.0


From 7d66330bdf5cf8c364c534bc01e57c642233d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:25 +0000
Subject: [PATCH 14/23] fix: register handlers and close connections atomically

A message received while the connection was being closed could be handled after
its closure and unlink the connection a second time, racing with the first one.
Requests received on a closing connection are now failed like those received
during a server shutdown, as documented.
---
 connection.go      | 11 ++++++++---
 registerHandler.go | 10 +++-------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/connection.go b/connection.go
index f07bd6c..f8ca09b 100644
--- a/connection.go
+++ b/connection.go
@@ -92,11 +92,16 @@ func (con *connection) IsActive() bool {
 
 }
 
-// registerTask increments the number of currently executed tasks
-func (con *connection) registerTask() {
+// registerTask increments the number of currently executed tasks and returns
+// true, or returns false if the connection is closed
+func (con *connection) registerTask() bool {
 	con.stateLock.Lock()
+	defer con.stateLock.Unlock()
+	if !con.isActive {
+		return false
+	}
 	con.tasks++
-	con.stateLock.Unlock()
+	return true
 }
 
 // deregisterTask decrements the number of currently executed tasks
diff --git a/registerHandler.go b/registerHandler.go
index cf4040d..d00f1ab 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -14,17 +14,13 @@ func (srv *server) registerHandler(
 	con *connection,
 	msg *message.Message,
 ) bool {
-	if !con.IsActive() {
-		return false
-	}
-
 	// Acquire handler slot if the number of concurrent handlers is limited
 	if con.options.ConcurrencyLimit > 1 {
 		con.handlerSlots.Acquire(context.Background(), 1)
 	}
 
 	srv.opsLock.Lock()
-	if srv.shutdown {
+	if srv.shutdown || !con.registerTask() {
 		srv.opsLock.Unlock()
 
 		// Release the handler slot, no handler will be executed
@@ -32,7 +28,8 @@ func (srv *server) registerHandler(
 			con.handlerSlots.Release(1)
 		}
 
-		// Don't process the message. Fail requests, ignore anything else
+		// Don't process the message due to shutdown of either the server or the
+		// connection. Fail requests, ignore anything else
 		if msg.RequiresReply() {
 			srv.failMsgShutdown(con, msg)
 		}
@@ -41,6 +38,5 @@ func (srv *server) registerHandler(
 	srv.currentOps++
 	srv.opsLock.Unlock()
 
-	con.registerTask()
 	return true
 }
-- 
2.43.0


From af2954b664e443ebffb9bc5c8768e342ec187161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 15/23] fix: only remove a session's own connections from the
 registry

Deregistering a connection that doesn't hold a session removed the session of its
only connection. A panicking OnSessionClosed hook panicked the server because the
registry's server reference was missing, and its error wasn't logged.
---
 newServer.go       |  3 ++-
 sessionRegistry.go | 65 +++++++++++++++++++++++++---------------------
 2 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/newServer.go b/newServer.go
index 53018ae..7e2f878 100644
--- a/newServer.go
+++ b/newServer.go
@@ -77,10 +77,11 @@ func NewServer(
 			if err := srv.sessionManager.OnSessionClosed(
 				sessionKey,
 			); err != nil {
-				srv.errorLog.Printf("session registry ")
+				srv.errorLog.Printf("OnSessionClosed hook failed: %s", err)
 			}
 		},
 	)
+	srv.sessionRegistry.server = srv
 
 	// Initialize the transport layer
 	if err := transport.Initialize(
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 6276b9c..8f9c931 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -74,41 +74,48 @@ func (asr *sessionRegistry) deregister(
 		return -1
 	}
 
+	key := conn.session.Key
+	left := asr.remove(conn, key)
+	if left == 0 && destroy {
+		asr.destroy(key)
+	}
+	return left
+}
+
+// remove removes a connection from the list of connections of the session
+// identified by the given key and returns the number of connections left.
+// Returns -1 if the connection isn't on the list
+func (asr *sessionRegistry) remove(conn *connection, key string) int {
 	asr.lock.Lock()
-	if connSet, exists := asr.registry[conn.session.Key]; exists {
-		// If a single connection is left then remove or destroy the session
-		if len(connSet) < 2 {
-			delete(asr.registry, conn.session.Key)
-			asr.lock.Unlock()
+	defer asr.lock.Unlock()
 
-			// Destroy the session
-			if destroy {
-				// Recover potential user-space hook panics
-				// to avoid panicking the server
-				defer func() {
-					if recvErr := recover(); recvErr != nil {
-						asr.server.errorLog.Printf(
-							"session closure hook panic: %v",
-							recvErr,
-						)
-					}
-				}()
+	connSet := asr.registry[key]
+	if _, registered := connSet[conn]; !registered {
+		return -1
+	}
 
-				asr.onSessionDestroy(conn.session.Key)
-			}
+	// Find and remove the client from the connections list and remove the
+	// session if it was the last one
+	delete(connSet, conn)
+	if len(connSet) < 1 {
+		delete(asr.registry, key)
+	}
+	return len(connSet)
+}
 
-			return 0
+// destroy executes the session manager hook OnSessionClosed
+func (asr *sessionRegistry) destroy(key string) {
+	// Recover potential user-space hook panics to avoid panicking the server
+	defer func() {
+		if recvErr := recover(); recvErr != nil && asr.server != nil {
+			asr.server.errorLog.Printf(
+				"session closure hook panic: %v",
+				recvErr,
+			)
 		}
+	}()
 
-		// Find and remove the client from the connections list
-		delete(connSet, conn)
-		connSetLen := len(connSet)
-		asr.lock.Unlock()
-		return connSetLen
-	}
-
-	asr.lock.Unlock()
-	return -1
+	asr.onSessionDestroy(key)
 }
 
 // activeSessionsNum returns the number of currently active sessions
-- 
2.43.0


From 454aea0fdb140cfe173a5d9c369235f5df55406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 16/23] fix: assign and release sessions atomically with their
 registration

A session was assigned to a connection and registered in separate steps:
restoring a session on a connection that already had one left it registered
for both, concurrent restorations could panic the server when the limit of
connections was exceeded between the check and the registration, a connection
that closed meanwhile kept its session registered forever, and failures to
register a created session were ignored.
---
 connection.go           | 86 ++++++++++++++++++++++++++++++-----------
 handleSessionClosure.go | 18 ++-------
 handleSessionRestore.go | 34 +++++++++-------
 3 files changed, 88 insertions(+), 50 deletions(-)

diff --git a/connection.go b/connection.go
index f8ca09b..c01ea9f 100644
--- a/connection.go
+++ b/connection.go
@@ -46,6 +46,10 @@ type connection struct {
 	// session references the currently assigned session, can be null
 	session *Session
 
+	// unlinked is set when the connection is unlinked. No session can be
+	// assigned to an unlinked connection. It's protected by sessionLock
+	unlinked bool
+
 	// info represents overall connection information
 	info info
 }
@@ -122,23 +126,63 @@ func (con *connection) deregisterTask() {
 	}
 }
 
-// setSession sets a new session for this client
-func (con *connection) setSession(newSess *Session) {
-	con.sessionLock.Lock()
+// attachSession assigns a session to the connection and registers it in the
+// active sessions registry. The currently assigned session, if any, is
+// deregistered but not destroyed. sessionLock must be held by the caller
+func (con *connection) attachSession(newSess *Session) error {
+	if con.unlinked {
+		return ErrDisconnected{
+			Cause: errors.New("can't assign a session to a closed connection"),
+		}
+	}
+
+	prev := con.session
 	con.session = newSess
+	if prev != nil && prev.Key == newSess.Key {
+		// Already registered
+		return nil
+	}
+	if err := con.srv.sessionRegistry.register(con); err != nil {
+		con.session = prev
+		return err
+	}
+	if prev != nil {
+		con.srv.sessionRegistry.remove(con, prev.Key)
+	}
+	return nil
+}
+
+// detachSession resets the session of the connection, deregisters it from the
+// active sessions registry and returns true. Returns false if there's no session
+// assigned. If destroy is true and this was the last connection of the session
+// then the session is destroyed
+func (con *connection) detachSession(destroy bool) bool {
+	con.sessionLock.Lock()
+	sess := con.session
+	if sess == nil {
+		con.sessionLock.Unlock()
+		return false
+	}
+	con.session = nil
+	left := con.srv.sessionRegistry.remove(con, sess.Key)
 	con.sessionLock.Unlock()
+
+	if left == 0 && destroy {
+		con.srv.sessionRegistry.destroy(sess.Key)
+	}
+	return true
 }
 
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
-	// Deregister session from active sessions registry, but don't destroy it
-	con.srv.sessionRegistry.deregister(con, false)
-
 	con.sessionLock.Lock()
-	con.session = nil
+	con.unlinked = true
 	con.sessionLock.Unlock()
 
+	// Deregister session from active sessions registry, but don't destroy it
+	con.detachSession(false)
+
 	// Close connection
 	con.sock.Close()
 }
@@ -206,29 +250,33 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 
 	// Abort if there's already another active session
 	if con.session != nil {
+		key := con.session.Key
 		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Another session (%s) on this client is already active",
-			con.session.Key,
+			key,
 		)
 	}
 
 	// Create a new session
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
+	// Register the session
+	if err := con.attachSession(&newSession); err != nil {
+		con.sessionLock.Unlock()
+		return err
+	}
+
 	// Try to notify about session creation
 	if err := con.notifySessionCreated(&newSession); err != nil {
+		con.session = nil
+		con.srv.sessionRegistry.remove(con, newSession.Key)
 		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
 			err,
 		)
 	}
-
-	// Register the session
-	con.session = &newSession
-
-	con.srv.sessionRegistry.register(con)
 	con.sessionLock.Unlock()
 
 	// Call session creation hook
@@ -285,17 +333,11 @@ func (con *connection) CloseSession() error {
 		return ErrSessionsDisabled{}
 	}
 
-	con.sessionLock.Lock()
-	if con.session == nil {
-		con.sessionLock.Unlock()
-		return nil
-	}
-
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
-	con.srv.sessionRegistry.deregister(con, true)
-	con.session = nil
-	con.sessionLock.Unlock()
+	if !con.detachSession(true) {
+		return nil
+	}
 
 	return con.notifySessionClosed()
 }
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 139cc8a..bf7a369 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -23,21 +23,11 @@ func (srv *server) handleSessionClosure(
 		return
 	}
 
-	if !con.HasSession() {
-		// Send confirmation even though no session was closed
-		srv.fulfillMsg(con, msg, Payload{})
-		finalize()
-		return
-	}
-
-	// Deregister session from active sessions registry destroying it if it's
-	// the last connection left
-	srv.sessionRegistry.deregister(con, true)
-
-	// Reset the session on the connection
-	con.setSession(nil)
+	// Reset the session on the connection and deregister it from active
+	// sessions registry destroying it if it's the last connection left
+	con.detachSession(true)
 
-	// Send confirmation
+	// Send confirmation even if no session was closed
 	srv.fulfillMsg(con, msg, Payload{})
 	finalize()
 }
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index e3c3726..556aff1 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -2,7 +2,6 @@ package webwire
 
 import (
 	"encoding/json"
-	"fmt"
 
 	"github.com/qbeon/webwire-go/message"
 )
@@ -83,25 +82,32 @@ func (srv *server) handleSessionRestore(
 		parsedSessInfo = srv.sessionInfoParser(sessionInfo)
 	}
 
-	con.setSession(&Session{
+	reply := Payload{
+		Encoding: EncodingUtf8,
+		Data:     encodedSession,
+	}
+	if err := srv.verifyReply(reply); err != nil {
+		srv.failMsg(con, msg, nil)
+		finalize()
+		srv.errorLog.Printf("couldn't send restored session: %s", err)
+		return
+	}
+
+	con.sessionLock.Lock()
+	err = con.attachSession(&Session{
 		Key:        key,
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
 	})
-	if err := srv.sessionRegistry.register(con); err != nil {
-		panic(fmt.Errorf("the number of concurrent session connections was " +
-			"unexpectedly exceeded",
-		))
+	con.sessionLock.Unlock()
+	if err != nil {
+		// The number of concurrent session connections was reached meanwhile
+		srv.failMsg(con, msg, ErrMaxSessConnsReached{})
+		finalize()
+		return
 	}
 
-	srv.fulfillMsg(
-		con,
-		msg,
-		Payload{
-			Encoding: EncodingUtf8,
-			Data:     encodedSession,
-		},
-	)
+	srv.fulfillMsg(con, msg, reply)
 	finalize()
 }
-- 
2.43.0


From f28ae201a0a724a4c0b5359a33cf2de09d16e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 17/23] fix: don't restore a session that is being destroyed

A session that was looked up just before its last connection closed it (or
while the closure hook was still running) was restored after it had been
destroyed, and destroyed again when it was closed.
---
 connection.go           | 23 +++++++----
 handleSessionRestore.go | 14 ++++++-
 sessionRegistry.go      | 91 ++++++++++++++++++++++++++++++++++++++---
 3 files changed, 112 insertions(+), 16 deletions(-)

diff --git a/connection.go b/connection.go
index c01ea9f..14ad2c4 100644
--- a/connection.go
+++ b/connection.go
@@ -127,9 +127,13 @@ func (con *connection) deregisterTask() {
 }
 
 // attachSession assigns a session to the connection and registers it in the
-// active sessions registry. The currently assigned session, if any, is
-// deregistered but not destroyed. sessionLock must be held by the caller
-func (con *connection) attachSession(newSess *Session) error {
+// active sessions registry using the given function. The currently assigned
+// session, if any, is deregistered but not destroyed.
+// sessionLock must be held by the caller
+func (con *connection) attachSession(
+	newSess *Session,
+	register func(*connection) error,
+) error {
 	if con.unlinked {
 		return ErrDisconnected{
 			Cause: errors.New("can't assign a session to a closed connection"),
@@ -142,12 +146,12 @@ func (con *connection) attachSession(newSess *Session) error {
 		// Already registered
 		return nil
 	}
-	if err := con.srv.sessionRegistry.register(con); err != nil {
+	if err := register(con); err != nil {
 		con.session = prev
 		return err
 	}
 	if prev != nil {
-		con.srv.sessionRegistry.remove(con, prev.Key)
+		con.srv.sessionRegistry.remove(con, prev.Key, false)
 	}
 	return nil
 }
@@ -164,7 +168,7 @@ func (con *connection) detachSession(destroy bool) bool {
 		return false
 	}
 	con.session = nil
-	left := con.srv.sessionRegistry.remove(con, sess.Key)
+	left := con.srv.sessionRegistry.remove(con, sess.Key, destroy)
 	con.sessionLock.Unlock()
 
 	if left == 0 && destroy {
@@ -262,7 +266,10 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
 	// Register the session
-	if err := con.attachSession(&newSession); err != nil {
+	if err := con.attachSession(
+		&newSession,
+		con.srv.sessionRegistry.register,
+	); err != nil {
 		con.sessionLock.Unlock()
 		return err
 	}
@@ -270,7 +277,7 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	// Try to notify about session creation
 	if err := con.notifySessionCreated(&newSession); err != nil {
 		con.session = nil
-		con.srv.sessionRegistry.remove(con, newSession.Key)
+		con.srv.sessionRegistry.remove(con, newSession.Key, false)
 		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index 556aff1..6b9bfff 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -35,6 +35,9 @@ func (srv *server) handleSessionRestore(
 		return
 	}
 
+	// Detect the session being destroyed while it's being restored
+	defer srv.sessionRegistry.beginRestoration(key)()
+
 	// Call session manager lookup hook
 	result, err := srv.sessionManager.OnSessionLookup(key)
 
@@ -99,9 +102,16 @@ func (srv *server) handleSessionRestore(
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
-	})
+	}, srv.sessionRegistry.registerRestored)
 	con.sessionLock.Unlock()
-	if err != nil {
+	switch err.(type) {
+	case nil:
+	case ErrSessionNotFound:
+		// The session was destroyed meanwhile
+		srv.failMsg(con, msg, err)
+		finalize()
+		return
+	default:
 		// The number of concurrent session connections was reached meanwhile
 		srv.failMsg(con, msg, ErrMaxSessConnsReached{})
 		finalize()
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 8f9c931..39303c3 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -12,9 +12,20 @@ type sessionRegistry struct {
 	lock             *sync.RWMutex
 	maxConns         uint
 	registry         map[string]map[*connection]struct{}
+	transitions      map[string]*sessionTransition
 	onSessionDestroy func(sessionKey string)
 }
 
+// sessionTransition represents the restorations and destructions of a session
+// that are currently in progress
+type sessionTransition struct {
+	restorations int
+	destructions int
+
+	// destroyed is set when the session was destroyed during the restorations
+	destroyed bool
+}
+
 // newSessionRegistry returns a new instance of a session registry.
 // maxConns defines the maximum number of concurrent connections
 // for a single session while zero stands for unlimited
@@ -26,6 +37,7 @@ func newSessionRegistry(
 		lock:             &sync.RWMutex{},
 		maxConns:         maxConns,
 		registry:         make(map[string]map[*connection]struct{}),
+		transitions:      make(map[string]*sessionTransition),
 		onSessionDestroy: onSessionDestroy,
 	}
 }
@@ -35,10 +47,15 @@ func newSessionRegistry(
 // the maximum number of concurrent connections
 func (asr *sessionRegistry) register(con *connection) error {
 	asr.lock.Lock()
+	defer asr.lock.Unlock()
+	return asr.add(con)
+}
+
+// add registers the connection. asr.lock must be held by the caller
+func (asr *sessionRegistry) add(con *connection) error {
 	if connSet, exists := asr.registry[con.session.Key]; exists {
 		// Ensure max connections isn't exceeded
 		if asr.maxConns > 0 && uint(len(connSet)+1) > asr.maxConns {
-			asr.lock.Unlock()
 			return fmt.Errorf(
 				"Max conns (%d) reached for session %s",
 				asr.maxConns,
@@ -48,17 +65,61 @@ func (asr *sessionRegistry) register(con *connection) error {
 		// Overwrite the current entry incrementing the number of connections
 		connSet[con] = struct{}{}
 		asr.registry[con.session.Key] = connSet
-		asr.lock.Unlock()
 		return nil
 	}
 	newList := map[*connection]struct{}{
 		con: {},
 	}
 	asr.registry[con.session.Key] = newList
-	asr.lock.Unlock()
 	return nil
 }
 
+// transition returns the ongoing transition of the given session.
+// asr.lock must be held by the caller
+func (asr *sessionRegistry) transition(key string) *sessionTransition {
+	trans := asr.transitions[key]
+	if trans == nil {
+		trans = &sessionTransition{}
+		asr.transitions[key] = trans
+	}
+	return trans
+}
+
+// cleanup drops the transition of the given session if it's finished.
+// asr.lock must be held by the caller
+func (asr *sessionRegistry) cleanup(key string, trans *sessionTransition) {
+	if trans.restorations < 1 && trans.destructions < 1 {
+		delete(asr.transitions, key)
+	}
+}
+
+// beginRestoration must be called before looking up a session to be restored.
+// The returned function must be called when the restoration is finished
+func (asr *sessionRegistry) beginRestoration(key string) (end func()) {
+	asr.lock.Lock()
+	defer asr.lock.Unlock()
+	trans := asr.transition(key)
+	trans.restorations++
+	return func() {
+		asr.lock.Lock()
+		defer asr.lock.Unlock()
+		trans.restorations--
+		asr.cleanup(key, trans)
+	}
+}
+
+// registerRestored registers a new connection for the restored session of the
+// given client. Returns ErrSessionNotFound if the session was destroyed since
+// the beginning of the restoration
+func (asr *sessionRegistry) registerRestored(con *connection) error {
+	asr.lock.Lock()
+	defer asr.lock.Unlock()
+	if asr.transition(con.session.Key).destroyed {
+		return ErrSessionNotFound{}
+	}
+	return asr.add(con)
+}
+
 // deregister removes a connection from the list of connections of a session
 // and returns the number of connections left.
 // If there's only one connection left then the entire session will be removed
@@ -75,7 +136,7 @@ func (asr *sessionRegistry) deregister(
 	}
 
 	key := conn.session.Key
-	left := asr.remove(conn, key)
+	left := asr.remove(conn, key, destroy)
 	if left == 0 && destroy {
 		asr.destroy(key)
 	}
@@ -84,8 +145,13 @@ func (asr *sessionRegistry) deregister(
 
 // remove removes a connection from the list of connections of the session
 // identified by the given key and returns the number of connections left.
-// Returns -1 if the connection isn't on the list
-func (asr *sessionRegistry) remove(conn *connection, key string) int {
+// Returns -1 if the connection isn't on the list. If destroy is set to true and
+// no connections are left then the caller must destroy the session
+func (asr *sessionRegistry) remove(
+	conn *connection,
+	key string,
+	destroy bool,
+) int {
 	asr.lock.Lock()
 	defer asr.lock.Unlock()
 
@@ -99,12 +165,25 @@ func (asr *sessionRegistry) remove(conn *connection, key string) int {
 	delete(connSet, conn)
 	if len(connSet) < 1 {
 		delete(asr.registry, key)
+		if destroy {
+			trans := asr.transition(key)
+			trans.destructions++
+			trans.destroyed = true
+		}
 	}
 	return len(connSet)
 }
 
 // destroy executes the session manager hook OnSessionClosed
 func (asr *sessionRegistry) destroy(key string) {
+	defer func() {
+		asr.lock.Lock()
+		defer asr.lock.Unlock()
+		trans := asr.transition(key)
+		trans.destructions--
+		asr.cleanup(key, trans)
+	}()
+
 	// Recover potential user-space hook panics to avoid panicking the server
 	defer func() {
 		if recvErr := recover(); recvErr != nil && asr.server != nil {
-- 
2.43.0


From eacbb0cd85ffadbd0a0393c1a831e5f2a20741b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 18/23] fix: close a session by key on the connections that
 hold it, and only there

Server.CloseSession closed whatever session the listed connections had by the
time it got to them, and missed connections that restored it meanwhile.
---
 connection.go           | 25 +++++++++++++++++--------
 handleSessionClosure.go |  2 +-
 server.go               | 34 +++++++++++++++++-----------------
 3 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/connection.go b/connection.go
index 14ad2c4..40a4650 100644
--- a/connection.go
+++ b/connection.go
@@ -158,12 +158,13 @@ func (con *connection) attachSession(
 
 // detachSession resets the session of the connection, deregisters it from the
 // active sessions registry and returns true. Returns false if there's no session
-// assigned. If destroy is true and this was the last connection of the session
-// then the session is destroyed
-func (con *connection) detachSession(destroy bool) bool {
+// assigned, or if it's not the one identified by the given key (any session if
+// the key is empty). If destroy is true and this was the last connection of the
+// session then the session is destroyed
+func (con *connection) detachSession(key string, destroy bool) bool {
 	con.sessionLock.Lock()
 	sess := con.session
-	if sess == nil {
+	if sess == nil || (key != "" && sess.Key != key) {
 		con.sessionLock.Unlock()
 		return false
 	}
@@ -185,7 +186,7 @@ func (con *connection) unlink() {
 	con.sessionLock.Unlock()
 
 	// Deregister session from active sessions registry, but don't destroy it
-	con.detachSession(false)
+	con.detachSession("", false)
 
 	// Close connection
 	con.sock.Close()
@@ -340,13 +341,21 @@ func (con *connection) CloseSession() error {
 		return ErrSessionsDisabled{}
 	}
 
+	_, err := con.closeSession("")
+	return err
+}
+
+// closeSession closes the session identified by the given key, or the current
+// session if the key is empty, and notifies the client. Returns false if the
+// connection doesn't have that session
+func (con *connection) closeSession(key string) (bool, error) {
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
-	if !con.detachSession(true) {
-		return nil
+	if !con.detachSession(key, true) {
+		return false, nil
 	}
 
-	return con.notifySessionClosed()
+	return true, con.notifySessionClosed()
 }
 
 // HasSession implements the Connection interface
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index bf7a369..aaf1895 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -25,7 +25,7 @@ func (srv *server) handleSessionClosure(
 
 	// Reset the session on the connection and deregister it from active
 	// sessions registry destroying it if it's the last connection left
-	con.detachSession(true)
+	con.detachSession("", true)
 
 	// Send confirmation even if no session was closed
 	srv.fulfillMsg(con, msg, Payload{})
diff --git a/server.go b/server.go
index 4cf3014..ee01133 100644
--- a/server.go
+++ b/server.go
@@ -91,25 +91,25 @@ func (srv *server) CloseSession(sessionKey string) (
 	errors []error,
 	generalError error,
 ) {
-	connections := srv.sessionRegistry.sessionConnections(sessionKey)
-
-	errors = make([]error, len(connections))
-	if connections == nil {
-		return nil, nil, nil
-	}
-	affectedConnections = make([]Connection, len(connections))
-	i := 0
 	errNum := 0
-	for _, connection := range connections {
-		affectedConnections[i] = connection
-		err := connection.CloseSession()
-		if err != nil {
-			errors[i] = err
-			errNum++
-		} else {
-			errors[i] = nil
+
+	// Repeat until no connection was affected because the session could be
+	// restored on other connections meanwhile
+	for affected := true; affected; {
+		affected = false
+		for _, con := range srv.sessionRegistry.sessionConnections(sessionKey) {
+			closed, err := con.(*connection).closeSession(sessionKey)
+			if !closed {
+				// Already disconnected or in possession of another session
+				continue
+			}
+			affected = true
+			affectedConnections = append(affectedConnections, con)
+			errors = append(errors, err)
+			if err != nil {
+				errNum++
+			}
 		}
-		i++
 	}
 
 	if errNum > 0 {
-- 
2.43.0


From 1d40eab1573fda5768e1234f4b1999383c5a51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 19/23] fix: don't access files outside the session directory

The path of a session file was composed from the key the client sent, which
could contain path separators and parent directory references.
---
 defaultSessionManager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 05921ab..2d3d434 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 	"time"
@@ -90,9 +91,10 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	}
 }
 
-// filePath generates an absolute session file path given the session key
+// filePath generates an absolute session file path given the session key.
+// The key is escaped because it's potentially chosen by a client
 func (mng *DefaultSessionManager) filePath(sessionKey string) string {
-	return filepath.Join(mng.path, sessionKey+".wwrsess")
+	return filepath.Join(mng.path, url.PathEscape(sessionKey)+".wwrsess")
 }
 
 // OnSessionCreated implements the session manager interface.
-- 
2.43.0


From 263b4f7c64b910453d4318cb68af358a604efbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 20/23] fix: synchronize the file accesses of the default
 session manager

A session closed during its lookup was written again, a session closed or
disconnected before it was saved panicked, and concurrent lookups could read
a partially written file.
---
 defaultSessionManager.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 2d3d434..203cdfe 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -7,6 +7,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"sync"
 	"time"
 )
 
@@ -45,6 +46,7 @@ func (sessf *sessionFile) Save(filePath string) error {
 // It uses files as a persistent storage
 type DefaultSessionManager struct {
 	path string
+	lock sync.Mutex
 }
 
 // NewDefaultSessionManager constructs a new default session manager instance.
@@ -100,13 +102,20 @@ func (mng *DefaultSessionManager) filePath(sessionKey string) string {
 // OnSessionCreated implements the session manager interface.
 // It writes the created session into a file using the session key as file name
 func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	sess := conn.Session()
+	if sess == nil {
+		// Don't write the file after the session was closed
+		return fmt.Errorf("session already closed")
+	}
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
 		LastLookup: sess.LastLookup,
 		Info:       SessionInfoToVarMap(sess.Info),
 	}
-	return sessFile.Save(mng.filePath(conn.SessionKey()))
+	return sessFile.Save(mng.filePath(sess.Key))
 }
 
 // OnSessionLookup implements the session manager interface.
@@ -116,6 +125,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 	SessionLookupResult,
 	error,
 ) {
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	path := mng.filePath(key)
 
 	// Lookup session file
@@ -161,6 +173,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 // OnSessionClosed implements the session manager interface.
 // It closes the session by deleting the according session file
 func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	if err := os.Remove(mng.filePath(sessionKey)); err != nil {
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
-- 
2.43.0


From 88a710b9e05460e008747ec09e7b5f231bf76b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 21/23] fix: don't lose a session when updating its file fails

---
 defaultSessionManager.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 203cdfe..05993cf 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -36,7 +36,14 @@ func (sessf *sessionFile) Save(filePath string) error {
 	if err != nil {
 		return fmt.Errorf("Couldn't marshal session file: %s", err)
 	}
-	if err := ioutil.WriteFile(filePath, encoded, 0640); err != nil {
+	// Replace the file atomically to not lose the session if writing fails
+	tmpPath := filePath + ".tmp"
+	if err := ioutil.WriteFile(tmpPath, encoded, 0640); err != nil {
+		os.Remove(tmpPath)
+		return fmt.Errorf("Couldn't write session file: %s", err)
+	}
+	if err := os.Rename(tmpPath, filePath); err != nil {
+		os.Remove(tmpPath)
 		return fmt.Errorf("Couldn't write session file: %s", err)
 	}
 	return nil
-- 
2.43.0


From e4c757544f4ff3c7f3a123ecce33510f0acff39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 22/23] fix: create the session directory with search
 permission

---
 defaultSessionManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 05993cf..70836f7 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -79,7 +79,7 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	_, err := os.Stat(sessFilesPath)
 	if os.IsNotExist(err) {
 		// Create the directory if it doesn't exist yet
-		if err := os.MkdirAll(sessFilesPath, 0640); err != nil {
+		if err := os.MkdirAll(sessFilesPath, 0750); err != nil {
 			panic(fmt.Errorf(
 				"Couldn't create default session directory ('%s'): %s",
 				sessFilesPath,
-- 
2.43.0


From 35bceb547fbec43da7711878c9c425eb3c22b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 23/23] fix: don't retain ended connections in the server

The list of connections was never read and never shortened, so every
connection, its socket and its session stayed in memory as long as the
server.
---
 handleConnection.go | 4 ----
 newServer.go        | 2 --
 server.go           | 2 --
 3 files changed, 8 deletions(-)

diff --git a/handleConnection.go b/handleConnection.go
index e84988f..5c41718 100644
--- a/handleConnection.go
+++ b/handleConnection.go
@@ -52,10 +52,6 @@ func (srv *server) handleConnection(
 		connectionOptions,
 	)
 
-	srv.connectionsLock.Lock()
-	srv.connections = append(srv.connections, connection)
-	srv.connectionsLock.Unlock()
-
 	// Call hook on successful connection
 	srv.impl.OnClientConnected(connectionOptions, connection)
 
diff --git a/newServer.go b/newServer.go
index 7e2f878..7a942a6 100644
--- a/newServer.go
+++ b/newServer.go
@@ -63,8 +63,6 @@ func NewServer(
 		shutdownRdy:       make(chan bool),
 		currentOps:        0,
 		opsLock:           &sync.Mutex{},
-		connections:       make([]*connection, 0),
-		connectionsLock:   &sync.Mutex{},
 		sessionsEnabled:   sessionsEnabled,
 		messagePool:       message.NewSyncPool(opts.MessageBufferSize, 1024),
 		warnLog:           opts.WarnLog,
diff --git a/server.go b/server.go
index ee01133..9398771 100644
--- a/server.go
+++ b/server.go
@@ -24,8 +24,6 @@ type server struct {
 	shutdownRdy       chan bool
 	currentOps        uint32
 	opsLock           *sync.Mutex
-	connectionsLock   *sync.Mutex
-	connections       []*connection
 	sessionsEnabled   bool
 	sessionRegistry   *sessionRegistry
 	messagePool       message.Pool
-- 
2.43.0

