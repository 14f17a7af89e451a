From afd7769290fbe4d3378bc3b17ddcc67837abfb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 01/51] fix: decode item lengths that need two or three length
 bytes

---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index a6f2671..65a70bf 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -143,7 +143,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	var length int
 	for i, b := range lengthBytes {
 		shift := (lengthBytesCount - i - 1) * 8
-		length += int(b << shift)
+		length += int(b) << shift
 	}
 	p.pos += lengthBytesCount
 
-- 
2.43.0


From b7f7099e47e90ec28787bef41d4ed01813b42e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 02/51] fix: refuse truncated items, trailing bytes and
 oversized item lengths when decoding

---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 65a70bf..4000955 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -57,7 +57,8 @@ func Parse(input []byte) (msg ast.HSMSMessage, ok bool) {
 		}
 	}()
 
-	p := &parser{input: input}
+	// Limit the capacity, so that nothing behind the message can be read
+	p := &parser{input: input[:len(input):len(input)]}
 	if ok := p.parseMessageLength(); !ok {
 		return p.msg, false
 	}
@@ -107,7 +108,7 @@ func (p *parser) parseMessage() (ok bool) {
 		sessionID := int(binary.BigEndian.Uint16(headerBytes[:2]))
 		systemBytes := headerBytes[6:10]
 		dataItem, ok := p.parseMessageText()
-		if !ok {
+		if !ok || p.pos != len(p.input) {
 			return false
 		}
 		p.msg = ast.NewHSMSDataMessage("", stream, function, waitBit, "H<->E", dataItem, sessionID, systemBytes)
@@ -115,6 +116,9 @@ func (p *parser) parseMessage() (ok bool) {
 
 	case sTypeSelectReq, sTypeSelectRsp, sTypeDeselectReq, sTypeDeselectRsp,
 		sTypeLinktestReq, sTypeLinktestRsp, sTypeRejectReq, sTypeSeparateReq:
+		if p.msgLength != 10 { // Control messages have no message text
+			return false
+		}
 		p.msg = ast.NewHSMSControlMessage(headerBytes)
 		return true
 
@@ -147,6 +151,11 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	}
 	p.pos += lengthBytesCount
 
+	// Each value and each list element takes at least one byte of the input
+	if length > len(p.input)-p.pos {
+		return ast.NewEmptyItemNode(), false
+	}
+
 	switch formatCode {
 	case formatCodeList:
 		values := make([]interface{}, length)
-- 
2.43.0


From 14683c0d922200e81dbb91bef1275f1d4625fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 03/51] fix: decode long ASCII items in linear time

---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 4000955..2c18306 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -168,10 +168,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-		var str string
-		for _, v := range p.input[p.pos : p.pos+length] {
-			str += string(v)
-		}
+		str := string(p.input[p.pos : p.pos+length])
 		p.pos += length
 		return ast.NewASCIINode(str), true
 
-- 
2.43.0


From 47f7c41e1e68e51cbb21cd31cd9b2ced4d23e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 04/51] fix: build reject messages from the rejected message,
 with its system bytes

---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index b1a6d17..6dfdbac 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -205,13 +205,16 @@ func NewHSMSMessageRejectReq(sessionID uint16, pType, sType byte, systemBytes []
 	return &ControlMessage{header}
 }
 
+// NewHSMSMessageRejectReqFromMsg creates HSMS Reject.req control message from the
+// message being rejected, which can be any complete HSMS message.
 func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMSMessage {
-	if rejectReq.Type() != "Reject.req" {
-		panic("expected Reject.req message")
+	received := rejectReq.ToBytes()
+	if len(received) < 14 {
+		panic("expected a complete HSMS message")
 	}
 
 	header := make([]byte, 10)
-	msg, _ := rejectReq.(*ControlMessage)
+	msg := &ControlMessage{received[4:14]}
 	header[0] = msg.header[0]
 	header[1] = msg.header[1]
 	if reasonCode == 2 {
@@ -221,10 +224,10 @@ func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMS
 	}
 	header[3] = reasonCode
 	header[5] = sTypeRejectReq
-	header[6] = msg.header[0]
-	header[7] = msg.header[1]
-	header[8] = msg.header[2]
-	header[9] = msg.header[3]
+	header[6] = msg.header[6]
+	header[7] = msg.header[7]
+	header[8] = msg.header[8]
+	header[9] = msg.header[9]
 
 	return &ControlMessage{header}
 }
-- 
2.43.0


From 836745a1372b31b65f06cb432a30c720df76ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 05/51] fix: remove the given callback from an event, and let
 callbacks use the event

---
 common/events.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/common/events.go b/common/events.go
index fee60da..d5b8105 100644
--- a/common/events.go
+++ b/common/events.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"sync"
+	"unsafe"
 )
 
 // Event represents a class to handle the callbacks for a single event.
@@ -24,20 +25,30 @@ func (e *Event) RemoveCallback(callback func(data map[string]interface{})) {
 	defer e.mutex.Unlock()
 
 	for i, cb := range e.callbacks {
-		if &cb == &callback {
+		if sameCallback(cb, callback) {
 			// Remove the callback by copying the slice without the element at index i.
-			e.callbacks = append(e.callbacks[:i], e.callbacks[i+1:]...)
+			e.callbacks = append(e.callbacks[:i:i], e.callbacks[i+1:]...)
 			return
 		}
 	}
 }
 
+// sameCallback reports whether a and b are the same function value. It compares
+// the references the values consist of, since closures made by one function
+// literal share their code.
+func sameCallback(a, b func(data map[string]interface{})) bool {
+	return *(*unsafe.Pointer)(unsafe.Pointer(&a)) == *(*unsafe.Pointer)(unsafe.Pointer(&b))
+}
+
 // Fire raises the event and calls all callbacks.
+//
+// The callbacks are called without the lock, so that they can use the event.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
+	callbacks := append([]func(data map[string]interface{}){}, e.callbacks...)
+	e.mutex.Unlock()
 
-	for _, callback := range e.callbacks {
+	for _, callback := range callbacks {
 		callback(data)
 	}
 }
-- 
2.43.0


From d58473bf13bc8f1f467deb81c15a800937a9208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 06/51] fix: do not lose the notification of an item put just
 before a getter waits

---
 utils/queue.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/utils/queue.go b/utils/queue.go
index e063378..aa62ed6 100644
--- a/utils/queue.go
+++ b/utils/queue.go
@@ -14,7 +14,7 @@ type Deque struct {
 }
 
 func NewDeque() *Deque {
-	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{})}
+	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{}, 1)}
 }
 
 func (s *Deque) Put(item interface{}) {
@@ -38,18 +38,25 @@ func (s *Deque) Get(timeout int) (interface{}, error) {
 		}
 		remaining := endTime.Sub(time.Now())
 		s.Unlock()
-		if remaining < 0 {
+		if remaining <= 0 {
 			return nil, errors.New("time out in Get")
 		}
 		select {
 		case <-s.notEmptyNotify:
 		case <-time.After(remaining):
-			return nil, errors.New("time out in Get")
+			// An item may have arrived at the same moment
 		}
 		s.Lock()
 	}
 	lastContainerItem = s.container.Back()
 	item = s.container.Remove(lastContainerItem)
+	if s.container.Len() > 0 {
+		// The notification of several items may have been consumed at once
+		select {
+		case s.notEmptyNotify <- struct{}{}:
+		default:
+		}
+	}
 	s.Unlock()
 	return item, nil
 }
-- 
2.43.0


From 0444e5ab4864cd5ae6ebc9d3d6bcbb73482fb4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 07/51] fix: run close callbacks that are added while the
 session closes, without holding its lock

---
 session.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/session.go b/session.go
index a010324..494afc7 100644
--- a/session.go
+++ b/session.go
@@ -24,6 +24,7 @@ type Session struct {
 	closeMutex         sync.Mutex
 	firstCloseCallback *closeCallback
 	lastCloseCallback  *closeCallback
+	closeInvoked       bool
 
 	State interface{}
 }
@@ -169,13 +170,16 @@ type closeCallback struct {
 }
 
 func (session *Session) AddCloseCallback(handler, key interface{}, callback func()) {
-	if session.IsClosed() {
-		return
-	}
-
 	session.closeMutex.Lock()
 	defer session.closeMutex.Unlock()
 
+	// The callbacks of a closed session have been taken, so nobody would run
+	// this one any more. It runs on its own, as the others did.
+	if session.closeInvoked {
+		go callback()
+		return
+	}
+
 	newItem := &closeCallback{handler, key, callback, nil}
 
 	if session.firstCloseCallback == nil {
@@ -212,9 +216,15 @@ func (session *Session) RemoveCloseCallback(handler, key interface{}) {
 
 func (session *Session) invokeCloseCallbacks() {
 	session.closeMutex.Lock()
-	defer session.closeMutex.Unlock()
-
-	for callback := session.firstCloseCallback; callback != nil; callback = callback.Next {
+	first := session.firstCloseCallback
+	session.firstCloseCallback = nil
+	session.lastCloseCallback = nil
+	session.closeInvoked = true
+	session.closeMutex.Unlock()
+
+	// Callbacks take locks of their own, such as that of a channel whose owner
+	// may be waiting for closeMutex, so they run without it.
+	for callback := first; callback != nil; callback = callback.Next {
 		callback.Func()
 	}
 }
-- 
2.43.0


From 52d97bc0b3cfe480e188ae272956a4ba3268b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 08/51] fix: drop a closed session from a channel, and not the
 one that took its key

---
 channel.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index 225436c..0837de7 100644
--- a/channel.go
+++ b/channel.go
@@ -48,7 +48,7 @@ func (channel *Channel) Put(key KEY, session *Session) {
 		channel.remove(key, session)
 	}
 	session.AddCloseCallback(channel, key, func() {
-		channel.Remove(key)
+		channel.removeClosed(key, session)
 	})
 	channel.sessions[key] = session
 }
@@ -58,6 +58,16 @@ func (channel *Channel) remove(key KEY, session *Session) {
 	delete(channel.sessions, key)
 }
 
+// removeClosed removes a session that was closed, unless another session has
+// taken its key.
+func (channel *Channel) removeClosed(key KEY, session *Session) {
+	channel.mutex.Lock()
+	defer channel.mutex.Unlock()
+	if channel.sessions[key] == session {
+		delete(channel.sessions, key)
+	}
+}
+
 func (channel *Channel) Remove(key KEY) bool {
 	channel.mutex.Lock()
 	defer channel.mutex.Unlock()
-- 
2.43.0


From f6bdf3f04c74595e435ceea82a488ae4b460484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 09/51] fix: enforce the send limit of FixLen, and refuse sizes
 that do not fit an int

---
 codec/fixlen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index 3425c7e..d428c09 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -123,7 +123,7 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 		return nil, err
 	}
 	size := c.headDecoder(c.headBuf)
-	if size > c.maxRecv {
+	if size < 0 || size > c.maxRecv {
 		return nil, ErrTooLargePacket
 	}
 	if cap(c.bodyBuf) < size {
@@ -146,6 +146,9 @@ func (c *fixlenCodec) Send(msg interface{}) error {
 		return err
 	}
 	buff := c.sendBuf.Bytes()
+	if len(buff)-c.n > c.maxSend {
+		return ErrTooLargePacket
+	}
 	c.headEncoder(buff, len(buff)-c.n)
 	_, err = c.rw.Write(buff)
 	return err
-- 
2.43.0


From cde936a5cfd67d157383ac0a8b41c5eaea94c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 10/51] fix: refuse a JSON message without a body

---
 codec/json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec/json.go b/codec/json.go
index 0e24239..9a560c8 100644
--- a/codec/json.go
+++ b/codec/json.go
@@ -2,11 +2,14 @@ package codec
 
 import (
 	"encoding/json"
+	"errors"
 	link "github.com/younglifestyle/secs4go"
 	"io"
 	"reflect"
 )
 
+var errJsonNoBody = errors.New("json message without body")
+
 type JsonProtocol struct {
 	types map[string]reflect.Type
 	names map[reflect.Type]string
@@ -71,6 +74,9 @@ func (c *jsonCodec) Receive() (interface{}, error) {
 	if err != nil {
 		return nil, err
 	}
+	if in.Body == nil {
+		return nil, errJsonNoBody
+	}
 	var body interface{}
 	if in.Head != "" {
 		if t, exists := c.p.types[in.Head]; exists {
-- 
2.43.0


From 07a462b9d736aac32a97f7023d2a28c1c02a4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 11/51] fix: do not crash when a control message is sent while
 the connection goes away

---
 hsms/connection.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index a635b6e..53b9a9b 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -2,6 +2,7 @@ package hsms
 
 import (
 	"fmt"
+	"sync"
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -25,7 +26,9 @@ type HsmsConnection struct {
 	remotePort    int
 	sessionID     int
 	hp            *HsmsProtocol
-	connection    *link.Session
+
+	connMu     sync.RWMutex
+	connection *link.Session
 }
 
 func NewHsmsConnection(active bool, address string, port int, sessionID int, delegate *HsmsProtocol) *HsmsConnection {
@@ -40,31 +43,37 @@ func NewHsmsConnection(active bool, address string, port int, sessionID int, del
 }
 
 func (c *HsmsConnection) Session() *link.Session {
+	c.connMu.RLock()
+	defer c.connMu.RUnlock()
 	return c.connection
 }
 
 func (c *HsmsConnection) SetSession(session *link.Session) {
+	c.connMu.Lock()
+	defer c.connMu.Unlock()
 	c.connection = session
 }
 
 func (c *HsmsConnection) Send(msg interface{}) error {
-	if c.connection == nil {
+	session := c.Session()
+	if session == nil {
 		return ErrNotConnected
 	}
-	return c.connection.Send(msg)
+	return session.Send(msg)
 }
 
 func (c *HsmsConnection) Close() error {
-	if c.connection == nil {
+	session := c.Session()
+	if session == nil {
 		return nil
 	}
-	return c.connection.Close()
+	return session.Close()
 }
 
 func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte) {
 	rejectReq := ast.NewHSMSMessageRejectReqFromMsg(packet, reasonCode)
 	c.hp.logControlMessage("TX", rejectReq)
-	if err := c.connection.Send(rejectReq.ToBytes()); err != nil {
+	if err := c.Send(rejectReq.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject rsp failed", "error", err)
 	}
 }
@@ -76,7 +85,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.connection.Send(message.ToBytes()); err != nil {
+	if err := c.Send(message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
@@ -89,7 +98,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageDeselectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.rsp failed", "error", err)
 	}
 }
@@ -97,7 +106,7 @@ func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status Control
 func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageSelectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.rsp failed", "error", err)
 	}
 }
@@ -105,7 +114,7 @@ func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlSt
 func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 	response := ast.NewHSMSMessageLinktestRsp(message)
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.rsp failed", "error", err)
 	}
 }
@@ -113,7 +122,7 @@ func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason) {
 	reject := ast.NewHSMSMessageRejectReqFromMsg(message, byte(reason))
 	c.hp.logControlMessage("TX", reject)
-	if err := c.connection.Send(reject.ToBytes()); err != nil {
+	if err := c.Send(reject.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject.req failed", "error", err)
 	}
 }
@@ -125,7 +134,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
@@ -158,7 +167,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
-- 
2.43.0


From 71153178bc059bc136b1875d77b349d7da8d4258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 12/51] fix: end a transaction only by a message that answers
 it

---
 hsms/connection.go | 13 ++++----
 hsms/protocol.go   | 82 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 53b9a9b..49e4889 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -6,6 +6,7 @@ import (
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
+	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
 )
 
 var HSMSSTYPES = map[int]string{
@@ -80,8 +81,8 @@ func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte)
 
 func (c *HsmsConnection) sendLinktestReq() {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
-	defer c.hp.removeQueue(systemID)
+	queue := c.hp.createQueue(hsms.LinktestRspStr, systemID)
+	defer c.hp.removeQueue(hsms.LinktestRspStr, systemID)
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
@@ -129,8 +130,8 @@ func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason
 
 func (c *HsmsConnection) sendSelectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
-	defer c.hp.removeQueue(systemID)
+	queue := c.hp.createQueue(hsms.SelectRspStr, systemID)
+	defer c.hp.removeQueue(hsms.SelectRspStr, systemID)
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
@@ -162,8 +163,8 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 func (c *HsmsConnection) sendDeselectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
-	defer c.hp.removeQueue(systemID)
+	queue := c.hp.createQueue(hsms.DeselectRspStr, systemID)
+	defer c.hp.removeQueue(hsms.DeselectRspStr, systemID)
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8520fa6..f0ed8de 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -63,6 +63,13 @@ var (
 	ErrT3Timeout = errors.New("T3 timeout")
 )
 
+// transactionKey identifies an open transaction: the kind of message that
+// answers it and its system bytes.
+type transactionKey struct {
+	replyType string
+	systemID  uint32
+}
+
 type HsmsProtocol struct {
 	remoteAddress string
 	remotePort    int
@@ -82,7 +89,7 @@ type HsmsProtocol struct {
 	hsmsConnection  *HsmsConnection
 
 	queueMu      sync.RWMutex
-	systemQueues map[uint32]*utils.Deque
+	systemQueues map[transactionKey]*utils.Deque
 
 	logMu      sync.RWMutex
 	logCfg     LoggingConfig
@@ -131,7 +138,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		logger:               logger,
 		systemCounter:        atomic.NewUint32(rand.Uint32()),
 		timeouts:             NewSecsTimeout(),
-		systemQueues:         make(map[uint32]*utils.Deque),
+		systemQueues:         make(map[transactionKey]*utils.Deque),
 		handlers:             make(map[string]DataMessageHandler),
 		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
@@ -290,24 +297,27 @@ func (p *HsmsProtocol) getNextSystemCounter() uint32 {
 	return uint32(num)
 }
 
-func (p *HsmsProtocol) createQueue(systemID uint32) *utils.Deque {
+func (p *HsmsProtocol) createQueue(replyType string, systemID uint32) *utils.Deque {
 	queue := utils.NewDeque()
 	p.queueMu.Lock()
-	p.systemQueues[systemID] = queue
+	p.systemQueues[transactionKey{replyType, systemID}] = queue
 	p.queueMu.Unlock()
 	return queue
 }
 
-func (p *HsmsProtocol) fetchQueue(systemID uint32) (*utils.Deque, bool) {
-	p.queueMu.RLock()
-	queue, ok := p.systemQueues[systemID]
-	p.queueMu.RUnlock()
+// takeQueue ends the open transaction that a message of the given type answers.
+func (p *HsmsProtocol) takeQueue(replyType string, systemID uint32) (*utils.Deque, bool) {
+	key := transactionKey{replyType, systemID}
+	p.queueMu.Lock()
+	queue, ok := p.systemQueues[key]
+	delete(p.systemQueues, key)
+	p.queueMu.Unlock()
 	return queue, ok
 }
 
-func (p *HsmsProtocol) removeQueue(systemID uint32) {
+func (p *HsmsProtocol) removeQueue(replyType string, systemID uint32) {
 	p.queueMu.Lock()
-	delete(p.systemQueues, systemID)
+	delete(p.systemQueues, transactionKey{replyType, systemID})
 	p.queueMu.Unlock()
 }
 
@@ -538,9 +548,12 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.SelectRspStr:
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(message)
+		queue, ok := p.takeQueue(hsms.SelectRspStr, systemID)
+		if !ok {
+			p.logger.Warn("received unsolicited select.rsp")
+			return
 		}
+		queue.Put(message)
 		ctrl, ok := message.(*ast.ControlMessage)
 		if !ok {
 			p.logger.Warn("received malformed select.rsp")
@@ -570,12 +583,17 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.DeselectRspStr:
-		if err := p.connectionState.Deselect(); err != nil {
-			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+		queue, ok := p.takeQueue(hsms.DeselectRspStr, systemID)
+		if !ok {
+			p.logger.Warn("received unsolicited deselect.rsp")
+			return
 		}
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(message)
+		if ctrl, ok := message.(*ast.ControlMessage); ok && ControlStatus(ctrl.Status()) == ControlStatusAccepted {
+			if err := p.connectionState.Deselect(); err != nil {
+				p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+			}
 		}
+		queue.Put(message)
 
 	case hsms.LinktestReqStr:
 		if !p.connected.Load() {
@@ -595,8 +613,16 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		_ = p.hsmsConnection.Close()
 		p.hsmsConnection.SetSession(nil)
 
+	case hsms.RejectReqStr:
+		// A reject carries the system bytes of the message it refuses.
+		for _, replyType := range []string{hsms.SelectRspStr, hsms.DeselectRspStr, hsms.LinktestRspStr, hsms.DataMessageStr} {
+			if queue, ok := p.takeQueue(replyType, systemID); ok {
+				queue.Put(message)
+			}
+		}
+
 	default:
-		if queue, ok := p.fetchQueue(systemID); ok {
+		if queue, ok := p.takeQueue(message.Type(), systemID); ok {
 			queue.Put(message)
 		}
 	}
@@ -883,15 +909,27 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		}
 
 		systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(dataMessage)
-			continue
+		if isReply(dataMessage) {
+			if queue, ok := p.takeQueue(hsms.DataMessageStr, systemID); ok {
+				if dataMessage.StreamCode() == 9 {
+					p.triggerS9ErrorCallback(dataMessage)
+				}
+				queue.Put(dataMessage)
+				continue
+			}
 		}
 
 		p.handleDataMessage(dataMessage)
 	}
 }
 
+// isReply reports whether a message can end a transaction opened here: a
+// secondary message, or a stream 9 message about the primary. The peer chooses
+// the system bytes of its own primaries, which may equal ours.
+func isReply(message *ast.DataMessage) bool {
+	return message.FunctionCode()%2 == 0 || message.StreamCode() == 9
+}
+
 func (p *HsmsProtocol) ensureReady(requireSelected bool) error {
 	if !p.connected.Load() || p.hsmsConnection.Session() == nil {
 		return ErrNotConnected
@@ -932,8 +970,8 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	}
 
 	systemID := p.getNextSystemCounter()
-	queue := p.createQueue(systemID)
-	defer p.removeQueue(systemID)
+	queue := p.createQueue(hsms.DataMessageStr, systemID)
+	defer p.removeQueue(hsms.DataMessageStr, systemID)
 
 	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, p.encodeSystemID(systemID))
 	if outgoing.WaitBit() == "optional" {
-- 
2.43.0


From 3fe7fec41a0ff91a111048926dfc717fa139f70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 13/51] fix: let T7 end only the session that stayed not
 selected

---
 hsms/connectionStateMachine.go |  5 ++++
 hsms/protocol.go               | 51 ++++++++++++++++++++++++++++------
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/hsms/connectionStateMachine.go b/hsms/connectionStateMachine.go
index 42c5768..4a5b4dd 100644
--- a/hsms/connectionStateMachine.go
+++ b/hsms/connectionStateMachine.go
@@ -80,3 +80,8 @@ func (cs *ConnectionStateMachine) Deselect() error {
 func (cs *ConnectionStateMachine) TimeoutT7() error {
 	return cs.fsm.Event(context.Background(), "timeoutT7")
 }
+
+// timeoutT7If is TimeoutT7 unless applies says that T7 no longer does.
+func (cs *ConnectionStateMachine) timeoutT7If(applies func() bool) error {
+	return cs.fsm.Event(context.Background(), "timeoutT7", applies)
+}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index f0ed8de..82c2c2d 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -151,6 +151,9 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		"enter_NOT-CONNECTED":                h.onStateDisconnect,
 		"enter_" + StateConnectedNotSelected: h.onStateConnectedNotSelected,
 		"enter_CONNECTED_SELECTED":           h.onStateSelect,
+		"leave_" + StateConnectedNotSelected: h.onLeaveConnected,
+		"leave_" + StateConnectedSelected:    h.onLeaveConnected,
+		"before_timeoutT7":                   h.onTimeoutT7,
 	})
 	h.hsmsConnection = NewHsmsConnection(active, address, port, sessionID, h)
 
@@ -214,22 +217,34 @@ func (p *HsmsProtocol) startT7Timer() {
 		return
 	}
 
+	session := p.hsmsConnection.Session()
+
 	p.t7TimerMu.Lock()
+	defer p.t7TimerMu.Unlock()
 	if p.t7Timer != nil {
 		p.t7Timer.Stop()
 	}
-	p.t7Timer = time.AfterFunc(duration, func() {
+	var timer *time.Timer
+	timer = time.AfterFunc(duration, func() {
+		// The session may have been selected or lost since the timer fired.
+		err := p.connectionState.timeoutT7If(func() bool {
+			p.t7TimerMu.Lock()
+			defer p.t7TimerMu.Unlock()
+			return p.t7Timer == timer
+		})
+		if err != nil {
+			p.logger.Debug("T7 timeout ignored", "error", err)
+			return
+		}
 		p.logger.Warn("T7 timeout", "duration", duration)
-		p.connected.Store(false)
-		p.stopLinktestTimer()
-		if err := p.connectionState.TimeoutT7(); err != nil {
-			p.logger.Error("timeoutT7 transition error", "error", err)
+		if session == nil {
+			return
 		}
-		if err := p.hsmsConnection.Close(); err != nil {
+		if err := session.Close(); err != nil {
 			p.logger.Error("close session after T7 timeout", "error", err)
 		}
 	})
-	p.t7TimerMu.Unlock()
+	p.t7Timer = timer
 }
 
 func (p *HsmsProtocol) stopT7Timer() {
@@ -253,11 +268,29 @@ func (p *HsmsProtocol) onStateSelect(ctx context.Context, _ *fsm.Event) {
 	p.stopT7Timer()
 }
 
-func (p *HsmsProtocol) onStateDisconnect(ctx context.Context, _ *fsm.Event) {
-	p.logger.Info("state transition", "state", "NOT_CONNECTED")
+// onTimeoutT7 cancels the transition when T7 no longer applies.
+func (p *HsmsProtocol) onTimeoutT7(ctx context.Context, e *fsm.Event) {
+	if len(e.Args) == 0 {
+		return
+	}
+	if applies, ok := e.Args[0].(func() bool); ok && !applies() {
+		e.Cancel()
+	}
+}
+
+// onLeaveConnected ends what belongs to a connection before its loss becomes
+// visible, so that it cannot hit the next connection.
+func (p *HsmsProtocol) onLeaveConnected(ctx context.Context, e *fsm.Event) {
+	if e.Dst != StateNotConnected {
+		return
+	}
 	p.connected.Store(false)
 	p.stopLinktestTimer()
 	p.stopT7Timer()
+}
+
+func (p *HsmsProtocol) onStateDisconnect(ctx context.Context, _ *fsm.Event) {
+	p.logger.Info("state transition", "state", "NOT_CONNECTED")
 	if p.enabled.Load() {
 		if p.connectThreadRunning.CompareAndSwap(false, true) {
 			go p.startConnectThread()
-- 
2.43.0


From 241cae6e494886215fe9e621746e9e380e342a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 14/51] fix: tie the link tests and the select request to their
 connection

---
 hsms/connection.go |  8 ++---
 hsms/protocol.go   | 76 +++++++++++++++++++++-------------------------
 2 files changed, 38 insertions(+), 46 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 49e4889..9e2cd49 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -79,14 +79,14 @@ func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte)
 	}
 }
 
-func (c *HsmsConnection) sendLinktestReq() {
+func (c *HsmsConnection) sendLinktestReq(session *link.Session) {
 	systemID := c.hp.getNextSystemCounter()
 	queue := c.hp.createQueue(hsms.LinktestRspStr, systemID)
 	defer c.hp.removeQueue(hsms.LinktestRspStr, systemID)
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.Send(message.ToBytes()); err != nil {
+	if err := session.Send(message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
@@ -128,14 +128,14 @@ func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason
 	}
 }
 
-func (c *HsmsConnection) sendSelectReq() error {
+func (c *HsmsConnection) sendSelectReq(session *link.Session) error {
 	systemID := c.hp.getNextSystemCounter()
 	queue := c.hp.createQueue(hsms.SelectRspStr, systemID)
 	defer c.hp.removeQueue(hsms.SelectRspStr, systemID)
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.Send(request.ToBytes()); err != nil {
+	if err := session.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 82c2c2d..c3bdadc 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -104,9 +104,8 @@ type HsmsProtocol struct {
 	handlers       map[string]DataMessageHandler
 	defaultHandler DataMessageHandler
 
-	linktestTimerMu sync.Mutex
-	linktestTimer   *time.Ticker
-	disconnectFlg   chan struct{}
+	linktestMu   sync.Mutex
+	linktestStop chan struct{} // closed when the current connection ends
 
 	t7TimerMu sync.Mutex
 	t7Timer   *time.Timer
@@ -140,7 +139,6 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		timeouts:             NewSecsTimeout(),
 		systemQueues:         make(map[transactionKey]*utils.Deque),
 		handlers:             make(map[string]DataMessageHandler),
-		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
 	}
 	h.logCfg.Writer = os.Stderr
@@ -160,54 +158,45 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 	return h
 }
 
-func (p *HsmsProtocol) clearDisconnectFlag() {
-	for {
-		select {
-		case <-p.disconnectFlg:
-		default:
-			return
-		}
+// newLinktest makes the stop channel of the link tests of a new connection.
+func (p *HsmsProtocol) newLinktest() <-chan struct{} {
+	stop := make(chan struct{})
+	p.linktestMu.Lock()
+	if p.linktestStop != nil {
+		close(p.linktestStop)
 	}
+	p.linktestStop = stop
+	p.linktestMu.Unlock()
+	return stop
 }
 
-func (p *HsmsProtocol) startLinktestTimer() {
+func (p *HsmsProtocol) runLinktest(session *link.Session, stop <-chan struct{}) {
 	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
+	defer ticker.Stop()
 
-	p.linktestTimerMu.Lock()
-	p.linktestTimer = ticker
-	p.linktestTimerMu.Unlock()
-
-	defer func() {
-		ticker.Stop()
-		p.linktestTimerMu.Lock()
-		if p.linktestTimer == ticker {
-			p.linktestTimer = nil
+	for {
+		select {
+		case <-stop:
+			return
+		default:
 		}
-		p.linktestTimerMu.Unlock()
-	}()
+		p.hsmsConnection.sendLinktestReq(session)
 
-	p.clearDisconnectFlag()
-	p.hsmsConnection.sendLinktestReq()
-
-	for {
 		select {
 		case <-ticker.C:
-			p.hsmsConnection.sendLinktestReq()
-		case <-p.disconnectFlg:
+		case <-stop:
 			return
 		}
 	}
 }
 
 func (p *HsmsProtocol) stopLinktestTimer() {
-	p.linktestTimerMu.Lock()
-	defer p.linktestTimerMu.Unlock()
+	p.linktestMu.Lock()
+	defer p.linktestMu.Unlock()
 
-	if p.linktestTimer != nil {
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
+	if p.linktestStop != nil {
+		close(p.linktestStop)
+		p.linktestStop = nil
 	}
 }
 
@@ -300,9 +289,16 @@ func (p *HsmsProtocol) onStateDisconnect(ctx context.Context, _ *fsm.Event) {
 
 // onStateConnect is triggered when the HSMS connection transitions out of NOT-CONNECTED.
 func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
+	// The goroutine keeps to this connection: when it gets to run, another one
+	// may have taken its place.
+	session := p.hsmsConnection.Session()
+	stop := p.newLinktest()
 	go func() {
+		if session == nil || !p.enabled.Load() {
+			return
+		}
 		if p.active {
-			if err := p.hsmsConnection.sendSelectReq(); err != nil {
+			if err := p.hsmsConnection.sendSelectReq(session); err != nil {
 				p.logger.Error("send select.req failed", "error", err)
 				return
 			}
@@ -312,7 +308,7 @@ func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
 			return
 		}
 
-		p.startLinktestTimer()
+		p.runLinktest(session, stop)
 	}()
 }
 
@@ -395,10 +391,6 @@ func (p *HsmsProtocol) Disable() {
 			// allow a brief moment for remote to process before closing
 			time.Sleep(200 * time.Millisecond)
 		}
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session failed", "error", err)
 		}
-- 
2.43.0


From e8746aea71c958711f8c0ae3214d1bc806f4f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 15/51] fix: make enabling and disabling atomic with the
 adoption of a connection

A connection made while the protocol is disabled was kept, a disabled
endpoint could stay in a connected state, an Enable during the end of the
connect thread was lost, and Disable hung on a peer that does not read.
---
 hsms/connection.go |   4 +-
 hsms/protocol.go   | 189 ++++++++++++++++++++++++++++-----------------
 2 files changed, 122 insertions(+), 71 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 9e2cd49..3e55ce1 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -161,14 +161,14 @@ func (c *HsmsConnection) sendSelectReq(session *link.Session) error {
 	return nil
 }
 
-func (c *HsmsConnection) sendDeselectReq() error {
+func (c *HsmsConnection) sendDeselectReq(session *link.Session) error {
 	systemID := c.hp.getNextSystemCounter()
 	queue := c.hp.createQueue(hsms.DeselectRspStr, systemID)
 	defer c.hp.removeQueue(hsms.DeselectRspStr, systemID)
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.Send(request.ToBytes()); err != nil {
+	if err := session.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index c3bdadc..bf30a55 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -95,8 +95,11 @@ type HsmsProtocol struct {
 	logCfg     LoggingConfig
 	logWriteMu sync.Mutex
 
-	connDoneMu sync.Mutex
-	connDone   chan struct{}
+	// lifecycleMu orders enabling and disabling with the adoption of a new
+	// connection or listener, and with the end of the connect thread.
+	lifecycleMu sync.Mutex
+	enableCount int
+	connDone    chan struct{} // closed when the current connection has ended
 
 	connectThreadRunning *atomic.Bool
 
@@ -110,8 +113,7 @@ type HsmsProtocol struct {
 	t7TimerMu sync.Mutex
 	t7Timer   *time.Timer
 
-	serverMu sync.Mutex
-	server   *link.Server
+	server *link.Server // the current listener
 
 	// Reconnection state
 	reconnectAttempts  int
@@ -359,7 +361,10 @@ func (p *HsmsProtocol) OnConnectionEstablished() {
 
 // Enable starts the connection manager.
 func (p *HsmsProtocol) Enable() {
+	p.lifecycleMu.Lock()
+	defer p.lifecycleMu.Unlock()
 	if p.enabled.CompareAndSwap(false, true) {
+		p.enableCount++
 		if p.connectThreadRunning.CompareAndSwap(false, true) {
 			go p.startConnectThread()
 		}
@@ -368,47 +373,58 @@ func (p *HsmsProtocol) Enable() {
 
 // Disable stops the HSMS connection and releases resources.
 func (p *HsmsProtocol) Disable() {
+	p.lifecycleMu.Lock()
 	if !p.enabled.CompareAndSwap(true, false) {
+		p.lifecycleMu.Unlock()
 		return
 	}
+	server := p.server
+	p.server = nil
+	done := p.connDone
+	sess := p.hsmsConnection.Session()
+	p.lifecycleMu.Unlock()
 
 	p.stopLinktestTimer()
 	p.stopT7Timer()
 	p.connected.Store(false)
 
 	if p.active {
-		if sess := p.hsmsConnection.Session(); sess != nil && !sess.IsClosed() {
-			if p.connectionState.CurrentState() == StateConnectedSelected {
-				if err := p.hsmsConnection.sendDeselectReq(); err != nil {
-					p.logger.Error("deselect failed", "error", err)
-				}
-			}
-			systemID := p.getNextSystemCounter()
-			sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID), p.encodeSystemID(systemID))
-			if err := p.hsmsConnection.Send(sep.ToBytes()); err != nil {
-				p.logger.Error("send separate.req failed", "error", err)
-			}
-			// allow a brief moment for remote to process before closing
-			time.Sleep(200 * time.Millisecond)
+		if sess != nil && !sess.IsClosed() {
+			p.sayGoodbye(sess)
 		}
-		if err := p.hsmsConnection.Close(); err != nil {
-			p.logger.Error("close session failed", "error", err)
+		if sess != nil {
+			if err := sess.Close(); err != nil {
+				p.logger.Error("close session failed", "error", err)
+			}
 		}
-		p.waitForConnectionClosure(2 * time.Second)
-	} else {
-		p.serverMu.Lock()
-		if p.server != nil {
-			p.server.Stop()
-			p.server = nil
+	} else if server != nil {
+		server.Stop()
+	}
+	p.waitForConnectionClosure(done, 2*time.Second)
+}
+
+// sayGoodbye takes leave of the peer of an active connection.
+func (p *HsmsProtocol) sayGoodbye(sess *link.Session) {
+	// A peer that does not read must not hold up the caller.
+	t6 := time.Duration(p.timeouts.T6ControlTransTimeout()) * time.Second
+	watchdog := time.AfterFunc(t6+time.Second, func() { _ = sess.Close() })
+	defer watchdog.Stop()
+
+	if p.connectionState.CurrentState() == StateConnectedSelected {
+		if err := p.hsmsConnection.sendDeselectReq(sess); err != nil {
+			p.logger.Error("deselect failed", "error", err)
 		}
-		p.serverMu.Unlock()
 	}
+	systemID := p.getNextSystemCounter()
+	sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID), p.encodeSystemID(systemID))
+	if err := sess.Send(sep.ToBytes()); err != nil {
+		p.logger.Error("send separate.req failed", "error", err)
+	}
+	// allow a brief moment for remote to process before closing
+	time.Sleep(200 * time.Millisecond)
 }
 
-func (p *HsmsProtocol) waitForConnectionClosure(timeout time.Duration) {
-	p.connDoneMu.Lock()
-	done := p.connDone
-	p.connDoneMu.Unlock()
+func (p *HsmsProtocol) waitForConnectionClosure(done <-chan struct{}, timeout time.Duration) {
 	if done == nil {
 		return
 	}
@@ -419,20 +435,62 @@ func (p *HsmsProtocol) waitForConnectionClosure(timeout time.Duration) {
 	}
 }
 
+// adopt makes connection the current one, unless the protocol was disabled in
+// the meantime or has a connection already. The channel it returns is to be
+// closed when the connection has ended.
+func (p *HsmsProtocol) adopt(connection *link.Session) (chan struct{}, bool) {
+	p.lifecycleMu.Lock()
+	defer p.lifecycleMu.Unlock()
+	if !p.enabled.Load() {
+		return nil, false
+	}
+	if current := p.hsmsConnection.Session(); current != nil && current != connection && !current.IsClosed() {
+		return nil, false
+	}
+	done := make(chan struct{})
+	p.hsmsConnection.SetSession(connection)
+	p.connDone = done
+	return done, true
+}
+
+// connectThreadEnds ends the connect thread, unless the protocol was enabled
+// again after the thread decided to stop.
+func (p *HsmsProtocol) connectThreadEnds(gaveUp bool, enableCount int) bool {
+	p.lifecycleMu.Lock()
+	defer p.lifecycleMu.Unlock()
+	if p.enabled.Load() && (!gaveUp || p.enableCount != enableCount) {
+		return false
+	}
+	p.connectThreadRunning.Store(false)
+	return true
+}
+
 func (p *HsmsProtocol) startConnectThread() {
-	defer p.connectThreadRunning.Store(false)
+	for {
+		p.lifecycleMu.Lock()
+		enableCount := p.enableCount
+		p.lifecycleMu.Unlock()
+		if p.connectThreadEnds(p.keepConnected(), enableCount) {
+			return
+		}
+	}
+}
+
+// keepConnected connects again and again while the protocol is enabled. It
+// reports whether it gave up before.
+func (p *HsmsProtocol) keepConnected() bool {
 	for p.enabled.Load() {
 		if p.active {
 			if err := p.activeConnect(); err != nil {
 				if !p.enabled.Load() {
-					return
+					return false
 				}
 				p.logger.Error("connect failed", "error", err)
 
 				// Check if auto-reconnect is enabled
 				if !p.timeouts.AutoReconnect() {
 					p.logger.Info("auto-reconnect disabled, stopping connection attempts")
-					return
+					return true
 				}
 
 				// Increment reconnect attempts
@@ -443,7 +501,7 @@ func (p *HsmsProtocol) startConnectThread() {
 				if maxAttempts > 0 && p.reconnectAttempts > maxAttempts {
 					p.logger.Warn("max reconnect attempts reached, stopping", "maxAttempts", maxAttempts)
 					p.reconnectAttempts = 0
-					return
+					return true
 				}
 
 				// Calculate exponential backoff delay
@@ -456,7 +514,7 @@ func (p *HsmsProtocol) startConnectThread() {
 			p.reconnectAttempts = 0
 
 			if !p.enabled.Load() {
-				return
+				return false
 			}
 			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
 			continue
@@ -464,7 +522,7 @@ func (p *HsmsProtocol) startConnectThread() {
 
 		if err := p.passiveConnect(); err != nil {
 			if !p.enabled.Load() {
-				return
+				return false
 			}
 			p.logger.Error("listen failed", "error", err)
 			time.Sleep(time.Second)
@@ -472,6 +530,7 @@ func (p *HsmsProtocol) startConnectThread() {
 		}
 
 	}
+	return false
 }
 
 func (p *HsmsProtocol) passiveConnect() error {
@@ -483,17 +542,22 @@ func (p *HsmsProtocol) passiveConnect() error {
 		return err
 	}
 
-	p.serverMu.Lock()
+	p.lifecycleMu.Lock()
+	if !p.enabled.Load() {
+		p.lifecycleMu.Unlock()
+		server.Stop()
+		return nil
+	}
 	p.server = server
-	p.serverMu.Unlock()
+	p.lifecycleMu.Unlock()
 
 	err = server.SingleServe()
 
-	p.serverMu.Lock()
+	p.lifecycleMu.Lock()
 	if p.server == server {
 		p.server = nil
 	}
-	p.serverMu.Unlock()
+	p.lifecycleMu.Unlock()
 
 	server.Stop()
 
@@ -510,7 +574,6 @@ func (p *HsmsProtocol) activeConnect() error {
 		return err
 	}
 
-	p.hsmsConnection.SetSession(session)
 	p.OnConnectionEstablishedAndStartReceiver(session)
 
 	return nil
@@ -829,30 +892,27 @@ func (p *HsmsProtocol) handleDataMessage(message *ast.DataMessage) {
 }
 
 func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.Session) {
-	if !p.active {
-		if p.hsmsConnection.Session() == nil {
-			p.hsmsConnection.SetSession(connection)
-		} else if !p.hsmsConnection.Session().IsClosed() {
-			_ = connection.Close()
-			return
-		} else {
-			p.hsmsConnection.SetSession(connection)
-		}
+	done, ok := p.adopt(connection)
+	if !ok {
+		_ = connection.Close()
+		return
 	}
 
-	done := make(chan struct{})
-	p.connDoneMu.Lock()
-	p.connDone = done
-	p.connDoneMu.Unlock()
-
 	defer func() {
-		p.connDoneMu.Lock()
+		// However the connection came to its end, the state follows.
+		p.connected.Store(false)
+		p.stopLinktestTimer()
+		if p.connectionState.CurrentState() != StateNotConnected {
+			if err := p.connectionState.Disconnect(); err != nil {
+				p.logger.Error("change state to NOT-CONNECTED failed", "error", err)
+			}
+		}
+
+		p.lifecycleMu.Lock()
 		p.connDone = nil
-		p.connDoneMu.Unlock()
+		p.lifecycleMu.Unlock()
 
-		if connection != nil {
-			_ = connection.Close()
-		}
+		_ = connection.Close()
 		if sess := p.hsmsConnection.Session(); sess == connection {
 			p.hsmsConnection.SetSession(nil)
 		}
@@ -892,9 +952,6 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		}
 
 		if err != nil {
-			p.connected.Store(false)
-			p.stopLinktestTimer()
-
 			logHandled := false
 			if t8Duration > 0 {
 				if ne, ok := err.(net.Error); ok && ne.Timeout() {
@@ -905,12 +962,6 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			if !logHandled {
 				p.logger.Error("receive error", "error", err)
 			}
-
-			if p.connectionState.CurrentState() != StateNotConnected {
-				if err := p.connectionState.Disconnect(); err != nil {
-					p.logger.Error("change state to NOT-CONNECTED failed", "error", err)
-				}
-			}
 			break
 		}
 
-- 
2.43.0


From dca394641026cc2db805f983867b27e2bcf85f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 16/51] fix: send data only on the connection found selected,
 and report what cannot be encoded

A message that could not be encoded was reported as sent, and S9F9 went out
on a connection that was not selected or not the one that timed out.
---
 hsms/protocol.go            | 54 +++++++++++++++++++++++--------------
 hsms/protocol_s9_helpers.go | 13 +++++----
 2 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index bf30a55..2f00bf3 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -1006,14 +1006,28 @@ func isReply(message *ast.DataMessage) bool {
 	return message.FunctionCode()%2 == 0 || message.StreamCode() == 9
 }
 
-func (p *HsmsProtocol) ensureReady(requireSelected bool) error {
-	if !p.connected.Load() || p.hsmsConnection.Session() == nil {
-		return ErrNotConnected
+// readySession returns the session that data messages may be sent on. The
+// caller keeps to it: when it gets to send, another connection, which is not
+// selected yet, may have taken its place.
+func (p *HsmsProtocol) readySession() (*link.Session, error) {
+	session := p.hsmsConnection.Session()
+	if !p.connected.Load() || session == nil {
+		return nil, ErrNotConnected
 	}
-	if requireSelected && p.connectionState.CurrentState() != StateConnectedSelected {
-		return ErrNotSelected
+	if p.connectionState.CurrentState() != StateConnectedSelected {
+		return nil, ErrNotSelected
 	}
-	return nil
+	return session, nil
+}
+
+// sendData writes a data message to the session.
+func (p *HsmsProtocol) sendData(session *link.Session, message *ast.DataMessage) error {
+	frame := message.ToBytes()
+	if len(frame) == 0 {
+		return fmt.Errorf("hsms: S%dF%d cannot be encoded", message.StreamCode(), message.FunctionCode())
+	}
+	p.logDataMessage("OUT", message)
+	return session.Send(frame)
 }
 
 // SendDataMessage sends a SECS-II data message without waiting for the reply.
@@ -1021,7 +1035,8 @@ func (p *HsmsProtocol) SendDataMessage(message *ast.DataMessage) error {
 	if message == nil {
 		return errors.New("hsms: nil message")
 	}
-	if err := p.ensureReady(true); err != nil {
+	session, err := p.readySession()
+	if err != nil {
 		return err
 	}
 
@@ -1031,9 +1046,7 @@ func (p *HsmsProtocol) SendDataMessage(message *ast.DataMessage) error {
 		outgoing = outgoing.SetWaitBit(false)
 	}
 
-	p.logDataMessage("OUT", outgoing)
-
-	return p.hsmsConnection.Send(outgoing.ToBytes())
+	return p.sendData(session, outgoing)
 }
 
 // SendAndWait sends a SECS-II data message and waits for the response.
@@ -1041,7 +1054,8 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	if message == nil {
 		return nil, errors.New("hsms: nil message")
 	}
-	if err := p.ensureReady(true); err != nil {
+	session, err := p.readySession()
+	if err != nil {
 		return nil, err
 	}
 
@@ -1054,16 +1068,17 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 		outgoing = outgoing.SetWaitBit(true)
 	}
 
-	p.logDataMessage("OUT", outgoing)
-
-	if err := p.hsmsConnection.Send(outgoing.ToBytes()); err != nil {
+	if err := p.sendData(session, outgoing); err != nil {
 		return nil, err
 	}
 
 	resp, err := queue.Get(p.timeouts.T3ReplyTimeout())
 	if err != nil {
-		// On T3 timeout (Wait Bit=True was sent), send S9F9
-		p.sendS9F9TransactionTimeout(outgoing)
+		// On T3 timeout (Wait Bit=True was sent), send S9F9 to the peer that
+		// did not answer, if it is still there
+		if current, err := p.readySession(); err == nil && current == session {
+			p.sendS9F9TransactionTimeout(session, outgoing)
+		}
 		return nil, ErrT3Timeout
 	}
 
@@ -1086,7 +1101,8 @@ func (p *HsmsProtocol) SendResponse(message *ast.DataMessage, systemBytes []byte
 	if message == nil {
 		return errors.New("hsms: nil message")
 	}
-	if err := p.ensureReady(true); err != nil {
+	session, err := p.readySession()
+	if err != nil {
 		return err
 	}
 
@@ -1095,9 +1111,7 @@ func (p *HsmsProtocol) SendResponse(message *ast.DataMessage, systemBytes []byte
 		outgoing = outgoing.SetWaitBit(false)
 	}
 
-	p.logDataMessage("OUT", outgoing)
-
-	return p.hsmsConnection.Send(outgoing.ToBytes())
+	return p.sendData(session, outgoing)
 }
 
 // RegisterHandler registers a callback for a specific stream/function pair.
diff --git a/hsms/protocol_s9_helpers.go b/hsms/protocol_s9_helpers.go
index 1c3505c..2e09252 100644
--- a/hsms/protocol_s9_helpers.go
+++ b/hsms/protocol_s9_helpers.go
@@ -1,6 +1,7 @@
 package hsms
 
 import (
+	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
 
@@ -108,7 +109,7 @@ func (p *HsmsProtocol) sendS9F11DataTooLong(systemBytes []byte) {
 }
 
 // sendS9F9TransactionTimeout sends S9F9 for T3 transaction timeout
-func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage) {
+func (p *HsmsProtocol) sendS9F9TransactionTimeout(session *link.Session, originalMsg *ast.DataMessage) {
 	// S9F9: Transaction Timer Timeout
 	// W: <B [10] SHeader>
 	// The stored header of the message associated with the transaction timer timeout.
@@ -119,9 +120,9 @@ func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage)
 	headerBytes := make([]byte, 10)
 
 	// Device ID / Session ID
-	session := originalMsg.SessionID()
-	headerBytes[0] = byte(session >> 8)
-	headerBytes[1] = byte(session)
+	sessionID := originalMsg.SessionID()
+	headerBytes[0] = byte(sessionID >> 8)
+	headerBytes[1] = byte(sessionID)
 
 	// Stream & Function - Wait Bit is in Stream byte
 	stream := byte(originalMsg.StreamCode())
@@ -153,9 +154,7 @@ func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage)
 		s9Message = s9Message.SetWaitBit(false)
 
 		p.logger.Info("T3 timeout, sending S9F9", "stream", originalMsg.StreamCode(), "function", originalMsg.FunctionCode())
-		p.logDataMessage("OUT", s9Message)
-
-		if err := p.hsmsConnection.Send(s9Message.ToBytes()); err != nil {
+		if err := p.sendData(session, s9Message); err != nil {
 			p.logger.Error("failed to send S9F9", "error", err)
 		}
 	}
-- 
2.43.0


From 93ee7857d887ca3b2b3e77338300ebe7941b97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 17/51] fix: print quotes and backslashes of ASCII items as
 character codes in SML

---
 lib-secs2-hsms-go/pkg/ast/ascii.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ascii.go b/lib-secs2-hsms-go/pkg/ast/ascii.go
index 1243e8a..54e6e69 100644
--- a/lib-secs2-hsms-go/pkg/ast/ascii.go
+++ b/lib-secs2-hsms-go/pkg/ast/ascii.go
@@ -187,9 +187,10 @@ func (node *ASCIINode) String() string {
 	var sb strings.Builder
 	printableState := false
 	for _, ch := range node.value {
-		if ch < 32 || ch == 127 {
+		if ch < 32 || ch == 127 || ch == '"' || ch == '\\' {
 			// ch is a non-printable control character
 			// 32: space, which is the first printable character, 127: del
+			// or a character which can't be written as is inside double quotes
 			if printableState {
 				printableState = false
 				sb.WriteString(`"`) // Close double quote
-- 
2.43.0


From 7621e8ae69d3cd9b1735a283d22a32b98818de8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 18/51] fix: accept SML message names that start like another
 header element

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 52 ++++++++++++++++++-----
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index a040773..1f0f2f7 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -218,7 +218,7 @@ func lexMessageHeader(l *lexer) stateFn {
 		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil {
 			l.pos += loc[1]
 			l.emitUppercase(tokenTypeDirection)
-			return lexMessageHeader
+			return lexAfterDirection
 		}
 
 		switch r := l.next(); r {
@@ -233,20 +233,52 @@ func lexMessageHeader(l *lexer) stateFn {
 			l.emit(tokenTypeLeftAngleBracket)
 			return lexMessageText
 		default:
-			for {
-				r := l.next()
-				if r == eof || unicode.IsSpace(r) || strings.HasPrefix(l.input[l.pos-1:], "//") {
-					l.backup()
-					break
-				}
-			}
-			l.emit(tokenTypeMessageName)
-			return lexMessageHeader
+			return lexMessageName
 		}
 	}
 	// should not reach here
 }
 
+// lexAfterDirection scans what follows the message direction. A word here is the
+// message name, even if it starts like another header element, e.g. "WaferMap".
+func lexAfterDirection(l *lexer) stateFn {
+	l.acceptRun(" \t\r\n")
+	l.ignore()
+	if strings.HasPrefix(l.input[l.pos:], "//") {
+		return lexComment
+	}
+
+	// A misplaced header element is not a message name
+	re := regexp.MustCompile(`^([Ww]|\[[Ww]\]|[Ss]\d+[Ff]\d+|[Hh](->|<->|<-)[Ee])`)
+	if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil {
+		rest := l.input[l.pos+loc[1]:]
+		r, _ := utf8.DecodeRuneInString(rest)
+		if rest == "" || unicode.IsSpace(r) || strings.HasPrefix(rest, "//") {
+			return lexMessageHeader
+		}
+	}
+
+	switch l.peek() {
+	case eof, '.', '<':
+		return lexMessageHeader
+	}
+	l.next()
+	return lexMessageName
+}
+
+// lexMessageName scans the rest of a message name, whose first rune is already consumed.
+func lexMessageName(l *lexer) stateFn {
+	for {
+		r := l.next()
+		if r == eof || unicode.IsSpace(r) || strings.HasPrefix(l.input[l.pos-1:], "//") {
+			l.backup()
+			break
+		}
+	}
+	l.emit(tokenTypeMessageName)
+	return lexMessageHeader
+}
+
 // lexMessageText scans the elements inside the message text.
 func lexMessageText(l *lexer) stateFn {
 	for {
-- 
2.43.0


From 9f2c6bdee975ab1f105c9049133fa8e38c1d9165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 19/51] fix: report malformed numbers in SML binary items
 instead of storing 0

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 0db1739..6c3b3f1 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -482,8 +482,10 @@ func (p *parser) parseBinary() (item ast.ItemNode, ok bool) {
 	for _, t := range p.getDataItemValueTokens() {
 		switch t.typ {
 		case tokenTypeNumber:
-			val, _ := strconv.ParseInt(t.val, 0, 0)
-			if !(0 <= val && val < 256) {
+			val, err := strconv.ParseInt(t.val, 0, 0)
+			if err != nil && err.(*strconv.NumError).Err == strconv.ErrSyntax {
+				p.errorf(t, "expected integer, found %q", t.val)
+			} else if !(0 <= val && val < 256) {
 				val = 0
 				p.errorf(t, "binary value overflow, should be in range of [0, 256)")
 			}
-- 
2.43.0


From 6c274976f02bd4e92990a481080c2c11e91176c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 20/51] fix: report quoted SML strings that cannot be unquoted
 instead of storing an empty string

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 6c3b3f1..5a91dec 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -419,7 +419,10 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 		switch t.typ {
 		case tokenTypeQuotedString:
-			val, _ := strconv.Unquote(t.val)
+			val, err := strconv.Unquote(t.val)
+			if err != nil {
+				p.errorf(t, "invalid quoted string %s", t.val)
+			}
 			for _, r := range val {
 				if r > unicode.MaxASCII {
 					val = ""
-- 
2.43.0


From 04e752587bcb6b82fb09466fd37e4be8976bb415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 21/51] fix: an SML comment ending in some non-ASCII letters
 was cut inside the letter

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index 1f0f2f7..796ef47 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -370,10 +370,7 @@ func lexComment(l *lexer) stateFn {
 		return lexEOF
 	}
 
-	for unicode.IsSpace(rune(l.input[l.pos+i-1])) {
-		i -= 1
-	}
-	l.pos += i
+	l.pos += len(strings.TrimRight(l.input[l.pos:l.pos+i], " \t\r"))
 	l.emit(tokenTypeComment)
 	return l.lastState
 }
-- 
2.43.0


From 7aad68f7f9f129df7cf312bbd92e34a2d1355a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 22/51] fix: report a quoted SML string that starts with a line
 break

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index 796ef47..04d879c 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -408,7 +408,7 @@ func lexQuotedString(l *lexer) stateFn {
 	l.accept(`"`)
 	i := strings.Index(l.input[l.pos:], `"`)
 	j := strings.IndexAny(l.input[l.pos:], "\r\n")
-	if i < 0 || (j > 0 && j < i) {
+	if i < 0 || (j >= 0 && j < i) {
 		return l.errorf("unclosed quoted string")
 	}
 	l.pos += i + 1 // Include the double quote
-- 
2.43.0


From 65692c0f9888c90902e72c3b9458ffa3fc5b69a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:44 +0000
Subject: [PATCH 23/51] fix: the SML parser panicked on white space other than
 blanks, tabs and line ends

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index 04d879c..b11c87e 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -233,6 +233,10 @@ func lexMessageHeader(l *lexer) stateFn {
 			l.emit(tokenTypeLeftAngleBracket)
 			return lexMessageText
 		default:
+			if unicode.IsSpace(r) {
+				l.ignore()
+				continue
+			}
 			return lexMessageName
 		}
 	}
@@ -242,7 +246,9 @@ func lexMessageHeader(l *lexer) stateFn {
 // lexAfterDirection scans what follows the message direction. A word here is the
 // message name, even if it starts like another header element, e.g. "WaferMap".
 func lexAfterDirection(l *lexer) stateFn {
-	l.acceptRun(" \t\r\n")
+	for unicode.IsSpace(l.next()) {
+	}
+	l.backup()
 	l.ignore()
 	if strings.HasPrefix(l.input[l.pos:], "//") {
 		return lexComment
-- 
2.43.0


From 678e41a7cdedfcefd2b26eb60afa0470ef2a8e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 24/51] fix: a duplicated SML variable with a large size made
 the parser allocate that size

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 5a91dec..9694358 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -453,7 +453,9 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 			if _, ok := p.variableNames[t.val]; ok {
 				p.errorf(t, "duplicated variable name %q", t.val)
-				return ast.NewASCIINode(strings.Repeat("*", minLength)), true
+				// Continue with a placeholder; the error discards the message
+				name := fmt.Sprintf("_duplicate%d", len(p.errors))
+				return ast.NewASCIINodeVariable(name, minLength, maxLength), true
 			} else {
 				p.variableNames[t.val] = true
 				return ast.NewASCIINodeVariable(t.val, minLength, maxLength), true
-- 
2.43.0


From 374e151456f413eeff637b022f1ce88968dadfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 25/51] fix: encode empty items in lists as zero-length lists

A list holding an empty item could not be encoded, so the reply to a
status or constant request naming an unknown id was never sent, and two
of them panicked over a duplicate variable name.
---
 lib-secs2-hsms-go/pkg/ast/list.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index 0dd50ba..d8e8e55 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -73,7 +73,11 @@ func NewListNode(values ...interface{}) ItemNode {
 	)
 
 	for i, value := range values {
-		if v, ok := value.(ItemNode); ok {
+		if _, ok := value.(emptyItemNode); ok {
+			// An empty item has no encoding of its own; inside a list it is
+			// sent as a zero-length list. Variable positions are set below.
+			nodeValues = append(nodeValues, &ListNode{[]ItemNode{}, map[string]int{}, "list"})
+		} else if v, ok := value.(ItemNode); ok {
 			nodeValues = append(nodeValues, v)
 		} else if v, ok := value.(string); ok {
 			nodeValues = append(nodeValues, emptyNode)
-- 
2.43.0


From fc0124611459883b32af4797b6adb97c9017440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 26/51] fix: accept identifiers that need eight bytes

An id above 2^32-1 sent by the host (a report id, say) or given by the
application panicked with a value overflow.
---
 gem/id_utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 299d75b..f6d5bb5 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -57,7 +57,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 }
 
 func newIDInfoFromUint(value uint64) (idInfo, error) {
-	node := ast.NewUintNode(4, value)
+	byteSize := 4
+	if value > 0xFFFFFFFF {
+		byteSize = 8
+	}
+	node := ast.NewUintNode(byteSize, value)
 	return idInfo{raw: value, node: node, key: fmt.Sprintf("N:%d", value)}, nil
 }
 
-- 
2.43.0


From 2e947d6ea1208b3f667ccdcf45f9f477f697f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 27/51] fix: keep the enablement of an event apart from its
 links

S2F37 was recorded in the event's link, so disabling an event without
reports was refused, a disabled event was enabled again by unlinking and
linking it, and an S2F37 naming an unknown event was refused after it had
changed the events before it.
---
 gem/collection_event_handlers.go | 17 +++++++++++------
 gem/collection_events.go         |  5 ++---
 gem/handler.go                   |  2 ++
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 6743e92..48b3d8d 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -106,8 +106,9 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 
 	g.reportMu.RLock()
 	link, linked := g.eventLinks[key]
+	disabled := g.disabledEvents[key]
 	g.reportMu.RUnlock()
-	if !linked || !link.enabled || len(link.reports) == 0 {
+	if !linked || disabled || len(link.reports) == 0 {
 		return nil, 0, nil, nil
 	}
 
@@ -318,23 +319,27 @@ func (g *GemHandler) onS2F37(msg *ast.DataMessage) (*ast.DataMessage, error) {
 }
 
 func (g *GemHandler) setCollectionEventState(enable bool, ceids []idInfo) ERACKCode {
+	g.collectionMu.RLock()
+	defer g.collectionMu.RUnlock()
+
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
 	if len(ceids) == 0 {
-		for _, link := range g.eventLinks {
-			link.enabled = enable
+		for key := range g.collectionEvents {
+			g.disabledEvents[key] = !enable
 		}
 		return ERACKAccepted
 	}
 
 	for _, ce := range ceids {
-		if link, ok := g.eventLinks[ce.key]; ok {
-			link.enabled = enable
-		} else {
+		if _, ok := g.collectionEvents[ce.key]; !ok {
 			return ERACKCEIDUnknown
 		}
 	}
+	for _, ce := range ceids {
+		g.disabledEvents[ce.key] = !enable
+	}
 	return ERACKAccepted
 }
 
diff --git a/gem/collection_events.go b/gem/collection_events.go
index f7d0b26..2c20683 100644
--- a/gem/collection_events.go
+++ b/gem/collection_events.go
@@ -64,16 +64,15 @@ func (rd *ReportDefinition) idNode() ast.ItemNode {
 	return rd.info.node
 }
 
-// collectionEventLink ties a CEID to the list of report identifiers and enable flag.
+// collectionEventLink ties a CEID to the list of report identifiers.
 type collectionEventLink struct {
 	reports []string
-	enabled bool
 }
 
 func newCollectionEventLink(reports []string) *collectionEventLink {
 	copyReports := make([]string, len(reports))
 	copy(copyReports, reports)
-	return &collectionEventLink{reports: copyReports, enabled: true}
+	return &collectionEventLink{reports: copyReports}
 }
 
 func (link *collectionEventLink) removeReport(key string) {
diff --git a/gem/handler.go b/gem/handler.go
index 844c2e4..5c257be 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -80,6 +80,7 @@ type GemHandler struct {
 	reportMu         sync.RWMutex
 	reports          map[string]*ReportDefinition
 	eventLinks       map[string]*collectionEventLink
+	disabledEvents   map[string]bool // CEIDs disabled by S2F37, linked or not
 
 	processStore          *processProgramStore
 	processUploadHandler  ProcessProgramUploadHandler
@@ -132,6 +133,7 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 		collectionEvents:         make(map[string]*CollectionEvent),
 		reports:                  make(map[string]*ReportDefinition),
 		eventLinks:               make(map[string]*collectionEventLink),
+		disabledEvents:           make(map[string]bool),
 		processStore:             newProcessProgramStore(),
 		clockManager:             NewClockManager(),
 		logger:                   resolveLogger(opts.Logger),
-- 
2.43.0


From ed895fdaaad1735d9e3fe3c6cf558f33bd8bd3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 28/51] fix: report an event with the definitions of one moment

The link and its reports were looked up in separate steps, so an event
triggered while the host deleted its reports could carry some of them.
---
 gem/collection_event_handlers.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 48b3d8d..a5d2096 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -104,27 +104,20 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 		return nil, 0, nil, fmt.Errorf("unknown collection event %s", key)
 	}
 
+	// One look at the definitions, so that the report is that of one moment.
+	var definitions []*ReportDefinition
 	g.reportMu.RLock()
-	link, linked := g.eventLinks[key]
-	disabled := g.disabledEvents[key]
-	g.reportMu.RUnlock()
-	if !linked || disabled || len(link.reports) == 0 {
-		return nil, 0, nil, nil
+	if link, linked := g.eventLinks[key]; linked && !g.disabledEvents[key] {
+		for _, rptKey := range link.reports {
+			if report, exists := g.reports[rptKey]; exists {
+				definitions = append(definitions, report)
+			}
+		}
 	}
-
-	g.reportMu.RLock()
-	reportKeys := append([]string{}, link.reports...)
 	g.reportMu.RUnlock()
 
-	reportNodes := make([]ast.ItemNode, 0, len(reportKeys))
-	for _, rptKey := range reportKeys {
-		g.reportMu.RLock()
-		report, exists := g.reports[rptKey]
-		g.reportMu.RUnlock()
-		if !exists {
-			continue
-		}
-
+	reportNodes := make([]ast.ItemNode, 0, len(definitions))
+	for _, report := range definitions {
 		values := g.collectReportValues(report)
 		reportNodes = append(reportNodes, ast.NewListNode(report.idNode(), ast.NewListNode(values...)))
 	}
-- 
2.43.0


From 710e14fbae5d67a1dba19fe18e40130172352238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 29/51] fix: refuse a report defined twice, or linked twice, by
 one message

S2F33 accepted two definitions of a report and kept the last; S2F35
accepted the same report twice for an event, which then carried it twice.
---
 gem/collection_event_handlers.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index a5d2096..2a7399d 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -192,10 +192,15 @@ func (g *GemHandler) handleReportDefinitions(reports []reportDefinitionMessage)
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	defined := make(map[string]bool)
 	for _, rpt := range reports {
-		if _, exists := g.reports[rpt.id.key]; exists && len(rpt.vids) > 0 {
+		if len(rpt.vids) == 0 {
+			continue
+		}
+		if _, exists := g.reports[rpt.id.key]; exists || defined[rpt.id.key] {
 			return DRACKRPTIDRedefined
 		}
+		defined[rpt.id.key] = true
 	}
 
 	for _, rpt := range reports {
@@ -263,11 +268,17 @@ func (g *GemHandler) handleEventReportLinks(links []eventReportLinkMessage) LRAC
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	linked := make(map[[2]string]bool)
 	for _, link := range links {
 		if _, ok := g.collectionEvents[link.ceid.key]; !ok {
 			return LRACKCEIDDoesNotExist
 		}
 		for _, rpt := range link.rptids {
+			pair := [2]string{link.ceid.key, rpt.key}
+			if linked[pair] {
+				return LRACKCEIDAlreadyLinked
+			}
+			linked[pair] = true
 			if _, ok := g.reports[rpt.key]; !ok {
 				return LRACKRPTIDDoesNotExist
 			}
-- 
2.43.0


From 890e4b55f154cca0ad1d5557e9ec0f177d9c06f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 30/51] fix: do not reply to messages that ask for no reply

The host answered each S5F1 and S6F11, which the equipment sends without
the wait bit, and the equipment reported every such reply as S9F5.
---
 hsms/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 2f00bf3..4bbc7f8 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -730,7 +730,9 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 		return
 	}
 
-	if response == nil {
+	if response == nil || msg.WaitBit() == "false" {
+		// Nothing to say, or a message that asks for no reply: the peer would
+		// not recognize one.
 		return
 	}
 
-- 
2.43.0


From 543f284b45ae8f0e8c36c1d588a2671c257ad806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 31/51] fix: use a valid direction in alarm and clock replies

S2F18, S2F32, S5F4, S5F6 and S5F8 were built with the direction E->H,
which NewDataMessage refuses by panicking: the first such request ended
the process.
---
 gem/alarm_handlers.go | 6 +++---
 gem/clock_handlers.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index bb5ade2..1a8a932 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -119,7 +119,7 @@ func (g *GemHandler) onS5F7(msg *ast.DataMessage) (*ast.DataMessage, error) {
 //   3 - At least one ALID cannot be enabled
 func (g *GemHandler) buildS5F4(ackc5 byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(ackc5))
-	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "E->H", body)
+	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "H<-E", body)
 }
 
 // buildS5F6 creates S5F6 response with alarm list.
@@ -146,7 +146,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "E->H", body)
+	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "H<-E", body)
 }
 
 // buildS5F8 creates S5F8 response with enabled alarm list (same format as S5F6).
@@ -169,7 +169,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "E->H", body)
+	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "H<-E", body)
 }
 
 // Public APIs for alarm management (Equipment side)
diff --git a/gem/clock_handlers.go b/gem/clock_handlers.go
index cf81a7c..3761ad5 100644
--- a/gem/clock_handlers.go
+++ b/gem/clock_handlers.go
@@ -15,7 +15,7 @@ func (g *GemHandler) onS2F17(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	// Build S2F18 response
 	body := ast.NewASCIINode(timeStr)
-	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "E->H", body), nil
+	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "H<-E", body), nil
 }
 
 // onS2F31 handles Date and Time Set Request (Equipment side).
@@ -54,7 +54,7 @@ func (g *GemHandler) onS2F31(msg *ast.DataMessage) (*ast.DataMessage, error) {
 // buildS2F32 creates S2F32 response with TIACK code.
 func (g *GemHandler) buildS2F32(tiack byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(tiack))
-	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "E->H", body)
+	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "H<-E", body)
 }
 
 // Public APIs for clock management
-- 
2.43.0


From 1b385bf0fe69357a59d5d03173b3b8ed3c386607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 32/51] fix: bit 8 of ALCD says whether an alarm is set

S5F1 was sent with ALCD 1, which is the category of a cleared alarm, and
a received S5F1 that cleared an alarm of any category was reported as
set.
---
 gem/alarm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 4f693fb..a29a8c6 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -120,7 +120,7 @@ func (g *GemHandler) getEnabledAlarmList() []AlarmInfo {
 func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 	alcd := 0
 	if set {
-		alcd = 1
+		alcd = 0x80 // bit 8 of ALCD: set; the other bits are the category
 	}
 
 	body := ast.NewListNode(
@@ -157,7 +157,7 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	if !ok || len(alcdValues) == 0 {
 		return event, fmt.Errorf("gem: S5F1 ALCD missing value")
 	}
-	event.Set = alcdValues[0] != 0
+	event.Set = alcdValues[0]&0x80 != 0
 
 	alidNode, err := msg.Get(1)
 	if err != nil {
-- 
2.43.0


From 460ccc93306bc3848eb316ed26e0153efeb0a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 33/51] fix: alarm ids outside the width of their item

An alarm with an id above 65535 panicked when it was raised, and one that
is negative or above 32 bits whenever alarms were listed. An ALID item
without a value was taken for alarm 0 and one with several values for
its first.
---
 gem/alarm.go          | 53 +++++++++++++++++++++++++++++++------------
 gem/alarm_client.go   | 17 +++-----------
 gem/alarm_handlers.go | 19 ++++------------
 3 files changed, 46 insertions(+), 43 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index a29a8c6..84e8f6d 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -125,7 +126,7 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
-		ast.NewUintNode(2, alarm.ID),
+		newALIDNode(2, alarm.ID),
 		ast.NewASCIINode(alarm.Text),
 	)
 
@@ -163,19 +164,9 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	if err != nil {
 		return event, fmt.Errorf("gem: malformed S5F1 ALID: %w", err)
 	}
-	switch typed := alidNode.(type) {
-	case *ast.UintNode:
-		values, _ := typed.Values().([]uint64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
-		}
-	case *ast.IntNode:
-		values, _ := typed.Values().([]int64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
-		}
-	default:
-		return event, fmt.Errorf("gem: unsupported ALID type %T", alidNode)
+	event.ID, err = readALID(alidNode)
+	if err != nil {
+		return event, err
 	}
 
 	altxNode, err := msg.Get(2)
@@ -189,3 +180,37 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 
 	return event, nil
 }
+
+// newALIDNode encodes an alarm id in at least byteSize bytes, and in as many as it needs.
+func newALIDNode(byteSize, id int) ast.ItemNode {
+	switch {
+	case id < 0:
+		return ast.NewIntNode(8, id)
+	case byteSize <= 2 && id <= 0xFFFF:
+		return ast.NewUintNode(2, id)
+	case uint64(id) <= 0xFFFFFFFF:
+		return ast.NewUintNode(4, id)
+	default:
+		return ast.NewUintNode(8, id)
+	}
+}
+
+// readALID returns the one alarm id that an item holds.
+func readALID(node ast.ItemNode) (int, error) {
+	switch typed := node.(type) {
+	case *ast.UintNode:
+		values, ok := typed.Values().([]uint64)
+		if !ok || len(values) != 1 || values[0] > math.MaxInt {
+			return 0, fmt.Errorf("gem: ALID does not hold one alarm id")
+		}
+		return int(values[0]), nil
+	case *ast.IntNode:
+		values, ok := typed.Values().([]int64)
+		if !ok || len(values) != 1 {
+			return 0, fmt.Errorf("gem: ALID does not hold one alarm id")
+		}
+		return int(values[0]), nil
+	default:
+		return 0, fmt.Errorf("gem: unsupported ALID type %T", node)
+	}
+}
diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 371c936..93bb8d6 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -21,7 +21,7 @@ func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error)
 	// Build ALID list
 	alidItems := make([]interface{}, len(alarmIDs))
 	for i, id := range alarmIDs {
-		alidItems[i] = ast.NewUintNode(4, id)
+		alidItems[i] = newALIDNode(4, id)
 	}
 
 	// ALED: 128=Enable, 0=Disable
@@ -128,19 +128,8 @@ func parseAlarmListResponse(msg *ast.DataMessage) ([]AlarmInfo, error) {
 		if err != nil {
 			continue
 		}
-		var alid int
-		switch typed := alidNode.(type) {
-		case *ast.UintNode:
-			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				alid = int(values[0])
-			}
-		case *ast.IntNode:
-			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				alid = int(values[0])
-			}
-		default:
+		alid, err := readALID(alidNode)
+		if err != nil {
 			continue
 		}
 
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 1a8a932..02d979f 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -48,19 +48,8 @@ func (g *GemHandler) onS5F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 			continue
 		}
 
-		var id int
-		switch typed := alidNode.(type) {
-		case *ast.UintNode:
-			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				id = int(values[0])
-			}
-		case *ast.IntNode:
-			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				id = int(values[0])
-			}
-		default:
+		id, err := readALID(alidNode)
+		if err != nil {
 			return g.buildS5F4(1), nil
 		}
 
@@ -140,7 +129,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			newALIDNode(4, a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
@@ -163,7 +152,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			newALIDNode(4, a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
-- 
2.43.0


From 4579bac5036b86187f11b25b46fcfd7027ccd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 34/51] fix: an S2F15 with a refused value changed the
 constants before it

All values are validated before the first one is applied.
---
 gem/equipment_constants.go       | 25 +++++++++++++++++++------
 gem/status_equipment_handlers.go | 11 ++++++++++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 7c6a75d..c65fbb4 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -141,17 +141,30 @@ func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
 		return fmt.Errorf("nil value provided for equipment constant %v", ec.ID())
 	}
 
+	if err := ec.validate(node); err != nil {
+		return err
+	}
+	return ec.store(node)
+}
+
+// validate asks the validator, if there is one, without applying the value.
+func (ec *EquipmentConstant) validate(node ast.ItemNode) error {
 	ec.mu.RLock()
 	validator := ec.validator
-	updater := ec.updater
-	provider := ec.provider
 	ec.mu.RUnlock()
 
-	if validator != nil {
-		if err := validator(node); err != nil {
-			return err
-		}
+	if validator == nil {
+		return nil
 	}
+	return validator(node)
+}
+
+// store applies a value that was validated.
+func (ec *EquipmentConstant) store(node ast.ItemNode) error {
+	ec.mu.RLock()
+	updater := ec.updater
+	provider := ec.provider
+	ec.mu.RUnlock()
 
 	if updater != nil {
 		if err := updater(node); err != nil {
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index a31a1bb..6715600 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -393,9 +393,18 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		}
 	}
 
+	// Validate all of them before the first one is applied.
 	for _, upd := range updates {
 		constant := g.equipmentConstants[upd.id.key]
-		if err := constant.ApplyValue(upd.value); err != nil {
+		if err := constant.validate(upd.value); err != nil {
+			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			return ECACKValidationError
+		}
+	}
+
+	for _, upd := range updates {
+		constant := g.equipmentConstants[upd.id.key]
+		if err := constant.store(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
 		}
-- 
2.43.0


From b42b1efcbda12220cb8b0e4910bbec7766f3a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 35/51] fix: refuse an S2F41 with a malformed parameter

The command ran without the parameters that could not be read, and was
acknowledged as if it had been carried out as sent.
---
 gem/remote_command.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gem/remote_command.go b/gem/remote_command.go
index fae4198..f28b85f 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -153,22 +153,22 @@ func parseRemoteCommand(msg *ast.DataMessage) (RemoteCommandRequest, error) {
 	for i := 0; i < list.Size(); i++ {
 		entryNode, err := list.Get(i)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: missing parameter %d: %w", i, err)
 		}
 
 		entry, ok := entryNode.(*ast.ListNode)
 		if !ok || entry.Size() == 0 {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: parameter %d is not a name and a value", i)
 		}
 
 		nameNode, err := entry.Get(0)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: missing CPNAME of parameter %d: %w", i, err)
 		}
 
 		nameInfo, err := newIDInfoFromNode(nameNode)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: invalid CPNAME of parameter %d: %w", i, err)
 		}
 
 		value := ast.NewEmptyItemNode()
-- 
2.43.0


From 2e78af3f9622793b06975ff3bef888afe770ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 36/51] fix: store and return binary process programs

An S7F3 with a binary body, or a body of any other type, was accepted and
stored as an empty program. A program with characters outside ASCII
panicked when it was requested or uploaded.
---
 gem/process_program_handlers.go  |  9 ++++-----
 gem/process_programs.go          | 33 ++++++++++++++++++++++++++++++++
 gem/status_equipment_messages.go |  4 ++--
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 4cbf641..6b3e066 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -55,11 +55,10 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if err != nil {
 		return g.buildS7F4(1), nil
 	}
-	body := ""
-	if ascii, ok := bodyNode.(*ast.ASCIINode); ok {
-		if val, ok := ascii.Values().(string); ok {
-			body = val
-		}
+	body, err := processProgramBody(bodyNode)
+	if err != nil {
+		g.logger.Error("failed to parse S7F3", "error", err)
+		return g.buildS7F4(1), nil
 	}
 
 	ack := 0
diff --git a/gem/process_programs.go b/gem/process_programs.go
index 36ee120..721ade9 100644
--- a/gem/process_programs.go
+++ b/gem/process_programs.go
@@ -86,3 +86,36 @@ func ensureProcessProgramKey(id interface{}) (string, error) {
 	}
 	return info.key, nil
 }
+
+// processProgramBodyNode encodes a body as ASCII if it is, and else as binary.
+func processProgramBodyNode(body string) ast.ItemNode {
+	for i := 0; i < len(body); i++ {
+		if body[i] > 0x7F {
+			values := make([]interface{}, len(body))
+			for j := range values {
+				values[j] = int(body[j])
+			}
+			return ast.NewBinaryNode(values...)
+		}
+	}
+	return ast.NewASCIINode(body)
+}
+
+// processProgramBody returns the bytes of an ASCII or binary body.
+func processProgramBody(node ast.ItemNode) (string, error) {
+	switch typed := node.(type) {
+	case *ast.ASCIINode:
+		if val, ok := typed.Values().(string); ok {
+			return val, nil
+		}
+	case *ast.BinaryNode:
+		if ints, ok := typed.Values().([]int); ok {
+			bin := make([]byte, len(ints))
+			for i, n := range ints {
+				bin[i] = byte(n)
+			}
+			return string(bin), nil
+		}
+	}
+	return "", fmt.Errorf("unsupported PPBODY node type %T", node)
+}
diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 55e4683..576bfd7 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -209,7 +209,7 @@ func (g *GemHandler) buildS6F16(dataID int, ceNode ast.ItemNode, reports []ast.I
 }
 
 func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage {
-	payload := ast.NewListNode(ppid.node, ast.NewASCIINode(programBody))
+	payload := ast.NewListNode(ppid.node, processProgramBodyNode(programBody))
 	return ast.NewDataMessage("ProcessProgramSend", 7, 3, 1, "H->E", payload)
 }
 
@@ -230,7 +230,7 @@ func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *
 	if ppidNode == nil {
 		ppidNode = ast.NewEmptyItemNode()
 	}
-	bodyNode := ast.NewASCIINode(programBody)
+	bodyNode := processProgramBodyNode(programBody)
 	if ack != 0 {
 		bodyNode = ast.NewASCIINode("")
 	}
-- 
2.43.0


From ebd250a2b0b7af5e3d3442d5f157116592913a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 37/51] fix: process program codes outside one byte are
 refusals

An upload handler that returned such a code made S7F4 panic, and a request
handler that returned a negative one had its refusal sent as accepted.
---
 gem/status_equipment_messages.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 576bfd7..495315c 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -215,6 +215,9 @@ func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage
 
 func (g *GemHandler) buildS7F4(ack int) *ast.DataMessage {
 	//body := ast.NewListNode(ast.NewBinaryNode(ack))
+	if ack < 0 || ack > 255 {
+		ack = 1 // not a code that fits the item: still a refusal
+	}
 	body := ast.NewBinaryNode(ack)
 	return ast.NewDataMessage("ProcessProgramAcknowledge", 7, 4, 0, "H<-E", body)
 }
@@ -234,11 +237,8 @@ func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *
 	if ack != 0 {
 		bodyNode = ast.NewASCIINode("")
 	}
-	if ack < 0 {
-		ack = 0
-	}
-	if ack > 255 {
-		ack = 255
+	if ack < 0 || ack > 255 {
+		ack = 1 // not a code that fits the item: still a refusal
 	}
 	ackNode := ast.NewBinaryNode(fmt.Sprintf("0b%b", ack))
 	payload := ast.NewListNode(ppidNode, bodyNode, ackNode)
-- 
2.43.0


From 3cacd0f20ad534817cc1d5f9bc5bee30103ba872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 38/51] fix: refuse times that are not 14 or 16 digits

Anything was accepted after the first 14 characters.
---
 gem/clock.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gem/clock.go b/gem/clock.go
index f9cf584..f840291 100644
--- a/gem/clock.go
+++ b/gem/clock.go
@@ -69,9 +69,14 @@ func (c *ClockManager) GetFormattedTime() string {
 
 // ParseSEMITime parses a SEMI E5 format time string ("YYYYMMDDhhmmss00").
 func ParseSEMITime(timeStr string) (time.Time, error) {
-	if len(timeStr) < 14 {
+	if len(timeStr) != 14 && len(timeStr) != 16 {
 		return time.Time{}, errors.New("gem: invalid SEMI time format")
 	}
+	for i := 0; i < len(timeStr); i++ {
+		if timeStr[i] < '0' || timeStr[i] > '9' {
+			return time.Time{}, errors.New("gem: invalid SEMI time format")
+		}
+	}
 	// Parse first 14 characters (ignore centiseconds)
 	return time.Parse("20060102150405", timeStr[:14])
 }
-- 
2.43.0


From 5cb9d1d35d5092620147ddcc6c0f585c3291eca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 39/51] fix: send alarm reports in the order of the changes

An alarm raised and cleared at about the same time could be left cleared
with the report that it is set sent last.
---
 gem/alarm.go   | 4 ++++
 gem/handler.go | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/gem/alarm.go b/gem/alarm.go
index 84e8f6d..e2d7d29 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -55,6 +55,10 @@ func (g *GemHandler) RaiseAlarm(alarmID int, set bool) error {
 		return err
 	}
 
+	// Reports go out in the order of the changes they tell of.
+	g.alarmReportMu.Lock()
+	defer g.alarmReportMu.Unlock()
+
 	g.alarmMu.Lock()
 	alarm, ok := g.alarms[alarmID]
 	if !ok {
diff --git a/gem/handler.go b/gem/handler.go
index 5c257be..4f1e1b1 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -62,6 +62,8 @@ type GemHandler struct {
 	alarmMu sync.RWMutex
 	alarms  map[int]Alarm
 
+	alarmReportMu sync.Mutex // held from changing an alarm to sending its report
+
 	statusMu    sync.RWMutex
 	statusVars  map[string]*StatusVariable
 	statusOrder []string
-- 
2.43.0


From bbffa56131fe26657639e3cf6ba354efbd96bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 40/51] fix: do not panic on text that is not ASCII

---
 gem/alarm.go                     |  2 +-
 gem/alarm_handlers.go            |  4 ++--
 gem/handler.go                   |  8 ++++----
 gem/id_utils.go                  | 24 ++++++++++++++++++++++++
 gem/remote_command.go            |  3 +++
 gem/status_equipment_client.go   |  2 +-
 gem/status_equipment_handlers.go |  8 ++++----
 7 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index e2d7d29..f65176c 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -131,7 +131,7 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
 		newALIDNode(2, alarm.ID),
-		ast.NewASCIINode(alarm.Text),
+		ast.NewASCIINode(asciiText(alarm.Text)),
 	)
 
 	direction := "H<-E"
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 02d979f..1da3e45 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -130,7 +130,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
 			newALIDNode(4, a.ID),
-			ast.NewASCIINode(a.Text),
+			ast.NewASCIINode(asciiText(a.Text)),
 		)
 	}
 
@@ -153,7 +153,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
 			newALIDNode(4, a.ID),
-			ast.NewASCIINode(a.Text),
+			ast.NewASCIINode(asciiText(a.Text)),
 		)
 	}
 
diff --git a/gem/handler.go b/gem/handler.go
index 4f1e1b1..2acd59a 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -853,8 +853,8 @@ func (g *GemHandler) buildS1F14Equipment(commack int) *ast.DataMessage {
 	body := ast.NewListNode(
 		ast.NewBinaryNode(commack),
 		ast.NewListNode(
-			ast.NewASCIINode(g.mdln),
-			ast.NewASCIINode(g.softrev),
+			ast.NewASCIINode(asciiText(g.mdln)),
+			ast.NewASCIINode(asciiText(g.softrev)),
 		),
 	)
 	return ast.NewDataMessage("EstablishCommAck", 1, 14, 0, "H<-E", body)
@@ -866,8 +866,8 @@ func (g *GemHandler) buildS1F2Host() *ast.DataMessage {
 }
 
 func (g *GemHandler) buildS1F2Equipment() *ast.DataMessage {
-	md := ast.NewASCIINode(g.mdln)
-	sr := ast.NewASCIINode(g.softrev)
+	md := ast.NewASCIINode(asciiText(g.mdln))
+	sr := ast.NewASCIINode(asciiText(g.softrev))
 	body := ast.NewListNode(ast.NewListNode(md, sr))
 	return ast.NewDataMessage("AreYouThereAck", 1, 2, 0, "H<-E", body)
 }
diff --git a/gem/id_utils.go b/gem/id_utils.go
index f6d5bb5..e188fec 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -50,6 +51,9 @@ func newIDInfo(value interface{}) (idInfo, error) {
 		}
 		return newIDInfoFromUint(uint64(v))
 	case string:
+		if !isASCII(v) {
+			return idInfo{}, fmt.Errorf("identifier %q is not ASCII", v)
+		}
 		return idInfo{raw: v, node: ast.NewASCIINode(v), key: fmt.Sprintf("S:%s", v)}, nil
 	default:
 		return idInfo{}, fmt.Errorf("unsupported identifier type %T", value)
@@ -125,3 +129,23 @@ type idRequest struct {
 	info idInfo
 	ok   bool
 }
+
+// isASCII tells whether an ASCII item can hold a text.
+func isASCII(text string) bool {
+	for i := 0; i < len(text); i++ {
+		if text[i] > 0x7F {
+			return false
+		}
+	}
+	return true
+}
+
+// asciiText replaces what an ASCII item cannot hold in a text by '?'.
+func asciiText(text string) string {
+	return strings.Map(func(r rune) rune {
+		if r > 0x7F {
+			return '?'
+		}
+		return r
+	}, text)
+}
diff --git a/gem/remote_command.go b/gem/remote_command.go
index f28b85f..296cf7c 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -267,6 +267,9 @@ func itemNodeFromValue(value interface{}) (ast.ItemNode, error) {
 	case ast.ItemNode:
 		return v, nil
 	case string:
+		if !isASCII(v) {
+			return nil, fmt.Errorf("value %q is not ASCII", v)
+		}
 		return ast.NewASCIINode(v), nil
 	case []byte:
 		ints := make([]interface{}, len(v))
diff --git a/gem/status_equipment_client.go b/gem/status_equipment_client.go
index 5c23552..9d4e852 100644
--- a/gem/status_equipment_client.go
+++ b/gem/status_equipment_client.go
@@ -682,7 +682,7 @@ func (g *GemHandler) SetDateTime(timeStr string) (byte, error) {
 		return 0, err
 	}
 
-	if len(timeStr) < 14 {
+	if len(timeStr) < 14 || !isASCII(timeStr) {
 		return 0, fmt.Errorf("gem: invalid time format (need YYYYMMDDhhmmss00)")
 	}
 
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index 6715600..13733a8 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -180,8 +180,8 @@ func safeStatusValue(variable *StatusVariable, logger common.Logger) ast.ItemNod
 func buildStatusInfoNode(variable *StatusVariable) ast.ItemNode {
 	return ast.NewListNode(
 		variable.idNode(),
-		ast.NewASCIINode(variable.Name),
-		ast.NewASCIINode(variable.Unit),
+		ast.NewASCIINode(asciiText(variable.Name)),
+		ast.NewASCIINode(asciiText(variable.Unit)),
 	)
 }
 
@@ -270,11 +270,11 @@ func buildEquipmentConstantInfoNode(constant *EquipmentConstant) ast.ItemNode {
 
 	return ast.NewListNode(
 		constant.idNode(),
-		ast.NewASCIINode(constant.Name),
+		ast.NewASCIINode(asciiText(constant.Name)),
 		minNode,
 		maxNode,
 		defNode,
-		ast.NewASCIINode(constant.Unit),
+		ast.NewASCIINode(asciiText(constant.Unit)),
 	)
 }
 
-- 
2.43.0


From 790cb0ca1fdb1a437bd36779c2fb939b1a03b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 41/51] fix: tie the communication state to the selected
 session

Losing or deselecting the session ends communication even when another one
takes its place at once. An attempt to establish communication only counts for
the session it was made in, one that fails does not undo what the peer has
established meanwhile, and the next one comes after
EstablishCommunicationWait, on the equipment too.
---
 gem/handler.go   | 219 ++++++++++++++++++++---------------------------
 hsms/protocol.go |  17 ++++
 2 files changed, 108 insertions(+), 128 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 2acd59a..fde3a83 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -48,8 +48,11 @@ type GemHandler struct {
 	state   *stateMachine
 	control *ControlStateMachine
 
-	enabled             *atomic.Bool
-	handshakeInProgress *atomic.Bool
+	enabled *atomic.Bool
+
+	commMu    sync.Mutex // orders the changes of the communication state
+	session   uint64     // the HSMS session that the communication state is about
+	handshake *handshake // the current attempt to establish communication
 
 	events Events
 
@@ -117,8 +120,7 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 			InitialState:      opts.InitialControlState,
 			InitialOnlineMode: opts.InitialOnlineMode,
 		}),
-		enabled:             atomic.NewBool(false),
-		handshakeInProgress: atomic.NewBool(false),
+		enabled: atomic.NewBool(false),
 		events: Events{
 			HandlerCommunicating:  &common.Event{},
 			AlarmReceived:         &common.Event{},
@@ -142,7 +144,8 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 		controlAttemptInProgress: atomic.NewBool(false),
 	}
 
-	handler.setCommunicationState(CommunicationStateNotCommunicating)
+	prev := handler.state.setState(CommunicationStateNotCommunicating)
+	handler.onCommunicationStateChanged(prev, CommunicationStateNotCommunicating)
 
 	handler.protocol.OnS9Error = func(errorInfo *hsms.S9ErrorInfo) {
 		handler.events.S9ErrorReceived.Fire(map[string]interface{}{
@@ -221,7 +224,6 @@ func (g *GemHandler) Enable() {
 		return
 	}
 
-	g.state.setState(CommunicationStateNotCommunicating)
 	g.protocol.Enable()
 
 	g.stopMu.Lock()
@@ -238,7 +240,7 @@ func (g *GemHandler) Disable() {
 		return
 	}
 
-	g.setCommunicationState(CommunicationStateNotCommunicating)
+	g.changeCommunication(nil)
 
 	g.stopMu.Lock()
 	if g.stopCh != nil {
@@ -381,9 +383,36 @@ func (g *GemHandler) notifyCommunicating() {
 	}
 }
 
-func (g *GemHandler) setCommunicationState(state CommunicationState) {
-	prev := g.state.setState(state)
-	g.onCommunicationStateChanged(prev, state)
+// handshake is an attempt to establish communication.
+type handshake struct {
+	session uint64 // the HSMS session it was begun in
+}
+
+// changeCommunication brings the communication state up to date with the
+// connection: what was established in a session ends with it. It then calls
+// change, if there is a selected session, which may change the state further.
+func (g *GemHandler) changeCommunication(change func(session uint64)) {
+	g.commMu.Lock()
+	prev := g.state.State()
+	session, selected := g.protocol.SelectedSession()
+	usable := selected && g.enabled.Load()
+	if !usable || session != g.session {
+		g.session = session
+		g.handshake = nil
+		g.state.setState(CommunicationStateNotCommunicating)
+	}
+	current := g.state.State()
+	if usable && change != nil {
+		change(session)
+	}
+	next := g.state.State()
+	g.commMu.Unlock()
+
+	g.onCommunicationStateChanged(prev, current)
+	if next == CommunicationStateCommunicating && current != next {
+		g.notifyCommunicating()
+	}
+	g.onCommunicationStateChanged(current, next)
 }
 
 func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine) error) error {
@@ -434,7 +463,6 @@ func (g *GemHandler) onCommunicationStateChanged(prev, next CommunicationState)
 
 	switch next {
 	case CommunicationStateCommunicating:
-		g.handshakeInProgress.Store(false)
 		if g.deviceType == DeviceEquipment {
 			state := g.control.State()
 			switch state {
@@ -445,7 +473,9 @@ func (g *GemHandler) onCommunicationStateChanged(prev, next CommunicationState)
 			}
 		}
 	case CommunicationStateNotCommunicating:
-		g.handshakeInProgress.Store(false)
+		if prev == CommunicationStateWaitCRA || prev == CommunicationStateWaitDelay {
+			return // there was no communication to lose
+		}
 		_ = g.transitionControl(func(sm *ControlStateMachine) error {
 			state := sm.State()
 			switch state {
@@ -509,41 +539,6 @@ func (g *GemHandler) initiateAttemptOnline() {
 	}()
 }
 
-func (g *GemHandler) initiateEstablishCommunication() {
-	if g.deviceType != DeviceEquipment {
-		return
-	}
-	if !g.handshakeInProgress.CompareAndSwap(false, true) {
-		return
-	}
-
-	go func() {
-		defer g.handshakeInProgress.Store(false)
-
-		if g.State() == CommunicationStateCommunicating {
-			return
-		}
-
-		resp, err := g.protocol.SendAndWait(g.buildS1F13Equipment())
-		if err != nil {
-			g.logger.Error("S1F13 request failed", "error", err)
-			return
-		}
-		if resp == nil {
-			g.logger.Warn("S1F13 returned nil response")
-			return
-		}
-
-		ack := readCommAck(resp)
-		if ack != 0 {
-			g.logger.Warn("S1F13 communication denied", "COMMACK", ack)
-			return
-		}
-
-		g.setCommunicating()
-	}()
-}
-
 func (g *GemHandler) monitorLoop(stop <-chan struct{}) {
 	ticker := time.NewTicker(500 * time.Millisecond)
 	defer ticker.Stop()
@@ -563,32 +558,11 @@ func (g *GemHandler) observe() {
 		return
 	}
 
-	if !g.protocol.Connected() {
-		g.handshakeInProgress.Store(false)
-		g.setCommunicationState(CommunicationStateNotCommunicating)
-		return
-	}
-
-	if g.deviceType == DeviceHost && g.protocol.CurrentState() == hsms.StateConnectedSelected {
-		if g.State() == CommunicationStateCommunicating {
-			return
-		}
-		if g.handshakeInProgress.Load() {
-			return
+	g.changeCommunication(func(session uint64) {
+		if g.state.State() == CommunicationStateNotCommunicating {
+			g.initiateHandshake(session)
 		}
-		g.initiateHandshake()
-		return
-	}
-
-	if g.deviceType == DeviceEquipment && g.protocol.CurrentState() == hsms.StateConnectedSelected {
-		if g.State() == CommunicationStateCommunicating {
-			return
-		}
-		if g.handshakeInProgress.Load() {
-			return
-		}
-		g.initiateEstablishCommunication()
-	}
+	})
 }
 
 func (g *GemHandler) ensureCommunicating() error {
@@ -598,82 +572,72 @@ func (g *GemHandler) ensureCommunicating() error {
 	return nil
 }
 
-func (g *GemHandler) initiateHandshake() {
-	if !g.enabled.Load() {
-		return
-	}
+// initiateHandshake begins an attempt to establish communication. The caller
+// holds commMu.
+func (g *GemHandler) initiateHandshake(session uint64) {
+	attempt := &handshake{session: session}
+	g.handshake = attempt
 
-	if !g.handshakeInProgress.CompareAndSwap(false, true) {
-		return
+	waitCRA := time.Duration(g.protocol.Timeouts().T3ReplyTimeout()) * time.Second
+	if waitCRA <= 0 {
+		waitCRA = 45 * time.Second
 	}
 
-	go func() {
-		defer g.handshakeInProgress.Store(false)
-
-		waitCRA := time.Duration(g.protocol.Timeouts().T3ReplyTimeout()) * time.Second
-		if waitCRA <= 0 {
-			waitCRA = 45 * time.Second
-		}
-
-		g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, g.onWaitCRATimeout)
+	g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, func() { g.onWaitCRATimeout(attempt) })
 
+	go func() {
 		dataMsg, err := g.protocol.SendAndWait(g.buildS1F13())
 		if err != nil {
 			g.logger.Error("establish communication request failed", "error", err)
-			g.scheduleRetry()
+			g.scheduleRetry(attempt)
 			return
 		}
 
 		if commack := readCommAck(dataMsg); commack != 0 {
 			g.logger.Warn("establishing communication denied", "COMMACK", commack)
-			g.scheduleRetry()
+			g.scheduleRetry(attempt)
 			return
 		}
 
-		g.setCommunicating()
+		g.changeCommunication(func(session uint64) {
+			if session == attempt.session {
+				g.setCommunicatingLocked()
+			}
+		})
 	}()
 }
 
-func (g *GemHandler) scheduleRetry() {
-	if !g.enabled.Load() {
-		return
-	}
-	g.state.setStateWithWaitDelay(CommunicationStateWaitDelay, g.establishWait, g.onWaitDelayTimeout)
+// scheduleRetry makes an attempt that failed wait for the next one, unless
+// something else has put an end to it.
+func (g *GemHandler) scheduleRetry(attempt *handshake) {
+	g.changeCommunication(func(uint64) {
+		if g.handshake != attempt || g.state.State() != CommunicationStateWaitCRA {
+			return
+		}
+		g.state.setStateWithWaitDelay(CommunicationStateWaitDelay, g.establishWait, func() { g.onWaitDelayTimeout(attempt) })
+	})
+}
+
+func (g *GemHandler) setCommunicatingLocked() {
+	g.handshake = nil
+	g.state.setState(CommunicationStateCommunicating)
 }
 
 func (g *GemHandler) setCommunicating() {
-	prev := g.state.setState(CommunicationStateCommunicating)
-	if prev != CommunicationStateCommunicating {
-		g.notifyCommunicating()
-	}
-	g.onCommunicationStateChanged(prev, CommunicationStateCommunicating)
+	g.changeCommunication(func(uint64) { g.setCommunicatingLocked() })
 }
 
-func (g *GemHandler) onWaitCRATimeout() {
-	if !g.enabled.Load() {
-		return
-	}
-	if g.State() != CommunicationStateWaitCRA {
-		return
-	}
+func (g *GemHandler) onWaitCRATimeout(attempt *handshake) {
 	g.logger.Warn("wait CRA timed out")
-	g.scheduleRetry()
+	g.scheduleRetry(attempt)
 }
 
-func (g *GemHandler) onWaitDelayTimeout() {
-	if !g.enabled.Load() {
-		return
-	}
-	if g.State() != CommunicationStateWaitDelay {
-		return
-	}
-
-	if g.deviceType == DeviceHost && g.protocol.Connected() && g.protocol.CurrentState() == hsms.StateConnectedSelected {
-		g.initiateHandshake()
-		return
-	}
-
-	g.setCommunicationState(CommunicationStateNotCommunicating)
+func (g *GemHandler) onWaitDelayTimeout(attempt *handshake) {
+	g.changeCommunication(func(session uint64) {
+		if g.handshake == attempt && g.state.State() == CommunicationStateWaitDelay {
+			g.initiateHandshake(session)
+		}
+	})
 }
 
 func (g *GemHandler) onS1F1(_ *ast.DataMessage) (*ast.DataMessage, error) {
@@ -700,7 +664,6 @@ func (g *GemHandler) onS1F14(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		g.setCommunicating()
 	} else {
 		g.logger.Warn("received S1F14 with non-zero COMMACK", "COMMACK", commack)
-		g.scheduleRetry()
 	}
 	return nil, nil
 }
@@ -834,11 +797,11 @@ func (g *GemHandler) buildS1F1() *ast.DataMessage {
 }
 
 func (g *GemHandler) buildS1F13() *ast.DataMessage {
-	return ast.NewDataMessage("EstablishCommRequest", 1, 13, 1, "H->E", ast.NewListNode())
-}
-
-func (g *GemHandler) buildS1F13Equipment() *ast.DataMessage {
-	return ast.NewDataMessage("EstablishCommRequest", 1, 13, 1, "H<-E", ast.NewListNode())
+	direction := "H->E"
+	if g.deviceType == DeviceEquipment {
+		direction = "H<-E"
+	}
+	return ast.NewDataMessage("EstablishCommRequest", 1, 13, 1, direction, ast.NewListNode())
 }
 
 func (g *GemHandler) buildS1F14Host(commack int) *ast.DataMessage {
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 4bbc7f8..dace4c0 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -86,6 +86,7 @@ type HsmsProtocol struct {
 
 	timeouts        *SecsTimeout
 	connectionState *ConnectionStateMachine
+	selections      *atomic.Uint64 // how often the SELECTED state was entered
 	hsmsConnection  *HsmsConnection
 
 	queueMu      sync.RWMutex
@@ -138,6 +139,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		connected:            atomic.NewBool(false),
 		logger:               logger,
 		systemCounter:        atomic.NewUint32(rand.Uint32()),
+		selections:           atomic.NewUint64(0),
 		timeouts:             NewSecsTimeout(),
 		systemQueues:         make(map[transactionKey]*utils.Deque),
 		handlers:             make(map[string]DataMessageHandler),
@@ -272,6 +274,9 @@ func (p *HsmsProtocol) onTimeoutT7(ctx context.Context, e *fsm.Event) {
 // onLeaveConnected ends what belongs to a connection before its loss becomes
 // visible, so that it cannot hit the next connection.
 func (p *HsmsProtocol) onLeaveConnected(ctx context.Context, e *fsm.Event) {
+	if e.Dst == StateConnectedSelected {
+		p.selections.Inc()
+	}
 	if e.Dst != StateNotConnected {
 		return
 	}
@@ -1196,6 +1201,18 @@ func (p *HsmsProtocol) CurrentState() string {
 	return p.connectionState.CurrentState()
 }
 
+// SelectedSession reports whether the connection is in the SELECTED state, and
+// if so, a number that no other period in that state has.
+func (p *HsmsProtocol) SelectedSession() (uint64, bool) {
+	for {
+		number := p.selections.Load()
+		selected := p.connected.Load() && p.connectionState.CurrentState() == StateConnectedSelected
+		if number == p.selections.Load() {
+			return number, selected
+		}
+	}
+}
+
 // Timeouts returns protocol timeout configuration.
 func (p *HsmsProtocol) Timeouts() *SecsTimeout {
 	return p.timeouts
-- 
2.43.0


From 0bb9acc3011233d64eeb0dccba46189e62a77e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 42/51] fix: only an S1F14 answers an S1F13

---
 gem/handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gem/handler.go b/gem/handler.go
index fde3a83..a9e9f57 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -593,6 +593,11 @@ func (g *GemHandler) initiateHandshake(session uint64) {
 			return
 		}
 
+		if dataMsg.StreamCode() != 1 || dataMsg.FunctionCode() != 14 {
+			g.logger.Warn("unexpected response to S1F13", "response", fmt.Sprintf("S%02dF%02d", dataMsg.StreamCode(), dataMsg.FunctionCode()))
+			g.scheduleRetry(attempt)
+			return
+		}
 		if commack := readCommAck(dataMsg); commack != 0 {
 			g.logger.Warn("establishing communication denied", "COMMACK", commack)
 			g.scheduleRetry(attempt)
-- 
2.43.0


From 7c17b59e589007d577655f08855fed3a0bb745b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 43/51] fix: make control state transitions atomic

A transition and the states it is reported with go together, and are reported
in their order. An attempt to go online that something else has put an end to
does not end a later one.
---
 gem/handler.go | 165 +++++++++++++++++++++++++++++--------------------
 1 file changed, 99 insertions(+), 66 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index a9e9f57..2647b2b 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -98,7 +98,11 @@ type GemHandler struct {
 
 	logger common.Logger
 
-	controlAttemptInProgress *atomic.Bool
+	controlMu       sync.Mutex      // orders the transitions of the control state
+	controlAttempt  int             // the current attempt to go online, 0 if there is none
+	controlAttempts int             // how many there have been
+	controlChanges  []controlChange // to be reported
+	controlFiring   bool            // somebody is reporting them
 }
 
 // NewGemHandler creates a GEM handler backed by the provided HSMS protocol.
@@ -130,18 +134,17 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 			ControlStateChanged:   &common.Event{},
 			S9ErrorReceived:       &common.Event{},
 		},
-		alarms:                   make(map[int]Alarm),
-		statusVars:               make(map[string]*StatusVariable),
-		equipmentConstants:       make(map[string]*EquipmentConstant),
-		dataVars:                 make(map[string]*DataVariable),
-		collectionEvents:         make(map[string]*CollectionEvent),
-		reports:                  make(map[string]*ReportDefinition),
-		eventLinks:               make(map[string]*collectionEventLink),
-		disabledEvents:           make(map[string]bool),
-		processStore:             newProcessProgramStore(),
-		clockManager:             NewClockManager(),
-		logger:                   resolveLogger(opts.Logger),
-		controlAttemptInProgress: atomic.NewBool(false),
+		alarms:             make(map[int]Alarm),
+		statusVars:         make(map[string]*StatusVariable),
+		equipmentConstants: make(map[string]*EquipmentConstant),
+		dataVars:           make(map[string]*DataVariable),
+		collectionEvents:   make(map[string]*CollectionEvent),
+		reports:            make(map[string]*ReportDefinition),
+		eventLinks:         make(map[string]*collectionEventLink),
+		disabledEvents:     make(map[string]bool),
+		processStore:       newProcessProgramStore(),
+		clockManager:       NewClockManager(),
+		logger:             resolveLogger(opts.Logger),
 	}
 
 	prev := handler.state.setState(CommunicationStateNotCommunicating)
@@ -190,8 +193,6 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 
 	//handler.protocol.RegisterHandler(5, 2, handler.onS5F2)
 
-	handler.onControlStateTransition(ControlStateInit, handler.control.State())
-
 	return handler, nil
 }
 
@@ -280,9 +281,6 @@ func (g *GemHandler) SwitchControlOnline() error {
 		if sm.State() == ControlStateEquipmentOffline || sm.State() == ControlStateHostOffline {
 			return sm.SwitchOnline()
 		}
-		if sm.State() == ControlStateAttemptOnline {
-			g.initiateAttemptOnline()
-		}
 		return nil
 	})
 }
@@ -419,37 +417,66 @@ func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine)
 	if g.control == nil {
 		return ErrOperationNotSupported
 	}
+	g.controlMu.Lock()
 	prev := g.control.State()
-	if err := transition(g.control); err != nil {
-		return err
-	}
+	err := transition(g.control)
 	next := g.control.State()
-	g.onControlStateTransition(prev, next)
-	return nil
+	g.recordControlChangeLocked(prev, next)
+	g.controlMu.Unlock()
+
+	g.reportControlChanges()
+	if next == ControlStateAttemptOnline {
+		g.initiateAttemptOnline()
+	}
+	return err
+}
+
+// controlChange is a change of the control state to be reported.
+type controlChange struct {
+	previous, current ControlState
+	mode              OnlineControlMode
 }
 
-func (g *GemHandler) onControlStateTransition(prev, next ControlState) {
+// recordControlChangeLocked notes a change of the control state. The caller
+// holds controlMu.
+func (g *GemHandler) recordControlChangeLocked(prev, next ControlState) {
 	if prev == next {
 		return
 	}
-	if prev == ControlStateAttemptOnline && next != ControlStateAttemptOnline {
-		g.controlAttemptInProgress.Store(false)
-	}
-	if g.events.ControlStateChanged != nil {
-		payload := map[string]interface{}{
-			"handler":  g,
-			"previous": prev,
-			"current":  next,
-		}
-		if g.control != nil {
-			payload["mode"] = g.control.OnlineMode()
+	g.controlAttempt = 0
+	g.controlChanges = append(g.controlChanges, controlChange{prev, next, g.control.OnlineMode()})
+}
+
+// reportControlChanges fires the events of the changes, in their order. While
+// somebody fires one, the others are left to them.
+func (g *GemHandler) reportControlChanges() {
+	for {
+		g.controlMu.Lock()
+		if g.controlFiring || len(g.controlChanges) == 0 {
+			g.controlMu.Unlock()
+			return
 		}
-		g.events.ControlStateChanged.Fire(payload)
+		change := g.controlChanges[0]
+		g.controlChanges = g.controlChanges[1:]
+		g.controlFiring = true
+		g.controlMu.Unlock()
+
+		g.fireControlChange(change)
+
+		g.controlMu.Lock()
+		g.controlFiring = false
+		g.controlMu.Unlock()
 	}
+}
 
-	switch next {
-	case ControlStateAttemptOnline:
-		g.initiateAttemptOnline()
+func (g *GemHandler) fireControlChange(change controlChange) {
+	if g.events.ControlStateChanged != nil {
+		g.events.ControlStateChanged.Fire(map[string]interface{}{
+			"handler":  g,
+			"previous": change.previous,
+			"current":  change.current,
+			"mode":     change.mode,
+		})
 	}
 }
 
@@ -490,35 +517,43 @@ func (g *GemHandler) onCommunicationStateChanged(prev, next CommunicationState)
 	}
 }
 
+// initiateAttemptOnline asks the host whether it is there, when the control
+// state is ATTEMPT_ONLINE and nobody has asked yet.
 func (g *GemHandler) initiateAttemptOnline() {
 	if g.control == nil {
 		return
 	}
-	if !g.controlAttemptInProgress.CompareAndSwap(false, true) {
+	g.controlMu.Lock()
+	defer g.controlMu.Unlock()
+	if g.controlAttempt != 0 || g.control.State() != ControlStateAttemptOnline {
 		return
 	}
+	g.controlAttempts++
+	attempt := g.controlAttempts
+	g.controlAttempt = attempt
 
-	go func() {
-		defer g.controlAttemptInProgress.Store(false)
-
-		if g.ControlState() != ControlStateAttemptOnline {
-			return
-		}
+	// end leaves ATTEMPT_ONLINE, unless something else has done so.
+	end := func(transition func(sm *ControlStateMachine) error) {
+		_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			if g.controlAttempt != attempt {
+				return nil
+			}
+			g.controlAttempt = 0
+			return transition(sm)
+		})
+	}
 
+	go func() {
 		if g.State() != CommunicationStateCommunicating {
 			g.logger.Warn("attempt online while not communicating")
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				return sm.AttemptOnlineFailHostOffline()
-			})
+			end((*ControlStateMachine).AttemptOnlineFailHostOffline)
 			return
 		}
 
 		resp, err := g.protocol.SendAndWait(g.buildS1F1())
 		if err != nil {
 			g.logger.Error("S1F1 request failed", "error", err)
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				return sm.AttemptOnlineFailHostOffline()
-			})
+			end((*ControlStateMachine).AttemptOnlineFailHostOffline)
 			return
 		}
 		if resp == nil || resp.StreamCode() != 1 || resp.FunctionCode() != 2 {
@@ -527,15 +562,11 @@ func (g *GemHandler) initiateAttemptOnline() {
 			} else {
 				g.logger.Warn("unexpected nil response to S1F1")
 			}
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				return sm.AttemptOnlineFailHostOffline()
-			})
+			end((*ControlStateMachine).AttemptOnlineFailHostOffline)
 			return
 		}
 
-		_ = g.transitionControl(func(sm *ControlStateMachine) error {
-			return sm.AttemptOnlineSuccess()
-		})
+		end((*ControlStateMachine).AttemptOnlineSuccess)
 	}()
 }
 
@@ -681,6 +712,9 @@ func (g *GemHandler) onS1F15(_ *ast.DataMessage) (*ast.DataMessage, error) {
 	oflack := 0
 	if g.control != nil && g.control.IsOnlineState() {
 		if err := g.transitionControl(func(sm *ControlStateMachine) error {
+			if !sm.IsOnlineState() {
+				return nil // gone offline meanwhile
+			}
 			return sm.RemoteOffline()
 		}); err != nil {
 			oflack = 1
@@ -696,16 +730,15 @@ func (g *GemHandler) onS1F17(_ *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 
 	onlack := 1
-	state := g.ControlState()
-	if state == ControlStateHostOffline {
-		if err := g.transitionControl(func(sm *ControlStateMachine) error {
-			return sm.RemoteOnline()
-		}); err == nil {
+	_ = g.transitionControl(func(sm *ControlStateMachine) error {
+		if sm.State() == ControlStateHostOffline {
 			onlack = 0
+			return sm.RemoteOnline()
+		} else if sm.IsOnlineState() {
+			onlack = 2
 		}
-	} else if g.control != nil && g.control.IsOnlineState() {
-		onlack = 2
-	}
+		return nil
+	})
 
 	return g.buildS1F18(onlack), nil
 }
-- 
2.43.0


From 07122f666f78b38fc7f423b2473f70c8da29f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 44/51] fix: an S1F14 that nobody asked for does not establish
 communication

---
 gem/handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gem/handler.go b/gem/handler.go
index 2647b2b..404554d 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -697,7 +697,11 @@ func (g *GemHandler) onS1F14(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		return nil, nil
 	}
 	if commack := readCommAck(msg); commack == 0 {
-		g.setCommunicating()
+		g.changeCommunication(func(uint64) {
+			if g.handshake != nil { // otherwise nobody has asked
+				g.setCommunicatingLocked()
+			}
+		})
 	} else {
 		g.logger.Warn("received S1F14 with non-zero COMMACK", "COMMACK", commack)
 	}
-- 
2.43.0


From ab50c63cea31821d39bf7c5464697349acac8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 45/51] fix: let T8 time the characters of a message, not the
 silence between messages

A session without traffic for T8 was dropped, and a message that took longer
than T8 in all was too, however small the gaps.
---
 api.go           |  7 +++++++
 codec/bufio.go   | 10 ++++++++++
 codec/secs2.go   | 50 ++++++++++++++++++++++++++++++++++++++++++++++--
 hsms/protocol.go | 22 +++------------------
 4 files changed, 68 insertions(+), 21 deletions(-)

diff --git a/api.go b/api.go
index 76ca8ba..005bdb8 100644
--- a/api.go
+++ b/api.go
@@ -29,6 +29,13 @@ type DeadlineCodec interface {
 	SetWriteDeadline(time.Time) error
 }
 
+// ReadGapCodec can limit the time between two reads within one message;
+// SetReadGap reports whether it does.
+type ReadGapCodec interface {
+	Codec
+	SetReadGap(time.Duration) bool
+}
+
 type ClearSendChan interface {
 	ClearSendChan(<-chan interface{})
 }
diff --git a/codec/bufio.go b/codec/bufio.go
index 4f731f4..df8f1ca 100644
--- a/codec/bufio.go
+++ b/codec/bufio.go
@@ -132,3 +132,13 @@ func (c *bufioCodec) SetReadDeadline(t time.Time) error {
 func (c *bufioCodec) SetWriteDeadline(t time.Time) error {
 	return c.stream.SetWriteDeadline(t)
 }
+
+// SetReadGap limits the time between two reads within one message, if the base
+// codec and the connection can.
+func (c *bufioCodec) SetReadGap(gap time.Duration) bool {
+	if c.stream.deadline == nil {
+		return false
+	}
+	base, ok := c.base.(link.ReadGapCodec)
+	return ok && base.SetReadGap(gap)
+}
diff --git a/codec/secs2.go b/codec/secs2.go
index ab38fe2..0684b96 100644
--- a/codec/secs2.go
+++ b/codec/secs2.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"time"
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
@@ -13,6 +14,10 @@ import (
 var ErrMsgParsing = errors.New("message parsing error")
 var ErrMsgFormat = errors.New("message format error")
 
+type readDeadliner interface {
+	SetReadDeadline(time.Time) error
+}
+
 type SecsIIProtocol struct{}
 
 func (s *SecsIIProtocol) NewCodec(rw io.ReadWriter) (link.Codec, error) {
@@ -38,10 +43,51 @@ type secsIICodec struct {
 	bodyBuf     []byte
 	headDecoder func([]byte) uint32
 	headEncoder func([]byte, uint32)
+
+	gap time.Duration
+}
+
+// SetReadGap limits the time between two reads within one message. The time
+// between messages is not limited.
+func (c *secsIICodec) SetReadGap(gap time.Duration) bool {
+	if _, ok := c.rw.(readDeadliner); !ok {
+		return false
+	}
+	c.gap = gap
+	return true
+}
+
+// readFull fills buf; inside says whether the message has already begun.
+func (c *secsIICodec) readFull(buf []byte, inside bool) error {
+	dc, ok := c.rw.(readDeadliner)
+	if !ok || c.gap <= 0 {
+		_, err := io.ReadFull(c.rw, buf)
+		return err
+	}
+
+	for n := 0; n < len(buf); {
+		var deadline time.Time
+		if inside {
+			deadline = time.Now().Add(c.gap)
+		}
+		if err := dc.SetReadDeadline(deadline); err != nil {
+			return err
+		}
+		m, err := c.rw.Read(buf[n:])
+		n += m
+		inside = inside || m > 0
+		if err != nil && n < len(buf) {
+			if err == io.EOF && inside {
+				return io.ErrUnexpectedEOF
+			}
+			return err
+		}
+	}
+	return nil
 }
 
 func (c *secsIICodec) Receive() (interface{}, error) {
-	if _, err := io.ReadFull(c.rw, c.headBuf); err != nil {
+	if err := c.readFull(c.headBuf, false); err != nil {
 		return nil, err
 	}
 
@@ -59,7 +105,7 @@ func (c *secsIICodec) Receive() (interface{}, error) {
 
 	binary.BigEndian.PutUint32(c.bodyBuf, msgLength)
 
-	if _, err := io.ReadFull(c.rw, c.bodyBuf[4:required]); err != nil {
+	if err := c.readFull(c.bodyBuf[4:required], true); err != nil {
 		return nil, err
 	}
 
diff --git a/hsms/protocol.go b/hsms/protocol.go
index dace4c0..2b2958c 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -928,36 +928,20 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 	}()
 
 	t8Duration := time.Duration(p.timeouts.T8NetworkIntercharTimeout()) * time.Second
-	var deadlineCodec link.DeadlineCodec
 	if t8Duration > 0 {
-		if dc, ok := connection.Codec().(link.DeadlineCodec); ok {
-			deadlineCodec = dc
-		} else {
+		// T8 runs between the characters of a message, not between messages.
+		gc, ok := connection.Codec().(link.ReadGapCodec)
+		if !ok || !gc.SetReadGap(t8Duration) {
 			p.logger.Warn("T8 timeout configured but codec does not support deadlines; disabling T8 enforcement")
 			t8Duration = 0
 		}
 	}
-	if deadlineCodec != nil {
-		defer deadlineCodec.SetReadDeadline(time.Time{})
-	}
 
 	p.OnConnectionEstablished()
 
 	for p.enabled.Load() {
-		if deadlineCodec != nil {
-			if err := deadlineCodec.SetReadDeadline(time.Now().Add(t8Duration)); err != nil {
-				p.logger.Error("set read deadline failed", "error", err)
-			}
-		}
-
 		rsp, err := connection.Receive()
 
-		if deadlineCodec != nil {
-			if clrErr := deadlineCodec.SetReadDeadline(time.Time{}); clrErr != nil {
-				p.logger.Error("clear read deadline failed", "error", clrErr)
-			}
-		}
-
 		if err != nil {
 			logHandled := false
 			if t8Duration > 0 {
-- 
2.43.0


From da1c9f801a5b3e0b9809ff71dffa40e9cc0585f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 46/51] fix: refuse negative values for unsigned items and
 values beyond I8

---
 lib-secs2-hsms-go/pkg/ast/int.go  |  3 +++
 lib-secs2-hsms-go/pkg/ast/uint.go | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 45e490e..2b00def 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -53,6 +53,9 @@ func NewIntNode(byteSize int, values ...interface{}) ItemNode {
 		case int64:
 			nodeValues = append(nodeValues, value)
 		case uint:
+			if uint64(value) > math.MaxInt64 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, int64(value))
 		case uint8:
 			nodeValues = append(nodeValues, int64(value))
diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fe6f131..fde0867 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -49,14 +49,29 @@ func NewUintNode(byteSize int, values ...interface{}) ItemNode {
 	for i, value := range values {
 		switch value := value.(type) {
 		case int:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int8:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int16:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int32:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int64:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case uint:
 			nodeValues = append(nodeValues, uint64(value))
-- 
2.43.0


From 7d80ce50991dd8d8efb55f7f86bd1435e1e07e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 47/51] fix: take only its own secondary message for the answer
 to a host call

---
 gem/alarm_client.go            |  6 +++---
 gem/handler.go                 | 15 ++++++++++++++-
 gem/status_equipment_client.go | 26 +++++++++++++-------------
 3 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 93bb8d6..2f9c9d3 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -36,7 +36,7 @@ func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error)
 	)
 
 	req := ast.NewDataMessage("EnableAlarmReq", 5, 3, 1, "H->E", body)
-	resp, err := h.protocol.SendAndWait(req)
+	resp, err := h.request(req)
 	if err != nil {
 		return 0, fmt.Errorf("gem: S5F3 failed: %w", err)
 	}
@@ -60,7 +60,7 @@ func (h *GemHandler) RequestAlarmList() ([]AlarmInfo, error) {
 	}
 
 	req := ast.NewDataMessage("AlarmListReq", 5, 5, 1, "H->E", ast.NewListNode())
-	resp, err := h.protocol.SendAndWait(req)
+	resp, err := h.request(req)
 	if err != nil {
 		return nil, fmt.Errorf("gem: S5F5 failed: %w", err)
 	}
@@ -79,7 +79,7 @@ func (h *GemHandler) RequestEnabledAlarmList() ([]AlarmInfo, error) {
 	}
 
 	req := ast.NewDataMessage("EnabledAlarmListReq", 5, 7, 1, "H->E", ast.NewListNode())
-	resp, err := h.protocol.SendAndWait(req)
+	resp, err := h.request(req)
 	if err != nil {
 		return nil, fmt.Errorf("gem: S5F7 failed: %w", err)
 	}
diff --git a/gem/handler.go b/gem/handler.go
index 404554d..1649e09 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -603,6 +603,19 @@ func (g *GemHandler) ensureCommunicating() error {
 	return nil
 }
 
+// request sends a primary message and waits for its own secondary message. A
+// stream 9 message or any other function in its place is an error.
+func (g *GemHandler) request(msg *ast.DataMessage) (*ast.DataMessage, error) {
+	resp, err := g.protocol.SendAndWait(msg)
+	if err != nil {
+		return nil, err
+	}
+	if resp.StreamCode() != msg.StreamCode() || resp.FunctionCode() != msg.FunctionCode()+1 {
+		return nil, fmt.Errorf("gem: S%dF%d answered by S%dF%d", msg.StreamCode(), msg.FunctionCode(), resp.StreamCode(), resp.FunctionCode())
+	}
+	return resp, nil
+}
+
 // initiateHandshake begins an attempt to establish communication. The caller
 // holds commMu.
 func (g *GemHandler) initiateHandshake(session uint64) {
@@ -928,7 +941,7 @@ func (g *GemHandler) SendRemoteCommand(command interface{}, params []RemoteComma
 		return RemoteCommandResult{}, err
 	}
 
-	resp, err := g.protocol.SendAndWait(msg)
+	resp, err := g.request(msg)
 	if err != nil {
 		return RemoteCommandResult{}, err
 	}
diff --git a/gem/status_equipment_client.go b/gem/status_equipment_client.go
index 9d4e852..6ade538 100644
--- a/gem/status_equipment_client.go
+++ b/gem/status_equipment_client.go
@@ -41,7 +41,7 @@ func (g *GemHandler) RequestStatusVariables(ids ...interface{}) ([]StatusValue,
 	}
 
 	request := g.buildS1F3(idInfos)
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return nil, err
 	}
@@ -73,7 +73,7 @@ func (g *GemHandler) RequestStatusVariableInfo(ids ...interface{}) ([]StatusVari
 	}
 
 	request := g.buildS1F11(idInfos)
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return nil, err
 	}
@@ -107,7 +107,7 @@ func (g *GemHandler) RequestEquipmentConstants(ids ...interface{}) ([]EquipmentC
 	}
 
 	request := g.buildS2F13(idInfos)
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return nil, err
 	}
@@ -139,7 +139,7 @@ func (g *GemHandler) RequestEquipmentConstantInfo(ids ...interface{}) ([]Equipme
 	}
 
 	request := g.buildS2F29(idInfos)
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return nil, err
 	}
@@ -165,7 +165,7 @@ func (g *GemHandler) DefineReports(defs ...ReportDefinitionRequest) (int, error)
 		return -1, err
 	}
 
-	resp, err := g.protocol.SendAndWait(msg)
+	resp, err := g.request(msg)
 	if err != nil {
 		return -1, err
 	}
@@ -190,7 +190,7 @@ func (g *GemHandler) LinkEventReports(links ...EventReportLinkRequest) (int, err
 		return -1, err
 	}
 
-	resp, err := g.protocol.SendAndWait(msg)
+	resp, err := g.request(msg)
 	if err != nil {
 		return -1, err
 	}
@@ -219,7 +219,7 @@ func (g *GemHandler) EnableEventReports(enable bool, ceids ...interface{}) (int,
 		infoSlice = append(infoSlice, info)
 	}
 
-	resp, err := g.protocol.SendAndWait(g.buildS2F37(enable, infoSlice))
+	resp, err := g.request(g.buildS2F37(enable, infoSlice))
 	if err != nil {
 		return -1, err
 	}
@@ -245,7 +245,7 @@ func (g *GemHandler) RequestCollectionEventReport(ceid interface{}) (EventReport
 		return report, err
 	}
 
-	resp, err := g.protocol.SendAndWait(g.buildS6F15(info))
+	resp, err := g.request(g.buildS6F15(info))
 	if err != nil {
 		return report, err
 	}
@@ -267,7 +267,7 @@ func (g *GemHandler) UploadProcessProgram(ppid interface{}, body string) (int, e
 		return -1, err
 	}
 
-	resp, err := g.protocol.SendAndWait(g.buildS7F3(info, body))
+	resp, err := g.request(g.buildS7F3(info, body))
 	if err != nil {
 		return -1, err
 	}
@@ -292,7 +292,7 @@ func (g *GemHandler) RequestProcessProgram(ppid interface{}) (string, int, error
 		return "", -1, err
 	}
 
-	resp, err := g.protocol.SendAndWait(g.buildS7F5(info))
+	resp, err := g.request(g.buildS7F5(info))
 	if err != nil {
 		return "", -1, err
 	}
@@ -317,7 +317,7 @@ func (g *GemHandler) SendEquipmentConstantValues(updates []EquipmentConstantUpda
 		return -1, err
 	}
 
-	response, err := g.protocol.SendAndWait(msg)
+	response, err := g.request(msg)
 	if err != nil {
 		return -1, err
 	}
@@ -648,7 +648,7 @@ func (g *GemHandler) RequestDateTime() (string, error) {
 	// Build and send S2F17 (empty body)
 	request := ast.NewDataMessage("DateTimeRequest", 2, 17, 1, "H->E", ast.NewListNode())
 
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return "", fmt.Errorf("gem: S2F17 failed: %w", err)
 	}
@@ -690,7 +690,7 @@ func (g *GemHandler) SetDateTime(timeStr string) (byte, error) {
 	body := ast.NewASCIINode(timeStr)
 	request := ast.NewDataMessage("DateTimeSetRequest", 2, 31, 1, "H->E", body)
 
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return 0, fmt.Errorf("gem: S2F31 failed: %w", err)
 	}
-- 
2.43.0


From 02c3e3743ad78b32985943fbffdef47c95a41bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 48/51] fix: close the connection when its codec cannot be made

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 005bdb8..7bc3bb4 100644
--- a/api.go
+++ b/api.go
@@ -55,6 +55,7 @@ func Dial(network, address string, protocol Protocol, sendChanSize int) (*Sessio
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
@@ -67,6 +68,7 @@ func DialTimeout(network, address string, timeout time.Duration, protocol Protoc
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
-- 
2.43.0


From 840b8a34146dd45a34e3331c69b0f84374d58d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 49/51] fix: do not panic when a number is asked of an empty
 variable

---
 lib-secs2-hsms-go/pkg/ast/ast.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ast.go b/lib-secs2-hsms-go/pkg/ast/ast.go
index 743615d..c9f012e 100644
--- a/lib-secs2-hsms-go/pkg/ast/ast.go
+++ b/lib-secs2-hsms-go/pkg/ast/ast.go
@@ -4,6 +4,7 @@ package ast
 
 import (
 	"fmt"
+	"strings"
 	"unicode"
 )
 
@@ -302,7 +303,7 @@ func (node *DataMessage) GetFloat(indices ...int) (float64, error) {
 		return 0, err
 	}
 
-	if itemNode.Type()[:1] == "f" {
+	if strings.HasPrefix(itemNode.Type(), "f") {
 		data := itemNode.Values().([]float64)
 		return data[indices[len(indices)-1]], nil
 	} else {
@@ -319,7 +320,7 @@ func (node *DataMessage) GetInt(indices ...int) (int64, error) {
 		return 0, err
 	}
 
-	if itemNode.Type()[:1] == "i" {
+	if strings.HasPrefix(itemNode.Type(), "i") {
 		// direct get
 		ints := itemNode.Values().([]int64)
 		return ints[indices[len(indices)-1]], nil
-- 
2.43.0


From 9e1a06ab069e0ad3ff0686e6a442e84c533567b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 50/51] fix: refuse malformed binary literals instead of
 storing 0

---
 lib-secs2-hsms-go/pkg/ast/binary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index 4ce63b9..905d729 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -54,7 +54,10 @@ func NewBinaryNode(values ...interface{}) ItemNode {
 			nodeValues = append(nodeValues, int(v))
 		case string:
 			if strings.HasPrefix(v, "0b") {
-				vAsInt64, _ := strconv.ParseInt(v, 0, 0)
+				vAsInt64, err := strconv.ParseInt(v, 0, 0)
+				if err != nil {
+					panic("invalid binary format")
+				}
 				nodeValues = append(nodeValues, int(vAsInt64))
 			} else {
 				if _, ok := nodeVariables[v]; ok {
-- 
2.43.0


From 6d4079dc9f876760bf92e7f2528152984b4d9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 51/51] fix: a link test period of zero or less turns the link
 test off

time.NewTicker panics for such a period, so every connection ended the
process; T7 and T8 are off with the same values.
---
 hsms/protocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 2b2958c..0743f08 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -175,7 +175,11 @@ func (p *HsmsProtocol) newLinktest() <-chan struct{} {
 }
 
 func (p *HsmsProtocol) runLinktest(session *link.Session, stop <-chan struct{}) {
-	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
+	period := time.Duration(p.timeouts.Linktest()) * time.Second
+	if period <= 0 {
+		return
+	}
+	ticker := time.NewTicker(period)
 	defer ticker.Stop()
 
 	for {
-- 
2.43.0

