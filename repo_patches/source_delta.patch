From 644668a913063f5498f56c10daca637d3c506c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 01/54] fix: sdp: keep the decoded repeat times in the message

---
 sdp/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7d48944..0f90d53 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -888,6 +888,7 @@ func (d *Decoder) decodeRepeatTimes(m *Message) error {
 		}
 		t.Offsets = append(t.Offsets, dd)
 	}
+	m.Timing[len(m.Timing)-1] = t
 	return nil
 }
 
-- 
2.43.0


From d1b4283d6a199f87890c00bbae3415b36b7c6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 02/54] fix: sdp: store the TTL of a media connection in the
 media

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 0f90d53..5873530 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -641,7 +641,7 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		if isV4 {
 			switch d.section {
 			case sectionMedia:
-				m.Connection.TTL, err = decodeByte(first)
+				d.m.Connection.TTL, err = decodeByte(first)
 			case sectionSession:
 				m.Connection.TTL, err = decodeByte(first)
 			}
-- 
2.43.0


From 87cb50c94e4744eefa7c181779607bd20e414091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 03/54] fix: sdp: read the address count of an IPv6 connection

---
 sdp/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 5873530..4563f2b 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -648,9 +648,9 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		} else {
 			switch d.section {
 			case sectionMedia:
-				d.m.Connection.Addresses, err = decodeByte(second)
+				d.m.Connection.Addresses, err = decodeByte(first)
 			case sectionSession:
-				m.Connection.Addresses, err = decodeByte(second)
+				m.Connection.Addresses, err = decodeByte(first)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From f73ddd526f2986c6aef90c84fe8da66c8268c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 04/54] fix: sdp: refuse a TTL or address count outside 0-255

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 4563f2b..ec22b4b 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -514,7 +514,7 @@ func decodeIP(dst net.IP, v []byte) (net.IP, error) {
 
 func decodeByte(dst []byte) (byte, error) {
 	// ALLOCATIONS: suboptimal.
-	n, err := strconv.ParseInt(string(dst), 10, 16)
+	n, err := strconv.ParseUint(string(dst), 10, 8)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From dee6991ffab67868b024951aa72e0dcd7da97c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 05/54] fix: sdp: accept time zones after the time descriptions

---
 sdp/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index ec22b4b..156f146 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -293,6 +293,10 @@ func isExpected(t Type, s section, pos int) error {
 			//logger.Printf("t->s")
 			return nil
 		}
+		if t == TypeTimeZones {
+			// RFC 4566 puts time zones behind the time descriptions
+			return nil
+		}
 		if isExpected(t, sectionMedia, 0) == nil {
 			//logger.Printf("t->m")
 			return nil
-- 
2.43.0


From 399533fb0e64c76ba15c842b8d6f1f2f9b025c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 06/54] fix: sdp: accept more than one time description

---
 sdp/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 156f146..a7a1d67 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -289,6 +289,10 @@ func isExpected(t Type, s section, pos int) error {
 			return nil
 		}
 	case sectionTime:
+		if t == TypeTiming {
+			// next time description
+			return nil
+		}
 		if isExpected(t, sectionSession, orderingAfterTime) == nil {
 			//logger.Printf("t->s")
 			return nil
@@ -394,6 +398,9 @@ func (d *Decoder) decodeTiming(m *Message) error {
 		}
 		switch d.t {
 		case TypeTiming, TypeRepeatTimes:
+			if d.t == TypeTiming {
+				d.sPos = 1
+			}
 			if err := d.decodeField(m); err != nil {
 				return errors.Wrap(err, "decode failed")
 			}
-- 
2.43.0


From 19747f4dba0bcbec49f9fded79587ac5a40df742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 07/54] fix: sdp: refuse a blank interval instead of panicking

---
 sdp/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index a7a1d67..25300ab 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -840,6 +840,9 @@ func decodeInterval(b []byte, v *time.Duration) error {
 		noUnitSpecified bool
 		val             int
 	)
+	if len(b) == 0 {
+		return errors.Wrap(io.ErrUnexpectedEOF, "blank duration")
+	}
 	switch b[len(b)-1] {
 	case 'd':
 		unit = time.Hour * 24
-- 
2.43.0


From 71d3304cd64ada5faa6212f59afe61e0b9f91ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 08/54] fix: sdp: accept a blank session name

---
 sdp/sdp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index eed5487..34f6944 100644
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -62,7 +62,8 @@ func (l *Line) Decode(b []byte) error {
 		err := newDecodeError("line", reason)
 		return errors.Wrap(err, "failed to decode")
 	}
-	if len(b) <= (delimiter + 1) {
+	r, _ := utf8.DecodeRune(b[:delimiter])
+	if len(b) <= (delimiter+1) && Type(r) != TypeSessionName {
 		reason := fmt.Sprintf(
 			"len(b) %d < (%d + 1), no value found after delimiter",
 			len(b), delimiter,
@@ -70,7 +71,6 @@ func (l *Line) Decode(b []byte) error {
 		err := newDecodeError("line", reason)
 		return errors.Wrap(err, "failed to decode")
 	}
-	r, _ := utf8.DecodeRune(b[:delimiter])
 	l.Type = Type(r)
 	l.Value = append(l.Value, b[delimiter+1:]...)
 	return nil
-- 
2.43.0


From 58e291846e3891838580972503a74fb8f92a4247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 09/54] fix: an empty interleaved frame no longer swallows the
 data behind it

---
 rtpstreamprotocol.go       | 4 ++--
 tcpnetwork/tcpinterface.go | 3 ++-
 tcpnetwork/tcpnetwork.go   | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rtpstreamprotocol.go b/rtpstreamprotocol.go
index ca6734c..8bbf16c 100644
--- a/rtpstreamprotocol.go
+++ b/rtpstreamprotocol.go
@@ -25,7 +25,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 		var len uint16
 		err := binary.Read(reader, binary.BigEndian, &len)
 		if nil != err {
-			return 0, nil
+			return -1, nil
 		}
 		return int(len), nil
 	} else if "rtsp" == string(header[0:4]) || "RTSP" == string(header[0:4]) {
@@ -33,7 +33,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 	} else {
 		log.Print("header error")
 		log.Print(header)
-		return 0, nil
+		return -1, nil
 	}
 }
 
diff --git a/tcpnetwork/tcpinterface.go b/tcpnetwork/tcpinterface.go
index 237b3f9..dd873f5 100644
--- a/tcpnetwork/tcpinterface.go
+++ b/tcpnetwork/tcpinterface.go
@@ -6,7 +6,8 @@ type IStreamProtocol interface {
 	Init()
 	// get the header length of the stream
 	GetHeaderLength() int
-	// read the header length of the stream
+	// read the header length of the stream: the length of the body that
+	// follows the header (0: no body, negative: unknown) and the end flag
 	UnserializeHeader([]byte) (int, []byte)
 	// format header
 	SerializeHeader([]byte) []byte
diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 2d5c90f..4028d57 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -326,7 +326,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			}
 		}
 		bodyLength = curBodyPos
-	} else if 0 != packetLength {
+	} else if 0 <= packetLength {
 		if packetLength > connection.maxReadBufferLength {
 			return nil, errors.New("The stream data is too long")
 		}
-- 
2.43.0


From 99cafd1ff866237cd7334e1f199c801b7ec5f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 10/54] fix: receive frames of up to 65535 bytes, refuse longer
 content with an error

---
 tcpnetwork/tcpnetwork.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 4028d57..3473b22 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -259,7 +259,7 @@ func (connection *Connection) routineSend() error {
 
 func (connection *Connection) routineRead() error {
 	// default buffer
-	buf := make([]byte, connection.maxReadBufferLength)
+	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)
 
 	for {
 		data, err := connection.unpack(buf)
@@ -309,7 +309,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))
 		}
 		for {
-			if bufStartPos+curBodyPos+1 > connection.maxReadBufferLength {
+			if curBodyPos+1 > connection.maxReadBufferLength {
 				return nil, errors.New("The stream data is too long")
 			}
 
@@ -352,6 +352,10 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 
 	contextLength = connection.streamProtocol.GetContentLength(buf[:bufStartPos])
 	if 0 != contextLength {
+		if contextLength < 0 || contextLength > len(buf)-bufStartPos {
+			return nil, errors.New("The stream data is too long")
+		}
+
 		// read context
 		if 0 != connection.readTimeoutSec {
 			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))
-- 
2.43.0


From 3dfeae62b6f9686b879e1db1527289228d94a95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:05 +0000
Subject: [PATCH 11/54] fix: connection: no send on a closed queue, no leaked
 sender, no racing status

---
 tcpnetwork/tcpnetwork.go | 66 ++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 3473b22..c8bad1c 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -6,6 +6,8 @@ import (
 	"errors"
 	"log"
 	"net"
+	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -40,7 +42,9 @@ const (
 type Connection struct {
 	conn                net.Conn
 	connRW              *bufio.ReadWriter
-	status              int
+	status              int32
+	closeOnce           sync.Once
+	quit                chan struct{} // closed when the connection is closed
 	sendMsgQueue        chan []byte
 	sendBufferSize      int
 	sendTimeoutSec      int
@@ -71,6 +75,7 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 		conn:                c,
 		connRW:              bufio.NewReadWriter(bufio.NewReaderSize(c, connConfMaxReadBufferLength), bufio.NewWriterSize(c, connConfMaxReadBufferLength)),
 		status:              ConnStatusNone,
+		quit:                make(chan struct{}),
 		sendMsgQueue:        make(chan []byte, sendBufferSize),
 		sendBufferSize:      sendBufferSize,
 		sendTimeoutSec:      connConfDefaultSendTimeoutSec,
@@ -81,17 +86,20 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 
 // directly close, packages in queue will not be sent
 func (connection *Connection) close() {
-	if ConnStatusConnected != connection.status {
+	if ConnStatusNone == connection.GetStatus() {
 		return
 	}
 
-	connection.conn.Close()
-	connection.status = ConnStatusDisconnected
+	connection.closeOnce.Do(func() {
+		connection.conn.Close()
+		connection.setStatus(ConnStatusDisconnected)
+		close(connection.quit)
+	})
 }
 
 // Close close tcp connection
 func (connection *Connection) Close() {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -100,6 +108,10 @@ func (connection *Connection) Close() {
 		{
 			// nothing
 		}
+	case <-connection.quit:
+		{
+			// already closed
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -119,11 +131,11 @@ func (connection *Connection) pushEvent(eventType int, data []byte) {
 
 // GetStatus get connection status
 func (connection *Connection) GetStatus() int {
-	return connection.status
+	return int(atomic.LoadInt32(&connection.status))
 }
 
 func (connection *Connection) setStatus(status int) {
-	connection.status = status
+	atomic.StoreInt32(&connection.status, int32(status))
 }
 
 // SetReadTimeoutSec set read time out
@@ -142,7 +154,7 @@ func (connection *Connection) SetStreamProtocol(streamProtocol IStreamProtocol)
 }
 
 func (connection *Connection) sendRaw(msg []byte) {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -151,6 +163,10 @@ func (connection *Connection) sendRaw(msg []byte) {
 		{
 			// nothing
 		}
+	case <-connection.quit:
+		{
+			// already closed
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -162,7 +178,7 @@ func (connection *Connection) sendRaw(msg []byte) {
 
 // Send send data
 func (connection *Connection) Send(msg []byte, needCopy bool) {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -193,10 +209,6 @@ func (connection *Connection) routineMain() {
 		// close the connection
 		connection.close()
 
-		// free channel
-		close(connection.sendMsgQueue)
-		connection.sendMsgQueue = make(chan []byte, connection.sendBufferSize)
-
 		// post event
 		connection.pushEvent(ConnEventDisconnected, nil)
 	}()
@@ -209,7 +221,7 @@ func (connection *Connection) routineMain() {
 
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
-	connection.status = ConnEventConnected
+	connection.setStatus(ConnStatusConnected)
 
 	go connection.routineSend()
 	connection.routineRead()
@@ -218,17 +230,19 @@ func (connection *Connection) routineMain() {
 func (connection *Connection) routineSend() error {
 	defer func() {
 		log.Println("Connection send log return")
+
+		// nothing can be sent any more
+		connection.close()
 	}()
 
 	for {
 		select {
-		case sendMsg, ok := <-connection.sendMsgQueue:
+		case <-connection.quit:
+			{
+				return nil
+			}
+		case sendMsg := <-connection.sendMsgQueue:
 			{
-				if !ok {
-					// channel closed, quit
-					return nil
-				}
-
 				if nil == sendMsg {
 					log.Println("User disconnect")
 					connection.close()
@@ -244,14 +258,22 @@ func (connection *Connection) routineSend() error {
 						log.Println("Conn write error:", err)
 						return err
 					}
-					connection.connRW.Flush()
+					err = connection.connRW.Flush()
+					if err != nil {
+						log.Println("Conn write error:", err)
+						return err
+					}
 				}
 				_, err = connection.connRW.Write(sendMsg)
 				if err != nil {
 					log.Println("Conn write error:", err)
 					return err
 				}
-				connection.connRW.Flush()
+				err = connection.connRW.Flush()
+				if err != nil {
+					log.Println("Conn write error:", err)
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From edffdca785c1035c4312e460bc4ddfd74e45a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 12/54] fix: connection: a message sent right after Run is not
 dropped

---
 tcpnetwork/tcpnetwork.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index c8bad1c..23f5f1d 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -194,6 +194,8 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 
 // Run a routine to process connection connection
 func (connection *Connection) Run() {
+	// connected
+	connection.setStatus(ConnStatusConnected)
 	go connection.routineMain()
 }
 
@@ -219,9 +221,7 @@ func (connection *Connection) routineMain() {
 	}
 	connection.streamProtocol.Init()
 
-	// connected
 	connection.pushEvent(ConnEventConnected, nil)
-	connection.setStatus(ConnStatusConnected)
 
 	go connection.routineSend()
 	connection.routineRead()
-- 
2.43.0


From a88f00c82cddb986d3f66c4397d7c8ec3d6c5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 13/54] fix: connection: Close ends the connection even if the
 peer does not read

---
 tcpnetwork/tcpnetwork.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 23f5f1d..9b87ed5 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -106,7 +106,8 @@ func (connection *Connection) Close() {
 	select {
 	case connection.sendMsgQueue <- nil:
 		{
-			// nothing
+			// close it even if the peer does not read what is queued
+			time.AfterFunc(time.Duration(connection.sendTimeoutSec)*time.Second, connection.close)
 		}
 	case <-connection.quit:
 		{
-- 
2.43.0


From 1f4b3fa07108481ebc60a4db2c474313be31ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 14/54] fix: read the marker bit from the packet

---
 markrtpparser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/markrtpparser.go b/markrtpparser.go
index b2de253..c770f65 100644
--- a/markrtpparser.go
+++ b/markrtpparser.go
@@ -4,11 +4,11 @@ type MarkRtpParser struct {
 }
 
 func (rtpParser *MarkRtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
-	if len(src) < 2 {
-		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
+	if len(src) < RtpHeaderLen {
+		return false, nil, nil
 	}
 
-	mark := ((header[1] & 0x80) >> 7)
+	mark := ((src[1] & 0x80) >> 7)
 	isCompletesFrame = (mark == 1)
 
 	return isCompletesFrame, src[:RtpHeaderLen], src[RtpHeaderLen:]
-- 
2.43.0


From 0f9582142df1bd55b3b87652f940ac2e3dcb55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 15/54] fix: H264: split aggregation packets into their NAL
 units

---
 h264rtpparser.go   | 27 ++++++++++++++++++---------
 rtpparser.go       |  2 +-
 simplertpparser.go |  4 ++--
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 0b9f486..c1a63a8 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -4,8 +4,11 @@ type H264RtpParser struct {
 }
 
 func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
+	if len(src) < RtpHeaderLen {
+		return false, nil, nil
+	}
 	if len(src) < RtpHeaderLen+1 {
-		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
+		return false, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 	rtpData := src[RtpHeaderLen:]
 	packetNALUnitType := (rtpData[0] & 0x1f)
@@ -29,12 +32,18 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		break
 	case 25, 26, 27: // STAP-B MTAP16 MTAP24
 		{
+			if len(rtpData) < 3 {
+				return false, src[:RtpHeaderLen], nil
+			}
 			skipHeaderLen = 3
 			isCompletesFrame = true
 		}
 		break
 	case 28, 29: // FU-A // FU-B
 		{
+			if len(rtpData) < 2 {
+				return false, src[:RtpHeaderLen], nil
+			}
 			// For these NALUs, the first two bytes are the FU indicator and the FU header.
 			// If the start bit is set, we reconstruct the original NAL header into byte 1:
 			startBit := rtpData[1] & 0x80
@@ -59,37 +68,37 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-	if len(header) < RtpHeaderLen+2 {
+	if len(header) < RtpHeaderLen+1 {
 		return 0, len(payload)
 	}
 
 	naluHeader := header[RtpHeaderLen:]
-	packetNALUnitType := (naluHeader[0] & 0x7E) >> 1
+	packetNALUnitType := (naluHeader[0] & 0x1f)
 
 	switch packetNALUnitType {
 	case 24, 25: // STAP-A STAP-B
 		{
-			naluSize = int((payload[0] << 8) | naluHeader[1])
 			naluHeaderSize = 2
 		}
 		break
 	case 26: // MTAP16
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 5
 		}
 		break
 	case 27: // MTAP24
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 6
 		}
 		break
 	default:
 		{
-			naluSize = len(payload)
-			naluHeaderSize = 0
+			return 0, len(payload)
 		}
 	}
-	return naluHeaderSize, naluSize
+	if len(payload) < naluHeaderSize {
+		return len(payload), len(payload)
+	}
+	naluSize = int(payload[0])<<8 | int(payload[1])
+	return naluHeaderSize, naluSize + naluHeaderSize
 }
diff --git a/rtpparser.go b/rtpparser.go
index 572a904..51f4d34 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -31,7 +31,7 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 
 func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int) {
 	naluHeaderSize, naluSize := rtpParser.rtpSourceHandler.ParsingRtp(header, payload)
-	if naluSize > len(payload)-naluHeaderSize {
+	if naluSize > len(payload) {
 		naluSize = len(payload)
 	}
 	nalu := payload[naluHeaderSize:naluSize]
diff --git a/simplertpparser.go b/simplertpparser.go
index e8c9316..2528ef3 100644
--- a/simplertpparser.go
+++ b/simplertpparser.go
@@ -4,8 +4,8 @@ type SimpleRtpParser struct {
 }
 
 func (rtpParser *SimpleRtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
-	if len(src) < 2 {
-		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
+	if len(src) < RtpHeaderLen {
+		return false, nil, nil
 	}
 
 	return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
-- 
2.43.0


From b498ab71c1b937e04cb25aa77a10b224a2615766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 16/54] fix: H265: read all 16 bits of the NAL unit size in an
 aggregation packet

---
 hevcrtpparser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 4f4f104..ea413e1 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -65,7 +65,10 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 	case 48: // Aggregation Packet (AP)
 		{
 			// We skip over the 2-byte Payload Header, and the DONL header (if any).
-			naluSize = int((payload[0] << 8) | payload[1])
+			if len(payload) < 2 {
+				return len(payload), len(payload)
+			}
+			naluSize = int(payload[0])<<8 | int(payload[1])
 			naluHeaderSize = 2
 		}
 		break
-- 
2.43.0


From 435e341a3fce1e663cbe4395b6f5276805649fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 17/54] fix: truncated RTP packets are ignored instead of
 crashing the client

---
 hevcrtpparser.go     | 6 ++++++
 rtpstreamprotocol.go | 5 ++++-
 rtspclient.go        | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index ea413e1..8f41cdb 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -4,6 +4,9 @@ type HevcRtpParser struct {
 }
 
 func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
+	if len(src) < RtpHeaderLen {
+		return false, nil, nil
+	}
 	if len(src) < RtpHeaderLen+2 {
 		return false, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
@@ -22,6 +25,9 @@ func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		break
 	case 49: // Fragmentation Unit (FU)
 		{
+			if len(rtpData) < 3 {
+				return false, src[:RtpHeaderLen], nil
+			}
 			// This NALU begins with the 2-byte Payload Header, the 1-byte FU header, and (optionally)
 			// the 2-byte DONL header.
 			// If the start bit is set, we reconstruct the original NAL header at the end of these
diff --git a/rtpstreamprotocol.go b/rtpstreamprotocol.go
index 8bbf16c..4f65113 100644
--- a/rtpstreamprotocol.go
+++ b/rtpstreamprotocol.go
@@ -18,6 +18,9 @@ func (streamProtocol *RTPStreamProtocol) GetHeaderLength() int {
 }
 
 func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int, []byte) {
+	if len(header) < streamProtocol.GetHeaderLength() {
+		return -1, nil
+	}
 	if header[0] == '$' {
 		// rtp data
 		lenBufBefore := header[2:4]
@@ -42,7 +45,7 @@ func (streamProtocol *RTPStreamProtocol) SerializeHeader(data []byte) []byte {
 }
 
 func (streamProtocol *RTPStreamProtocol) GetContentLength(body []byte) int {
-	if "rtsp" != string(body[0:4]) && "RTSP" != string(body[0:4]) {
+	if len(body) < 4 || "rtsp" != string(body[0:4]) && "RTSP" != string(body[0:4]) {
 		return 0
 	}
 	rtspContext := &RtspResponseContext{}
diff --git a/rtspclient.go b/rtspclient.go
index d931a87..3185ffa 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -155,6 +155,9 @@ func (session *RtspClientSession) HandleConn() {
 }
 
 func (session *RtspClientSession) parsingData(data []byte) {
+	if len(data) < 4 {
+		return
+	}
 	headerData := data[:4]
 	if headerData[0] == '$' {
 		session.parsingRtp(data)
@@ -167,6 +170,9 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	header := data[:4]
 	rtpData := data[4:]
 
+	if len(rtpData) < RtpHeaderLen {
+		return
+	}
 	timestampBufBefore := rtpData[4:8]
 	reader := bytes.NewReader(timestampBufBefore)
 	var timestamp uint32
-- 
2.43.0


From 38e8a9e7d7f03e2f8e8dc45972158e9ffce1289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 18/54] fix: an empty last fragment completes its frame

---
 rtpparser.go  | 2 +-
 rtspclient.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rtpparser.go b/rtpparser.go
index 51f4d34..8cee776 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -52,7 +52,7 @@ func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int
 	copy(rtpParser.payloadBuf[rtpParser.payloadLen:], nalu)
 	rtpParser.payloadLen += len(nalu)
 
-	if rtpParser.isMarkFrame {
+	if rtpParser.isMarkFrame && rtpParser.payloadLen > 0 {
 		data := make([]byte, rtpParser.payloadLen)
 		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])
 		rtpParser.payloadLen = 0
diff --git a/rtspclient.go b/rtspclient.go
index 3185ffa..d43331d 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -187,12 +187,15 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	if ok {
 		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
-		for totalLength < len(payload) {
+		for {
 			nalu, completionLength := rtpParser.pushData(header, payload[totalLength:])
 			if nil != nalu {
 				session.dataHandle(newRtspData(channelNum, session, nalu))
 			}
 			totalLength += completionLength
+			if totalLength >= len(payload) {
+				break
+			}
 		}
 	}
 }
-- 
2.43.0


From c4f4d9fccec7335f12b485bf30274f50426987e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 19/54] fix: contributing sources, header extensions and
 padding are no media

---
 rtpparser.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/rtpparser.go b/rtpparser.go
index 8cee776..898b2c2 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -23,8 +23,37 @@ func newRtpParser(codecName string) *RtpParser {
 	}
 }
 
+// removeRtpOptions returns the packet with its fixed header and its payload
+// only: no contributing sources, no header extension and no padding. nil if
+// the packet is shorter than its header says.
+func removeRtpOptions(src []byte) []byte {
+	if len(src) < RtpHeaderLen {
+		return nil
+	}
+	start := RtpHeaderLen + int(src[0]&0x0f)*4
+	if 0 != src[0]&0x10 {
+		if len(src) < start+4 {
+			return nil
+		}
+		start += 4 + (int(src[start+2])<<8|int(src[start+3]))*4
+	}
+	end := len(src)
+	if 0 != src[0]&0x20 {
+		end -= int(src[len(src)-1])
+	}
+	if start > end {
+		return nil
+	}
+
+	packet := make([]byte, RtpHeaderLen, RtpHeaderLen+end-start)
+	copy(packet, src)
+	packet[0] &= 0xc0
+	return append(packet, src[start:end]...)
+}
+
 func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 	var header, payload []byte
+	src = removeRtpOptions(src)
 	rtpParser.isMarkFrame, header, payload = rtpParser.rtpSourceHandler.SplitHeader(src)
 	return header, payload
 }
-- 
2.43.0


From f79a47110700fe32e2f354c3ef73bc0436836d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 20/54] fix: a malformed description ends the play attempt, not
 the process

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index e06062d..2516597 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -31,14 +31,14 @@ func parsingSDPLine(strSdp string) (*sdp.Message, error) {
 	var err error
 	sdpSession, err = sdp.DecodeSession([]byte(strSdp), sdpSession)
 	if nil != err {
-		log.Fatal("sdp decode session error: ", err)
+		log.Print("sdp decode session error: ", err)
 		return nil, err
 	}
 	sdpDecoder := sdp.NewDecoder(sdpSession)
 	sdpMessage := &sdp.Message{}
 	err = sdpDecoder.Decode(sdpMessage)
 	if nil != err {
-		log.Fatal("sdp decode error: ", err)
+		log.Print("sdp decode error: ", err)
 		return nil, err
 	}
 	return sdpMessage, nil
-- 
2.43.0


From 09a311d3159ef8bb6039b40c4959eaa5b4b0aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 21/54] fix: a missing response closes the connection instead
 of recursing

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index d43331d..a41be44 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -403,7 +403,7 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.Close()
+			session.tcpConn.Close()
 			return nil, errors.New("recv response time out")
 		}
 	}
-- 
2.43.0


From 17f7211b62802f80c4a5213a430526d5852bac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 22/54] fix: closing or using a session that never connected
 does not panic

---
 rtspclient.go  | 9 +++++++--
 rtsprequest.go | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index a41be44..3e055fd 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -336,7 +336,10 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 }
 
 func (session *RtspClientSession) Close() {
-	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
+	if nil == session.tcpConn {
+		return
+	}
+	if session.tcpConn.GetStatus() == tcpnetwork.ConnStatusConnected {
 		session.SendTeardown()
 		session.WaitRtspResponse()
 	}
@@ -403,7 +406,9 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.tcpConn.Close()
+			if nil != session.tcpConn {
+				session.tcpConn.Close()
+			}
 			return nil, errors.New("recv response time out")
 		}
 	}
diff --git a/rtsprequest.go b/rtsprequest.go
index 76bf801..0a8dd29 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -32,7 +32,9 @@ func NewRtspClientContext() *RtspClientContext {
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
 	session.rtspRequestInitial = false
-	session.tcpConn.Send([]byte(request), false)
+	if nil != session.tcpConn {
+		session.tcpConn.Send([]byte(request), false)
+	}
 	session.rtspContext.cseq++
 }
 
-- 
2.43.0


From 698b1a19289e6891b4265e39e8a9d77c5af6fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 23/54] fix: an unexpected response no longer stops the media
 or answers a later request

---
 rtspclient.go  | 13 ++++++++-----
 rtsprequest.go |  5 +++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 3e055fd..42745b1 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -88,7 +88,7 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 		dataHandle:         rtpHandler,
 		eventHandle:        eventHandler,
 		eventQueue:         make(chan *tcpnetwork.ConnEvent),
-		rtspResponseQueue:  make(chan *RtspResponseContext),
+		rtspResponseQueue:  make(chan *RtspResponseContext, 1),
 		rtpProtocol:        &RTPStreamProtocol{},
 		rtspContext:        NewRtspClientContext(),
 		rtspRequestInitial: true,
@@ -110,7 +110,7 @@ func (session *RtspClientSession) HandleConn() {
 		close(session.eventQueue)
 		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
 		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext)
+		session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
 	}()
 	for {
 		event, ok := <-session.eventQueue
@@ -205,10 +205,13 @@ func (session *RtspClientSession) parsingRtsp(data []byte) {
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
 	if nil != err {
-		session.rtspResponseQueue <- nil
-		return
+		rtspResponseContext = nil
+	}
+	select {
+	case session.rtspResponseQueue <- rtspResponseContext:
+	default:
+		log.Print("unexpected rtsp response")
 	}
-	session.rtspResponseQueue <- rtspResponseContext
 }
 
 func (session *RtspClientSession) sendRequest() error {
diff --git a/rtsprequest.go b/rtsprequest.go
index 0a8dd29..27a184b 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -32,6 +32,11 @@ func NewRtspClientContext() *RtspClientContext {
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
 	session.rtspRequestInitial = false
+	// a response that came before the request does not answer it
+	select {
+	case <-session.rtspResponseQueue:
+	default:
+	}
 	if nil != session.tcpConn {
 		session.tcpConn.Send([]byte(request), false)
 	}
-- 
2.43.0


From c4fcc4b7b9596c58aeb5016a8bb493080adb4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 24/54] fix: nothing of an earlier connection carries over to
 the next one

---
 rtspclient.go | 59 +++++++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 42745b1..8301420 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -9,6 +9,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -78,6 +79,7 @@ type RtspClientSession struct {
 	tcpConn            *tcpnetwork.Connection
 	eventQueue         chan *tcpnetwork.ConnEvent
 	rtspResponseQueue  chan *RtspResponseContext
+	rtpChannelLock     sync.Mutex // protects rtpChannelMap
 	rtpChannelMap      map[int]*RtpParser
 	sdpInfo            *SDPInfo
 	RtpMediaMap        map[int]MediaSubsession
@@ -98,29 +100,18 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 	}
 }
 
-func (session *RtspClientSession) pushConnEvent(event *tcpnetwork.ConnEvent) {
-	if nil == session.eventQueue {
-		return
-	}
-	session.eventQueue <- event
+func (session *RtspClientSession) HandleConn() {
+	session.handleConn(session.eventQueue, session.rtspResponseQueue)
 }
 
-func (session *RtspClientSession) HandleConn() {
-	defer func() {
-		close(session.eventQueue)
-		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
-		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
-	}()
+// handleConn handles the events of one connection. The queues belong to that
+// connection, the session may already use the next one when it is over.
+func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEvent, rtspResponseQueue chan *RtspResponseContext) {
 	for {
-		event, ok := <-session.eventQueue
-		if !ok {
-			// channel closed, quit
-			return
-		}
+		event := <-eventQueue
 		if nil == event {
 			// channel closed, quit
-			event.Conn.Close()
+			close(rtspResponseQueue)
 			return
 		}
 		switch event.EventType {
@@ -132,19 +123,21 @@ func (session *RtspClientSession) HandleConn() {
 		case tcpnetwork.ConnEventDisconnected:
 			{
 				log.Printf("conntion disconnected.")
+				close(rtspResponseQueue)
 				session.sendEvent(RtspEventDisconnected, nil)
 				return
 			}
 		case tcpnetwork.ConnEventData:
 			{
 				if event.Data != nil {
-					session.parsingData(event.Data)
+					session.parsingData(event.Data, rtspResponseQueue)
 				}
 			}
 			break
 		case tcpnetwork.ConnEventClose:
 			{
 				log.Printf("connection closed")
+				close(rtspResponseQueue)
 				return
 			}
 		default:
@@ -154,7 +147,7 @@ func (session *RtspClientSession) HandleConn() {
 	}
 }
 
-func (session *RtspClientSession) parsingData(data []byte) {
+func (session *RtspClientSession) parsingData(data []byte, rtspResponseQueue chan *RtspResponseContext) {
 	if len(data) < 4 {
 		return
 	}
@@ -162,7 +155,7 @@ func (session *RtspClientSession) parsingData(data []byte) {
 	if headerData[0] == '$' {
 		session.parsingRtp(data)
 	} else if string(headerData[:4]) == "RTSP" || string(headerData[:4]) == "rtsp" {
-		session.parsingRtsp(data)
+		session.parsingRtsp(data, rtspResponseQueue)
 	}
 }
 
@@ -183,7 +176,9 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 
 	// rtp data
 	channelNum := int(header[1])
+	session.rtpChannelLock.Lock()
 	rtpParser, ok := session.rtpChannelMap[channelNum]
+	session.rtpChannelLock.Unlock()
 	if ok {
 		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
@@ -200,7 +195,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	}
 }
 
-func (session *RtspClientSession) parsingRtsp(data []byte) {
+func (session *RtspClientSession) parsingRtsp(data []byte, rtspResponseQueue chan *RtspResponseContext) {
 	log.Print(string(data))
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
@@ -208,7 +203,7 @@ func (session *RtspClientSession) parsingRtsp(data []byte) {
 		rtspResponseContext = nil
 	}
 	select {
-	case session.rtspResponseQueue <- rtspResponseContext:
+	case rtspResponseQueue <- rtspResponseContext:
 	default:
 		log.Print("unexpected rtsp response")
 	}
@@ -278,7 +273,9 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 		rtpIndex := index * 2
 		rtcpIndex := index*2 + 1
+		session.rtpChannelLock.Lock()
 		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
+		session.rtpChannelLock.Unlock()
 		session.RtpMediaMap[rtpIndex] = media
 		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
 
@@ -330,10 +327,22 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 }
 
 func (session *RtspClientSession) SetConnection(conn net.Conn) error {
-	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.pushConnEvent)
+	eventQueue := make(chan *tcpnetwork.ConnEvent)
+	session.eventQueue = eventQueue
+	session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
+	session.rtspRequestInitial = true
+	session.rtspContext.sessionID = ""
+	session.RtpMediaMap = make(map[int]MediaSubsession)
+	session.rtpChannelLock.Lock()
+	session.rtpChannelMap = make(map[int]*RtpParser)
+	session.rtpChannelLock.Unlock()
+
+	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, func(event *tcpnetwork.ConnEvent) {
+		eventQueue <- event
+	})
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
 	session.tcpConn.Run()
-	go session.HandleConn()
+	go session.handleConn(eventQueue, session.rtspResponseQueue)
 
 	return session.sendRequest()
 }
-- 
2.43.0


From 34521c8b4d54a21480f9941ee7035b2b06b04c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 25/54] fix: read response headers whatever their layout and
 values

---
 rtspparser.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 29404b3..9e05097 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -29,7 +29,7 @@ const (
 
 func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	// rtp packet no context
-	if string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp" {
+	if len(response) < 4 || string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp" {
 		return errors.New("not rtsp packet")
 	}
 
@@ -41,6 +41,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	if rtspEndPos == -1 {
 		return errors.New("no eof flag")
 	}
+	if rtspEndPos < len("RTSP/1.0 200") {
+		return errors.New("no status code")
+	}
 	rtspEndPos += len("\r\n\r\n") // add \r\n\r\n len
 
 	rtspResponse := response[:rtspEndPos]
@@ -51,21 +54,24 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 
 	fields := strings.Split(string(rtspResponse), "\r\n")
 	for _, field := range fields {
-		keyValue := strings.Split(field, ":")
+		keyValue := strings.SplitN(field, ":", 2)
 		if 2 != len(keyValue) {
 			continue
 		}
 		theKey := strings.ToUpper(keyValue[0])
-		theKey = strings.Replace(theKey, " ", "", -1)
-		theValue := keyValue[1]
+		theKey = strings.TrimSpace(theKey)
+		theValue := strings.TrimSpace(keyValue[1])
 		if theKey == strings.ToUpper(sContentLenHeader) {
-			theValue = strings.Replace(theValue, " ", "", -1)
 			context.contentLength, _ = strconv.Atoi(theValue)
+			if context.contentLength < 0 {
+				context.contentLength = 0
+			}
 			if len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-			context.sessionID = theValue
+			// the session id ends where its parameters start
+			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
 			if "Digest" == authenticateType {
-- 
2.43.0


From ec42a504d3c020efc8909f0a32217379adbbbada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 26/54] fix: read realm and nonce of a challenge verbatim and
 in any order

---
 rtspparser.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 9e05097..e54009a 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -2,7 +2,6 @@ package rtspclient
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 )
@@ -74,12 +73,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
-			if "Digest" == authenticateType {
+			if strings.EqualFold("Digest", authenticateType) {
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
 				context.digestAuthenticator.authenicatorType = AuthenticatorTypeDigest
-			} else if "Basic" == authenticateType {
+			} else if strings.EqualFold("Basic", authenticateType) {
 				context.basicAuthenticator = NewAuthenticator()
 				context.basicAuthenticator.realm = realm
 				context.basicAuthenticator.authenicatorType = AuthenticatorTypeBasic
@@ -90,12 +89,57 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 }
 
 func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
-	authenticateValue = strings.Replace(authenticateValue, "\"", " ", -1)
 	var realm string
 	var nonce string
 	var stale string
 	var authenticateType string
 
-	fmt.Sscanf(authenticateValue, " %s realm= %s , nonce= %s , stale= %s ", &authenticateType, &realm, &nonce, &stale)
+	// <type> name=value, name="value", ...
+	rest := strings.TrimSpace(authenticateValue)
+	if end := strings.IndexAny(rest, " \t"); end != -1 {
+		authenticateType, rest = rest[:end], rest[end:]
+	} else {
+		authenticateType, rest = rest, ""
+	}
+	for {
+		rest = strings.TrimLeft(rest, " \t,")
+		equal := strings.Index(rest, "=")
+		if equal == -1 {
+			break
+		}
+		name := strings.TrimSpace(rest[:equal])
+		rest = strings.TrimLeft(rest[equal+1:], " \t")
+
+		var value string
+		if strings.HasPrefix(rest, "\"") {
+			end := 1
+			for end < len(rest) && rest[end] != '"' {
+				if rest[end] == '\\' {
+					end++
+				}
+				end++
+			}
+			if end >= len(rest) {
+				// no closing quote
+				break
+			}
+			value, rest = rest[1:end], rest[end+1:]
+		} else {
+			end := strings.Index(rest, ",")
+			if end == -1 {
+				end = len(rest)
+			}
+			value, rest = strings.TrimSpace(rest[:end]), rest[end:]
+		}
+
+		switch strings.ToLower(name) {
+		case "realm":
+			realm = value
+		case "nonce":
+			nonce = value
+		case "stale":
+			stale = value
+		}
+	}
 	return authenticateType, realm, nonce, stale
 }
-- 
2.43.0


From 6d4a342a64087e49a818476e6ad522284cd32f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 27/54] fix: send a valid Range header and keep the Speed
 header

---
 rtsprequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 27a184b..a825c5c 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -114,7 +114,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strStartTime string
 	if inStartTimeSec != 0 {
-		strSpeed = fmt.Sprintf("Range: npt=%d.0-\r\n", float32(inStartTimeSec))
+		strStartTime = fmt.Sprintf("Range: npt=%d.0-\r\n", inStartTimeSec)
 	}
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
-- 
2.43.0


From 8b405aa2825c91d350e3cd37bc8f5987afa946e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 28/54] fix: PAUSE is authorized, TEARDOWN names its session

---
 rtspclient.go  | 4 +++-
 rtsprequest.go | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 8301420..24c33c4 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -286,7 +286,9 @@ func (session *RtspClientSession) sendRequest() error {
 		if 200 != response.Status {
 			return errors.New("response error: " + strconv.Itoa(response.Status))
 		}
-		session.rtspContext.sessionID = response.sessionID
+		if "" != response.sessionID {
+			session.rtspContext.sessionID = response.sessionID
+		}
 	}
 
 	session.SendPlay(0, 1)
diff --git a/rtsprequest.go b/rtsprequest.go
index a825c5c..64ce4eb 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -97,6 +97,9 @@ func (session *RtspClientSession) SendPause() error {
 		"Session: %s\r\n" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
+	if nil != session.rtspContext.authenicator {
+		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
+	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
 	return nil
@@ -146,6 +149,9 @@ func (session *RtspClientSession) SendTeardown() error {
 		"CSeq: %d\r\n" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
 
+	if "" != session.rtspContext.sessionID {
+		request += fmt.Sprintf("Session: %s\r\n", session.rtspContext.sessionID)
+	}
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
 	}
-- 
2.43.0


From 4f8cdfc8727ea3b874179bb75cbf0c22758aae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 29/54] fix: default port for IPv6 hosts, no credentials of an
 earlier URL

---
 rtspclient.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 24c33c4..0a34cd2 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -8,7 +8,6 @@ import (
 	"net"
 	"net/url"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 
@@ -314,10 +313,12 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.rtspContext.rtspURL += ("?" + urlInfo.RawQuery)
 	}
 	session.address = urlInfo.Host
-	if !strings.Contains(session.address, ":") {
-		session.address += ":554"
+	if "" == urlInfo.Port() {
+		session.address = net.JoinHostPort(urlInfo.Hostname(), "554")
 	}
 
+	session.username = ""
+	session.password = ""
 	if nil != urlInfo.User {
 		session.username = urlInfo.User.Username()
 		session.password, _ = urlInfo.User.Password()
-- 
2.43.0


From 7e042a9fdb5e4b4d9b1bad83bc77540d82d9dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 30/54] fix: PlayUseWebsocket reports the outcome and refuses a
 connected session

---
 rtspclient.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 0a34cd2..0a82d5d 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -362,6 +362,10 @@ func (session *RtspClientSession) Close() {
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
+	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+		return errors.New("session is connected")
+	}
+
 	urlError := session.ParsingURL(rtspURL)
 	if nil != urlError {
 		return errors.New("url parse error: " + rtspURL)
@@ -376,8 +380,7 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 	conn := &WebsocketConn{conn: websocketConn}
 
-	session.SetConnection(conn)
-	return nil
+	return session.SetConnection(conn)
 }
 
 func (session *RtspClientSession) Play(rtspURL string) error {
-- 
2.43.0


From da18486ebaffbf4d7b57dab2f0e2771a99bf59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 31/54] fix: WebSocket connection: messages of any size, a
 Close that closes

---
 websocketconn.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index fd1586a..e763392 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -8,16 +8,21 @@ import (
 )
 
 type WebsocketConn struct {
-	conn *websocket.Conn
+	conn    *websocket.Conn
+	pending []byte // received but not read yet
 }
 
 func (conn *WebsocketConn) Read(b []byte) (int, error) {
-	_, message, err := conn.conn.ReadMessage()
-	if nil != err {
-		return 0, err
+	for 0 == len(conn.pending) && 0 != len(b) {
+		_, message, err := conn.conn.ReadMessage()
+		if nil != err {
+			return 0, err
+		}
+		conn.pending = message
 	}
-	copy(b[:len(message)], message)
-	return len(message), nil
+	n := copy(b, conn.pending)
+	conn.pending = conn.pending[n:]
+	return n, nil
 }
 
 func (conn *WebsocketConn) Write(b []byte) (int, error) {
@@ -29,25 +34,30 @@ func (conn *WebsocketConn) Write(b []byte) (int, error) {
 }
 
 func (conn *WebsocketConn) Close() error {
-	return conn.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+	conn.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
+	return conn.conn.Close()
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-	return conn.LocalAddr()
+	return conn.conn.LocalAddr()
 }
 
 func (conn *WebsocketConn) RemoteAddr() net.Addr {
-	return conn.RemoteAddr()
+	return conn.conn.RemoteAddr()
 }
 
 func (conn *WebsocketConn) SetDeadline(t time.Time) error {
-	return conn.SetDeadline(t)
+	err := conn.conn.SetReadDeadline(t)
+	if nil != err {
+		return err
+	}
+	return conn.conn.SetWriteDeadline(t)
 }
 
 func (conn *WebsocketConn) SetReadDeadline(t time.Time) error {
-	return conn.SetReadDeadline(t)
+	return conn.conn.SetReadDeadline(t)
 }
 
 func (conn *WebsocketConn) SetWriteDeadline(t time.Time) error {
-	return conn.SetWriteDeadline(t)
+	return conn.conn.SetWriteDeadline(t)
 }
-- 
2.43.0


From 7fbc2317ebe42d80bf82c68940e8b97e3b2e70d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 32/54] fix: split format parameters at semicolons

---
 sdpparser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 2516597..f672804 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -110,14 +110,16 @@ func getFmtParame(sdpFmtp string) map[string]string {
 
 	fieldsFmtp := strings.Split(sdpFmtp, " ")
 	for _, field := range fieldsFmtp {
-		fields := strings.Split(field, " ")
+		fields := strings.Split(field, ";")
 		for _, fieldTemp := range fields {
-			fieldTemp = strings.Replace(fieldTemp, ";", "", -1)
+			if "" == fieldTemp {
+				continue
+			}
 			index := strings.Index(fieldTemp, "=")
 			if index == -1 {
 				fmtParame[fieldTemp] = ""
 			} else {
-				fmtParame[fieldTemp[:index]] = field[index+1:]
+				fmtParame[fieldTemp[:index]] = fieldTemp[index+1:]
 			}
 		}
 	}
-- 
2.43.0


From 23482dc671c544a98f47262240863611216e7186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:23 +0000
Subject: [PATCH 33/54] fix: a media with several payload formats is described
 by the first one

---
 sdpparser.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index f672804..dc7e09f 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -59,10 +59,10 @@ func parsingSDP(sdp string) *SDPInfo {
 
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(meidaInfo.Description.Format)
+		sdpInfo.Medias[index].PayloadFormat = getPayloadFormat(meidaInfo.Description.Format)
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
-			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
+			sdpRtpmap := getValueForFormat(meidaInfo.Attributes, "rtpmap", sdpInfo.Medias[index].PayloadFormat)
 			if "" != sdpRtpmap {
 				codecName, timestampFrequency, channels = getPayloadInfoForRtpmap(sdpRtpmap)
 			}
@@ -88,7 +88,7 @@ func parsingSDP(sdp string) *SDPInfo {
 			sdpInfo.Medias[index].VideoFramerate = getFramerateForFramerate(sdpFramerate)
 		}
 
-		sdpFmtp := meidaInfo.Attributes.Value("fmtp")
+		sdpFmtp := getValueForFormat(meidaInfo.Attributes, "fmtp", sdpInfo.Medias[index].PayloadFormat)
 		if "" != sdpFmtp {
 			sdpInfo.Medias[index].Fmtp = getFmtParame(sdpFmtp)
 			log.Print(sdpFmtp)
@@ -99,6 +99,27 @@ func parsingSDP(sdp string) *SDPInfo {
 	return sdpInfo
 }
 
+// getPayloadFormat returns the first payload format of a media, -1 if it is
+// not a number
+func getPayloadFormat(sdpFormat string) int {
+	payloadFormat, err := strconv.Atoi(strings.SplitN(sdpFormat, " ", 2)[0])
+	if nil != err {
+		return -1
+	}
+	return payloadFormat
+}
+
+// getValueForFormat returns the value of the attribute that describes the
+// payload format, the first value if none does
+func getValueForFormat(attributes sdp.Attributes, name string, payloadFormat int) string {
+	for _, value := range attributes.Values(name) {
+		if strings.HasPrefix(value, strconv.Itoa(payloadFormat)+" ") {
+			return value
+		}
+	}
+	return attributes.Value(name)
+}
+
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
 	framerate, _ := strconv.Atoi(sdpFramerate)
-- 
2.43.0


From 708344f069f12728d7422868db43aba2df77dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 34/54] fix: read frame rates with decimals

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index dc7e09f..902e2ef 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -122,8 +122,8 @@ func getValueForFormat(attributes sdp.Attributes, name string, payloadFormat int
 
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
-	framerate, _ := strconv.Atoi(sdpFramerate)
-	return framerate
+	framerate, _ := strconv.ParseFloat(strings.TrimSpace(sdpFramerate), 64)
+	return int(framerate)
 }
 
 func getFmtParame(sdpFmtp string) map[string]string {
-- 
2.43.0


From b6d0ef8df107d292299ab575c5673596e8810988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 35/54] fix: codec names are case-insensitive

---
 rtpparser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rtpparser.go b/rtpparser.go
index 898b2c2..976076c 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -2,6 +2,7 @@ package rtspclient
 
 import (
 	"log"
+	"strings"
 )
 
 const (
@@ -91,7 +92,7 @@ func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int
 }
 
 func getRTPSourceHandler(codecName string) IRtpParseInterface {
-	switch codecName {
+	switch strings.ToUpper(codecName) {
 	case "H264":
 		{
 			return &H264RtpParser{}
@@ -100,7 +101,7 @@ func getRTPSourceHandler(codecName string) IRtpParseInterface {
 		{
 			return &HevcRtpParser{}
 		}
-	case "bbw":
+	case "BBW":
 		{
 			return &MarkRtpParser{}
 		}
-- 
2.43.0


From 4f36b0e3cf4ea5399ccecf10fff85dd12b147014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 36/54] fix: late media of an earlier connection does not reach
 the next one's tracks

---
 rtspclient.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 0a82d5d..bc56808 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -78,7 +78,7 @@ type RtspClientSession struct {
 	tcpConn            *tcpnetwork.Connection
 	eventQueue         chan *tcpnetwork.ConnEvent
 	rtspResponseQueue  chan *RtspResponseContext
-	rtpChannelLock     sync.Mutex // protects rtpChannelMap
+	rtpChannelLock     sync.Mutex // protects the channels of all connections
 	rtpChannelMap      map[int]*RtpParser
 	sdpInfo            *SDPInfo
 	RtpMediaMap        map[int]MediaSubsession
@@ -100,12 +100,12 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 }
 
 func (session *RtspClientSession) HandleConn() {
-	session.handleConn(session.eventQueue, session.rtspResponseQueue)
+	session.handleConn(session.eventQueue, session.rtspResponseQueue, session.rtpChannelMap)
 }
 
-// handleConn handles the events of one connection. The queues belong to that
-// connection, the session may already use the next one when it is over.
-func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEvent, rtspResponseQueue chan *RtspResponseContext) {
+// handleConn handles the events of one connection. The queues and the channels
+// belong to that connection, the session may already use the next one when it is over.
+func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEvent, rtspResponseQueue chan *RtspResponseContext, rtpChannelMap map[int]*RtpParser) {
 	for {
 		event := <-eventQueue
 		if nil == event {
@@ -129,7 +129,7 @@ func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEve
 		case tcpnetwork.ConnEventData:
 			{
 				if event.Data != nil {
-					session.parsingData(event.Data, rtspResponseQueue)
+					session.parsingData(event.Data, rtspResponseQueue, rtpChannelMap)
 				}
 			}
 			break
@@ -146,19 +146,19 @@ func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEve
 	}
 }
 
-func (session *RtspClientSession) parsingData(data []byte, rtspResponseQueue chan *RtspResponseContext) {
+func (session *RtspClientSession) parsingData(data []byte, rtspResponseQueue chan *RtspResponseContext, rtpChannelMap map[int]*RtpParser) {
 	if len(data) < 4 {
 		return
 	}
 	headerData := data[:4]
 	if headerData[0] == '$' {
-		session.parsingRtp(data)
+		session.parsingRtp(data, rtpChannelMap)
 	} else if string(headerData[:4]) == "RTSP" || string(headerData[:4]) == "rtsp" {
 		session.parsingRtsp(data, rtspResponseQueue)
 	}
 }
 
-func (session *RtspClientSession) parsingRtp(data []byte) {
+func (session *RtspClientSession) parsingRtp(data []byte, rtpChannelMap map[int]*RtpParser) {
 	header := data[:4]
 	rtpData := data[4:]
 
@@ -176,7 +176,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	// rtp data
 	channelNum := int(header[1])
 	session.rtpChannelLock.Lock()
-	rtpParser, ok := session.rtpChannelMap[channelNum]
+	rtpParser, ok := rtpChannelMap[channelNum]
 	session.rtpChannelLock.Unlock()
 	if ok {
 		totalLength := 0
@@ -336,16 +336,14 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 	session.rtspRequestInitial = true
 	session.rtspContext.sessionID = ""
 	session.RtpMediaMap = make(map[int]MediaSubsession)
-	session.rtpChannelLock.Lock()
 	session.rtpChannelMap = make(map[int]*RtpParser)
-	session.rtpChannelLock.Unlock()
 
 	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, func(event *tcpnetwork.ConnEvent) {
 		eventQueue <- event
 	})
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
 	session.tcpConn.Run()
-	go session.handleConn(eventQueue, session.rtspResponseQueue)
+	go session.handleConn(eventQueue, session.rtspResponseQueue, session.rtpChannelMap)
 
 	return session.sendRequest()
 }
-- 
2.43.0


From c7d6881e15aa6d57d0136426b065cacdf00eeda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 37/54] fix: do not join an unfinished fragmented unit with the
 next one

---
 h264rtpparser.go      | 6 ++++++
 hevcrtpparser.go      | 5 +++++
 rtpparser.go          | 5 +++++
 rtpparserinterface.go | 6 ++++++
 4 files changed, 22 insertions(+)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index c1a63a8..9414845 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -67,6 +67,12 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
+
+func (rtpParser *H264RtpParser) continuesUnit(header []byte) bool {
+	// only fragments without the start bit have both of their header bytes skipped
+	return len(header) == RtpHeaderLen+2
+}
+
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
 	if len(header) < RtpHeaderLen+1 {
 		return 0, len(payload)
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 8f41cdb..98346e4 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -59,6 +59,11 @@ func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 
+func (rtpParser *HevcRtpParser) continuesUnit(header []byte) bool {
+	// only fragments without the start bit have all of their header bytes skipped
+	return len(header) == RtpHeaderLen+3
+}
+
 func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
 	if len(header) < RtpHeaderLen+2 {
 		return 0, len(payload)
diff --git a/rtpparser.go b/rtpparser.go
index 976076c..5fcf50f 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -56,6 +56,11 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 	var header, payload []byte
 	src = removeRtpOptions(src)
 	rtpParser.isMarkFrame, header, payload = rtpParser.rtpSourceHandler.SplitHeader(src)
+	continuer, ok := rtpParser.rtpSourceHandler.(unitContinuer)
+	if ok && len(payload) > 0 && !continuer.continuesUnit(header) {
+		// the rest of an unfinished unit is lost, it must not be joined with this one
+		rtpParser.payloadLen = 0
+	}
 	return header, payload
 }
 
diff --git a/rtpparserinterface.go b/rtpparserinterface.go
index 4a62791..084ad4c 100644
--- a/rtpparserinterface.go
+++ b/rtpparserinterface.go
@@ -5,6 +5,12 @@ type IRtpParseInterface interface {
 	ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int)
 }
 
+// unitContinuer is implemented by handlers of payload formats with fragments.
+// It tells whether the packet goes on with a unit that an earlier one started.
+type unitContinuer interface {
+	continuesUnit(header []byte) bool
+}
+
 const (
 	PacketHeaderLen = 4
 	RtpHeaderLen    = 12
-- 
2.43.0


From a7dd35030007f7bcda91d02e6706acc8f4ffcc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 38/54] fix: send large speeds exactly

---
 rtsprequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 64ce4eb..f05752a 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -112,7 +112,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strSpeed string
 	if inSpeed != 1 {
-		strSpeed = fmt.Sprintf("Speed: %f\r\n", float32(inSpeed))
+		strSpeed = fmt.Sprintf("Speed: %f\r\n", float64(inSpeed))
 	}
 
 	var strStartTime string
-- 
2.43.0


From c77b22ae2e0b03b4dbea7e31bbe076d0379720bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 39/54] fix: SDP lines whose type is not one character are not
 read as the type of their first character

---
 sdp/sdp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index 34f6944..8f4e4d2 100644
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -62,7 +62,11 @@ func (l *Line) Decode(b []byte) error {
 		err := newDecodeError("line", reason)
 		return errors.Wrap(err, "failed to decode")
 	}
-	r, _ := utf8.DecodeRune(b[:delimiter])
+	r, size := utf8.DecodeRune(b[:delimiter])
+	if size != delimiter {
+		// not exactly one character, this is no known type
+		r = utf8.RuneError
+	}
 	if len(b) <= (delimiter+1) && Type(r) != TypeSessionName {
 		reason := fmt.Sprintf(
 			"len(b) %d < (%d + 1), no value found after delimiter",
-- 
2.43.0


From bda2ae9c88dccea7b277ca44f9578c127e4889e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 40/54] fix: SDP intervals that do not fit into a duration are
 refused

---
 sdp/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 25300ab..b0aad8a 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -866,6 +866,9 @@ func decodeInterval(b []byte, v *time.Duration) error {
 	if err := decodeInt(b, &val); err != nil {
 		return errors.Wrap(err, "unable to decode value")
 	}
+	if time.Duration(val)*unit/unit != time.Duration(val) {
+		return errors.Wrap(strconv.ErrRange, "duration is too long")
+	}
 	*v = time.Duration(val) * unit
 	return nil
 }
-- 
2.43.0


From feb625cbe129cd9a66dfc308c727d739709befeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 41/54] fix: SDP ports with more than a port and a number of
 ports are refused

---
 sdp/decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index b0aad8a..c5f48c8 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -957,6 +957,11 @@ func (d *Decoder) decodeMediaDescription(m *Message) error {
 	}
 	// port: port/ports_number
 	pp := bytes.Split(p[1], []byte{'/'})
+	if len(pp) > 2 {
+		msg := fmt.Sprintf("unexpected port %s", p[1])
+		err = newSectionDecodeError(d.section, msg)
+		return errors.Wrap(err, "failed to decode media description")
+	}
 	if err = decodeInt(pp[0], &desc.Port); err != nil {
 		return errors.Wrap(err, "failed to decode port")
 	}
-- 
2.43.0


From 0806dd5d89eb23433eee28a02ba56ba9d637b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 42/54] fix: SDP connection addresses with an empty element are
 refused

---
 sdp/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index c5f48c8..85c61c2 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -608,6 +608,10 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 			return errors.Wrap(err, "failed to decode connection data")
 		}
 	}
+	if len(base) == 0 || subField >= 1 && len(first) == 0 || subField >= 2 && len(second) == 0 {
+		err = d.newFieldError("empty element in address")
+		return errors.Wrap(err, "failed to decode connection data")
+	}
 	switch d.section {
 	case sectionMedia:
 		d.m.Connection.IP, err = decodeIP(m.Connection.IP, base)
-- 
2.43.0


From ff731f1a8d4e7fa1b17554c868720fd8059be8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 43/54] fix: escape quotes and backslashes of the user name in
 Digest headers

---
 authenticator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/authenticator.go b/authenticator.go
index 0ffe8e4..bbbc205 100644
--- a/authenticator.go
+++ b/authenticator.go
@@ -5,6 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
+	"strings"
 )
 
 const (
@@ -27,6 +28,9 @@ func NewAuthenticator() *Authenticator {
 	}
 }
 
+// quotedString escapes what would end a quoted string
+var quotedString = strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+
 func MD5StringToString(src string) string {
 	context := md5.New()
 	context.Write([]byte(src))
@@ -46,7 +50,7 @@ func (authenticator *Authenticator) createAuthenticatorString(cmd, url string) s
 		//    md5(<password>:<nonce>:md5(<cmd>:<url>))
 		strResponse := MD5StringToString(MD5StringToString(authenticator.username+":"+authenticator.realm+":"+authenticator.password) + ":" + authenticator.nonce + ":" + MD5StringToString(cmd+":"+url))
 		authenticatorString = "Authorization: Digest username=\"%s\", realm=\"%s\", nonce=\"%s\", uri=\"%s\", response=\"%s\"\r\n"
-		authenticatorString = fmt.Sprintf(authenticatorString, authenticator.username, authenticator.realm, authenticator.nonce, url, strResponse)
+		authenticatorString = fmt.Sprintf(authenticatorString, quotedString.Replace(authenticator.username), authenticator.realm, authenticator.nonce, url, strResponse)
 	}
 	return authenticatorString
 }
-- 
2.43.0


From 63336bf5b7773a458c6666fc02feab261a82fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 44/54] fix: a line break in the user name never becomes one in
 a request

---
 authenticator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/authenticator.go b/authenticator.go
index bbbc205..359205d 100644
--- a/authenticator.go
+++ b/authenticator.go
@@ -5,6 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
+	"log"
 	"strings"
 )
 
@@ -43,6 +44,9 @@ func (authenticator *Authenticator) createAuthenticatorString(cmd, url string) s
 		authenticatorString = "Authorization: Basic %s\r\n"
 		strResponse := base64.StdEncoding.EncodeToString([]byte(authenticator.username + ":" + authenticator.password))
 		authenticatorString = fmt.Sprintf(authenticatorString, strResponse)
+	} else if authenticator.authenicatorType == AuthenticatorTypeDigest && strings.ContainsAny(authenticator.username, "\r\n") {
+		// no header can carry this name, it would start another one
+		log.Print("line break in user name")
 	} else if authenticator.authenicatorType == AuthenticatorTypeDigest {
 		// The "response" field is computed as:
 		//    md5(md5(<username>:<realm>:<password>):<nonce>:md5(<cmd>:<url>))
-- 
2.43.0


From 4fff200bb8209286f0c552b19d7e860342a56171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 45/54] fix: a space in the query of the URL does not end the
 URL in the request line

---
 rtspclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index bc56808..05f2b8f 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -8,6 +8,7 @@ import (
 	"net"
 	"net/url"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -325,6 +326,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 	}
 
 	urlInfo.User = nil
+	// a space would end the URL in the request line
+	urlInfo.RawQuery = strings.Replace(urlInfo.RawQuery, " ", "%20", -1)
 	session.rtspContext.rtspURL = urlInfo.String()
 	return nil
 }
-- 
2.43.0


From 14eff5f87fc7e9e4218b31e669dc1a7a921f6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 46/54] fix: no panic on media of a session without data
 handler

---
 rtspclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 05f2b8f..f3a9f82 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -160,6 +160,9 @@ func (session *RtspClientSession) parsingData(data []byte, rtspResponseQueue cha
 }
 
 func (session *RtspClientSession) parsingRtp(data []byte, rtpChannelMap map[int]*RtpParser) {
+	if nil == session.dataHandle {
+		return
+	}
 	header := data[:4]
 	rtpData := data[4:]
 
-- 
2.43.0


From b834eca95c98f15e1aae56f41e680adbe5284d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 47/54] fix: a count of IPv4 addresses without TTL was written
 where the TTL belongs

---
 sdp/fields.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sdp/fields.go b/sdp/fields.go
index a11472b..4c97dfd 100644
--- a/sdp/fields.go
+++ b/sdp/fields.go
@@ -231,12 +231,18 @@ func (c ConnectionData) getAddressType() string {
 	return getAddressTypeIP(c.IP, c.AddressType)
 }
 
+// hasTTL tells whether the address is written with its TTL: without it the
+// number of IPv4 addresses would be read as TTL.
+func (c ConnectionData) hasTTL() bool {
+	return c.TTL > 0 || c.Addresses > 0 && isIPv4(c.IP)
+}
+
 // ConnectionAddress formats <connection-address> sub-field.
 func (c ConnectionData) ConnectionAddress() string {
 	// <base multicast address>[/<ttl>]/<number of addresses>
 	// ALLOCATIONS: suboptimal. Use appendAddress.
 	var address = strings.ToUpper(c.IP.String())
-	if c.TTL > 0 {
+	if c.hasTTL() {
 		address += fmt.Sprintf("/%d", c.TTL)
 	}
 	if c.Addresses > 0 {
@@ -253,7 +259,7 @@ func (c ConnectionData) String() string {
 
 func (c ConnectionData) appendAddress(v []byte) []byte {
 	v = appendIP(v, c.IP)
-	if c.TTL > 0 {
+	if c.hasTTL() {
 		v = appendRune(v, '/')
 		v = appendByte(v, c.TTL)
 	}
-- 
2.43.0


From a081474f2fb7364c6a925ea768254bb438ea92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 48/54] fix: TTL and address count of an earlier connection
 line were mixed into the next one

---
 sdp/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 85c61c2..dcb115b 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -575,6 +575,13 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		err := d.newFieldError("connection-address is empty")
 		return errors.Wrap(err, "failed to decode connection data")
 	}
+	// nothing of an earlier line stays
+	switch d.section {
+	case sectionMedia:
+		d.m.Connection = ConnectionData{}
+	case sectionSession:
+		m.Connection = ConnectionData{}
+	}
 	switch d.section {
 	case sectionMedia:
 		d.m.Connection.AddressType = string(addressType)
-- 
2.43.0


From d1dae14cd3378bc4afff271cde162bb980191a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 49/54] fix: a description with several email addresses or
 phone numbers was refused

---
 sdp/decoder.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index dcb115b..db4858e 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -1026,15 +1026,23 @@ func (d *Decoder) decodeField(m *Message) error {
 	}
 }
 
+// isNextContact tells whether the line is an email address or phone number
+// right behind another one, there may be several of each.
+func (d *Decoder) isNextContact() bool {
+	return (d.t == TypeEmail || d.t == TypePhone) && d.pos > 1 && d.s[d.pos-2].Type == d.t
+}
+
 func (d *Decoder) decodeSession(m *Message) error {
 	d.sPos = 0
 	d.section = sectionSession
 	for d.next() {
-		if err := isExpected(d.t, d.section, d.sPos); err != nil {
-			return errors.Wrap(err, "decode failed")
-		}
-		if !isZeroOrMore(d.t) {
-			d.sPos++
+		if !d.isNextContact() {
+			if err := isExpected(d.t, d.section, d.sPos); err != nil {
+				return errors.Wrap(err, "decode failed")
+			}
+			if !isZeroOrMore(d.t) {
+				d.sPos++
+			}
 		}
 		switch d.t {
 		case TypeTiming:
-- 
2.43.0


From e72a722354787a3e7625e76bcef3267b75453cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 50/54] fix: a Digest challenge with an algorithm other than
 MD5 was answered with MD5, also when another challenge could be met

---
 rtspparser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index e54009a..250aa22 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -72,8 +72,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			// the session id ends where its parameters start
 			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
-			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
+			authenticateType, realm, nonce, _, algorithm := parsingAuthenticate(theValue)
 			if strings.EqualFold("Digest", authenticateType) {
+				if "" != algorithm && !strings.EqualFold("MD5", algorithm) {
+					// cannot be answered
+					continue
+				}
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
@@ -88,10 +92,11 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	return nil
 }
 
-func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
+func parsingAuthenticate(authenticateValue string) (string, string, string, string, string) {
 	var realm string
 	var nonce string
 	var stale string
+	var algorithm string
 	var authenticateType string
 
 	// <type> name=value, name="value", ...
@@ -139,7 +144,9 @@ func parsingAuthenticate(authenticateValue string) (string, string, string, stri
 			nonce = value
 		case "stale":
 			stale = value
+		case "algorithm":
+			algorithm = value
 		}
 	}
-	return authenticateType, realm, nonce, stale
+	return authenticateType, realm, nonce, stale, algorithm
 }
-- 
2.43.0


From fdf3f4eccf179a55ec725bb4eebbb466e3cc8ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 51/54] fix: the decoding order number of an FU-B was delivered
 as part of the NAL unit

---
 h264rtpparser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 9414845..9066695 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -48,7 +48,14 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 			// If the start bit is set, we reconstruct the original NAL header into byte 1:
 			startBit := rtpData[1] & 0x80
 			endBit := rtpData[1] & 0x40
-			if 0 != startBit {
+			if 0 != startBit && 29 == packetNALUnitType {
+				// a FU-B has a decoding order number behind its header
+				if len(rtpData) < 4 {
+					return false, src[:RtpHeaderLen], nil
+				}
+				rtpData[3] = (rtpData[0] & 0xe0) | (rtpData[1] & 0x1f)
+				skipHeaderLen = 3
+			} else if 0 != startBit {
 				// reset nal header
 				rtpData[1] = (rtpData[0] & 0xe0) | (rtpData[1] & 0x1f)
 				skipHeaderLen = 1
-- 
2.43.0


From 1165711aef543c88f774587f7e2d21ec1a6a6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 52/54] fix: decode every repeat line of a time description

RFC 4566 allows several r= lines behind one t= line. A second one was refused,
and the interval and the duration it gives would have replaced those of the
first, whose offsets would then have been repeated at the wrong interval.
---
 sdp/decoder.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index db4858e..243801c 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -398,9 +398,8 @@ func (d *Decoder) decodeTiming(m *Message) error {
 		}
 		switch d.t {
 		case TypeTiming, TypeRepeatTimes:
-			if d.t == TypeTiming {
-				d.sPos = 1
-			}
+			// more repeat times may follow
+			d.sPos = 1
 			if err := d.decodeField(m); err != nil {
 				return errors.Wrap(err, "decode failed")
 			}
@@ -902,13 +901,19 @@ func (d *Decoder) decodeRepeatTimes(m *Message) error {
 		err = newSectionDecodeError(d.section, msg)
 		return errors.Wrap(err, "failed to decode repeat")
 	}
-	t := m.Timing[len(m.Timing)-1]
+	last := m.Timing[len(m.Timing)-1]
+	t := last
 	if err = decodeInterval(p[0], &t.Repeat); err != nil {
 		return errors.Wrap(err, "failed to decode repeat interval")
 	}
 	if err = decodeInterval(p[1], &t.Active); err != nil {
 		return errors.Wrap(err, "failed to decode active duration")
 	}
+	if len(last.Offsets) > 0 && (t.Repeat != last.Repeat || t.Active != last.Active) {
+		// another repetition of the same times
+		t.Offsets = nil
+		m.Timing = append(m.Timing, t)
+	}
 	var dd time.Duration
 	for i, pp := range p[2:] {
 		if err = decodeInterval(pp, &dd); err != nil {
-- 
2.43.0


From 5e202f0bafd0157649ed0c22ccd21d689b9a68a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:11 +0000
Subject: [PATCH 53/54] fix: accept session ids and versions that need all 64
 bits

gst-rtsp-server picks 64 random bits for the session id of a description, so
half of its descriptions were refused (value out of range).
---
 sdp/decoder.go | 18 ++++++++++++++++--
 sdp/fields.go  |  8 ++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 243801c..e77ae81 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -776,6 +776,20 @@ func decodeInt(v []byte, i *int) error {
 	return err
 }
 
+// decodeID decodes a numeric id, which may need the sign bit as well.
+func decodeID(v []byte, i *int) error {
+	err := decodeInt(v, i)
+	if err == nil {
+		return nil
+	}
+	id, idErr := strconv.ParseUint(string(v), 10, strconv.IntSize)
+	if idErr != nil {
+		return err
+	}
+	*i = int(id)
+	return nil
+}
+
 func (d *Decoder) subfields() ([][]byte, error) {
 	n := bytes.Count(d.v, []byte{fieldsDelimiter})
 	result := make([][]byte, n+1)
@@ -821,10 +835,10 @@ func (d *Decoder) decodeOrigin(m *Message) error {
 	if err = decodeString(p[0], &o.Username); err != nil {
 		return errors.Wrap(err, "failed to decode username")
 	}
-	if err = decodeInt(p[1], &o.SessionID); err != nil {
+	if err = decodeID(p[1], &o.SessionID); err != nil {
 		return errors.Wrap(err, "failed to decode sess-id")
 	}
-	if err = decodeInt(p[2], &o.SessionVersion); err != nil {
+	if err = decodeID(p[2], &o.SessionVersion); err != nil {
 		return errors.Wrap(err, "failed to decode sess-version")
 	}
 	if err = decodeString(p[3], &o.NetworkType); err != nil {
diff --git a/sdp/fields.go b/sdp/fields.go
index 4c97dfd..803655b 100644
--- a/sdp/fields.go
+++ b/sdp/fields.go
@@ -274,8 +274,8 @@ func (c ConnectionData) appendAddress(v []byte) []byte {
 // See https://tools.ietf.org/html/rfc4566#section-5.2.
 type Origin struct {
 	Username       string // <username>
-	SessionID      int    // <sess-id>
-	SessionVersion int    // <sess-version>
+	SessionID      int    // <sess-id>, its bits: one that needs all of them is negative here
+	SessionVersion int    // <sess-version>, likewise
 	NetworkType    string // <nettype>
 	AddressType    string // <addrtype>
 	Address        string // <unicast-address>
@@ -316,8 +316,8 @@ func (o Origin) Equal(b Origin) bool {
 func (s Session) AddOrigin(o Origin) Session {
 	v := make([]byte, 0, 2048)
 	v = appendSpace(append(v, o.Username...))
-	v = appendSpace(appendInt(v, o.SessionID))
-	v = appendSpace(appendInt(v, o.SessionVersion))
+	v = appendSpace(appendUint64(v, uint64(uint(o.SessionID))))
+	v = appendSpace(appendUint64(v, uint64(uint(o.SessionVersion))))
 	v = appendSpace(append(v, o.getNetworkType()...))
 	v = appendSpace(append(v, o.getAddressType()...))
 	v = append(v, o.Address...)
-- 
2.43.0


From 255379c129e17fe6fb75eacba85ea3166cfeeaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:08 +0000
Subject: [PATCH 54/54] fix: take a control attribute for a whole URL only when
 it is one

A relative control attribute that begins with "rtsp" was sent as request URL
as it is, and an URL with its scheme in mixed case was appended.
---
 rtspclient.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index f3a9f82..717a7df 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -265,7 +265,7 @@ func (session *RtspClientSession) sendRequest() error {
 	session.rtspContext.sessionID = ""
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
-		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
+		if !isRtspURL(strTrackURL) {
 			// if strings.Contains(session.rtspContext.rtspURL, "?") {
 			// 	paramStartIndex := strings.Index(session.rtspContext.rtspURL, "?")
 			// 	strTrackURL = session.rtspContext.rtspURL[:paramStartIndex] + "/" + strTrackURL + session.rtspContext.rtspURL[paramStartIndex:]
@@ -307,6 +307,19 @@ func (session *RtspClientSession) sendRequest() error {
 	return nil
 }
 
+// isRtspURL tells whether a control attribute is a whole URL. A relative one may begin with "rtsp" as well.
+func isRtspURL(control string) bool {
+	end := strings.Index(control, "://")
+	if end == -1 {
+		return false
+	}
+	switch strings.ToLower(control[:end]) {
+	case "rtsp", "rtsps", "rtspu":
+		return true
+	}
+	return false
+}
+
 func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 	urlInfo, urlError := url.Parse(rtspURL)
 	if nil != urlError {
-- 
2.43.0

