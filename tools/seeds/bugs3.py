from bugs2 import *

M='package main\n\n'
B("T04-handler-time-counts","T04","an application handler that takes longer than the read timeout while the peer keeps sending",
  "The deadline of the next message starts before the previous one is handled, so the handler's time counts.",
  [(TCP,"	if 0 != connection.readTimeoutSec {\n		connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))\n	}\n\n	bufStartPos := 0","	bufStartPos := 0"),
   (TCP,"	if 0 != connection.readTimeoutSec {\n		connection.conn.SetReadDeadline(time.Time{})\n	}\n\n	return msg, nil","	if 0 != connection.readTimeoutSec {\n		connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))\n	}\n\n	return msg, nil"),
   (TCP,"	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)\n","	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)\n	if 0 != connection.readTimeoutSec {\n		connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))\n	}\n")],
 M+CONN_IMPORT+'''
func main() {
	got := make(chan bool, 10)
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 10, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventData {
			time.Sleep(1500 * time.Millisecond)
			got <- true
		}
	})
	conn.SetReadTimeoutSec(1)
	conn.Run()
	for i := 0; i < 3; i++ {
		srv.Write(frame(0, fill(20, 1)))
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			fail("message %d was not delivered", i)
		}
		time.Sleep(100 * time.Millisecond)
	}
}
''')
B("T04-session-read-timeout","T04","a session whose server is silent for half a minute",
  "Sessions get a read timeout of 30 seconds.",
  [(CL,"	session.tcpConn.SetStreamProtocol(session.rtpProtocol)\n","	session.tcpConn.SetStreamProtocol(session.rtpProtocol)\n	session.tcpConn.SetReadTimeoutSec(30)\n")],
 M+'''import (
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func main() {
	url, l := serve(func(p *peer) {
		if p.accept(sdpOf("X1"), "1") {
			time.Sleep(33 * time.Second)
			p.send(frame(0, rtp(1, true, fill(9, 1))))
			time.Sleep(time.Second)
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	wait(40*time.Second, func() bool { return len(p.frames()) == 1 || p.count(rtspclient.RtspEventDisconnected) > 0 })
	check(len(p.frames()) == 1, "disconnected by silence")
}
''')
B("T04-silent-body","T04","a peer that falls silent inside the payload of a frame",
  "The deadline is lifted while a body is read, so a peer that stops there is waited for without end.",
  [(TCP,"		// read body\n		if 0 != connection.readTimeoutSec {\n			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))\n		}\n		bodyLength = packetLength","		// read body\n		if 0 != connection.readTimeoutSec {\n			connection.conn.SetReadDeadline(time.Time{})\n		}\n		bodyLength = packetLength")],
 M+CONN_IMPORT+'''
func main() {
	end := make(chan bool, 10)
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 10, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventDisconnected {
			end <- true
		}
	})
	conn.SetReadTimeoutSec(1)
	conn.Run()
	srv.Write(frame(0, fill(200, 1))[:100])
	select {
	case <-end:
	case <-time.After(5 * time.Second):
		fail("no read timeout")
	}
}
''')
B("T04-timeout-not-cleared","T04","a read timeout, and a response without body after which the peer pauses for less than the timeout",
  "The end of a response is waited for with the deadline of its start line, renewed only when the connection is idle.",
  [(TCP,"	if 0 != connection.readTimeoutSec {\n		connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))\n	}\n\n	bufStartPos := 0","	if 0 != connection.readTimeoutSec && (0 == connection.connRW.Reader.Buffered() || 0 == len(connection.sendMsgQueue)) {\n		connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec/2+1) * time.Second))\n	}\n\n	bufStartPos := 0")],
 M+CONN_IMPORT+'''
func main() {
	end := make(chan bool, 10)
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 10, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventDisconnected {
			end <- true
		}
	})
	conn.SetReadTimeoutSec(4)
	conn.Run()
	srv.Write(frame(0, fill(200, 1)))
	select {
	case <-end:
		fail("ended before the read timeout")
	case <-time.After(3500 * time.Millisecond):
	}
}
''')
R7=M+'''import (
	"time"

	"github.com/NodeBoy2/rtspclient"
)

var _ = time.Second
var _ rtspclient.RtspData

func main() {
	seen := make(chan *request, 20)
	url, l := serve(func(p *peer) {
		if !p.accept(sdpOf("X1"), "1") {
			return
		}
		for {
			q := p.request()
			if q == nil {
				return
			}
			seen <- q
%s
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
%s
}
'''
B("R07-teardown-ungated","R07","TEARDOWN sent while the answer to another request is outstanding",
  "TEARDOWN goes out although the previous request was not answered.",
  [(RQ,"func (session *RtspClientSession) SendTeardown() error {\n	if !session.rtspRequestInitial {\n		return errors.New(\"waiting last request Reply\")\n	}\n","func (session *RtspClientSession) SendTeardown() error {\n	if !session.rtspRequestInitial && session.rtspContext.sessionID == \"\" {\n		return errors.New(\"waiting last request Reply\")\n	}\n")],
 R7%('			p.reply(q, 200, "", "")','''	p.SendPause()
	check(p.SendTeardown() != nil, "a second request was accepted")
	p.WaitRtspResponse()'''))
B("R07-unparsable-keeps-gate","R07","an answer that cannot be interpreted, followed by another request",
  "After an unusable answer every further request is refused.",
  [(CL,"	defer func() {\n		session.rtspRequestInitial = true\n	}()\n\n	select {\n	case response, ok := <-session.rtspResponseQueue:","	select {\n	case response, ok := <-session.rtspResponseQueue:"),
   (CL,"			return response, nil\n","			session.rtspRequestInitial = true\n			return response, nil\n")],
 R7%('''			if q.method == "PAUSE" {
				p.send([]byte("RTSP/1.0\\r\\n\\r\\n"))
			} else {
				p.reply(q, 200, "", "")
			}''','''	p.SendPause()
	_, err := p.WaitRtspResponse()
	check(err != nil, "no error")
	check(p.SendPlay(0, 1) == nil, "PLAY refused")
	_, err = p.WaitRtspResponse()
	check(err == nil, "%v", err)'''))
B("R07-refused-uses-number","R07","a PAUSE that is refused because an answer is outstanding",
  "A refused PAUSE uses up a sequence number.",
  [(RQ,"func (session *RtspClientSession) SendPause() error {\n	if !session.rtspRequestInitial {","func (session *RtspClientSession) SendPause() error {\n	session.rtspContext.cseq++\n	defer func() { session.rtspContext.cseq-- }()\n	if !session.rtspRequestInitial {\n		session.rtspContext.cseq++")],
 R7%('			p.reply(q, 200, "", "")','''	p.SendDescribe()
	p.SendPause()
	p.WaitRtspResponse()
	p.SendDescribe()
	a, b := <-seen, <-seen
	check(atoi(b.header["cseq"]) == atoi(a.header["cseq"])+1, "CSeq %s after %s", b.header["cseq"], a.header["cseq"])''')+'''
func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}
''')
B("R07-server-errors-hidden","R07","a control request answered 5xx",
  "Answers with a 5xx status are returned as an error without the status.",
  [(CL,"			return response, nil\n","			if response.Status >= 500 && response.Status < 600 {\n				return nil, errors.New(\"server error: \" + strconv.Itoa(response.Status))\n			}\n			return response, nil\n")],
 R7%('			p.reply(q, 551, "", "")','''	p.SendPause()
	r, err := p.WaitRtspResponse()
	check(err == nil && r.Status == 551, "%v %v", r, err)'''))
B("R07-late-by-polling","R07","a control request on an otherwise idle connection",
  "The answer is looked for in fixed intervals instead of when it arrives.",
  [(CL,"	select {\n	case response, ok := <-session.rtspResponseQueue:","	for i := 0; i < session.timeoutSec-1 && 0 == len(session.rtspResponseQueue) && !session.rtspRequestInitial && session.rtspContext.sessionID != \"\"; i++ {\n		time.Sleep(time.Second)\n	}\n	select {\n	case response, ok := <-session.rtspResponseQueue:")],
 R7%('			p.reply(q, 200, "", "")','''	t := time.Now()
	p.SendPause()
	p.WaitRtspResponse()
	check(time.Since(t) < 500*time.Millisecond, "the answer took %v", time.Since(t))'''))
B("D07-single-inside-unit","D07","a fragmented H.264 unit without its end, followed by a single NAL unit packet",
  "A single NAL unit packet is taken for a stray one while a fragmented unit is unfinished, and ignored.",
  [(H264,"type H264RtpParser struct {\n","type H264RtpParser struct {\n	inUnit bool\n"),
   (H264,"			skipHeaderLen = 0\n			isCompletesFrame = true\n		}\n		break\n	case 24:","			if rtpParser.inUnit {\n				rtpParser.inUnit = false\n				return false, src[:RtpHeaderLen], nil\n			}\n			skipHeaderLen = 0\n			isCompletesFrame = true\n		}\n		break\n	case 24:"),
   (H264,"			isCompletesFrame = (endBit != 0)\n","			isCompletesFrame = (endBit != 0)\n			rtpParser.inUnit = !isCompletesFrame\n")],
 M+'''func main() {
	fu := func(h byte, b ...byte) []byte { return append([]byte{0x7c, h}, b...) }
	p := media([]string{"H264"}, [][]byte{frame(0, rtp(1, false, fu(0x85, 1, 2))), frame(0, rtp(2, false, fu(0x05, 3))), frame(0, rtp(4, true, []byte{0x61, 9})), frame(0, rtp(5, true, []byte{0x61, 8}))}, 2)
	check(same(p.frames(), [][]byte{{0x61, 9}, {0x61, 8}}), "delivered %s", sizes(p.frames()))
}
''')
B("D07-gap-drops-next","D07","lost packets: a gap in the sequence numbers before an intact unit",
  "The packet behind a gap in the sequence numbers is dropped whatever it holds.",
  [(HEVC,"type HevcRtpParser struct {\n","type HevcRtpParser struct {\n	next  uint16\n	inSeq bool\n"),
   (HEVC,"	rtpData := src[RtpHeaderLen:]\n	packetNALUnitType := (rtpData[0] & 0x7E) >> 1\n\n	var skipHeaderLen int","	rtpData := src[RtpHeaderLen:]\n	packetNALUnitType := (rtpData[0] & 0x7E) >> 1\n	seq := uint16(src[2])<<8 | uint16(src[3])\n	gap := rtpParser.inSeq && seq-rtpParser.next > 0 && seq-rtpParser.next < 16\n	rtpParser.next, rtpParser.inSeq = seq+1, true\n	if gap && packetNALUnitType != 48 {\n		return false, src[:RtpHeaderLen], nil\n	}\n\n	var skipHeaderLen int")],
 M+'''func main() {
	fu := func(h byte, b ...byte) []byte { return append([]byte{0x62, 1, h}, b...) }
	p := media([]string{"H265"}, [][]byte{frame(0, rtp(1, false, fu(0x93, 1, 2))), frame(0, rtp(2, false, fu(0x13, 3))), frame(0, rtp(4, true, []byte{0x26, 1, 9})), frame(0, rtp(5, true, []byte{0x26, 1, 8}))}, 2)
	check(same(p.frames(), [][]byte{{0x26, 1, 9}, {0x26, 1, 8}}), "delivered %s", sizes(p.frames()))
}
''')
B("S08-duplicate-values","S08","adding the same value of an attribute twice",
  "A value that an attribute already has is not added again.",
  [(DE,"	a[k] = append(a[k], v)\n","	for _, have := range a[k] {\n		if have == v && len(a[k]) > 1 {\n			return a\n		}\n	}\n	a[k] = append(a[k], v)\n")],
 M+'''import "github.com/NodeBoy2/rtspclient/sdp"

func main() {
	var m sdp.Media
	m.AddAttribute("a", "1")
	m.AddAttribute("a", "2")
	m.AddAttribute("a", "1")
	check(len(m.Attributes.Values("a")) == 3, "%v", m.Attributes)
}
''')
B("S08-origin-default","S08","two origins of which one leaves the address type to the default",
  "Origins are compared with their defaults filled in.",
  [(FI,"	if o.AddressType != b.AddressType {","	if o.getAddressType() != b.getAddressType() {")],
 M+'''import "github.com/NodeBoy2/rtspclient/sdp"

func main() {
	a := sdp.Origin{Username: "u", Address: "1.2.3.4"}
	b := a
	b.AddressType = "IP4"
	check(!a.Equal(b), "equal")
}
''')
B("S08-ip-form","S08","connection data whose IPv4 address is in 4 byte form in one and in 16 byte form in the other",
  "Addresses are compared byte by byte.",
  [(FI,"	if !c.IP.Equal(b.IP) {","	if string(c.IP) != string(b.IP) {")],
 M+'''import (
	"net"

	"github.com/NodeBoy2/rtspclient/sdp"
)

func main() {
	a, b := sdp.ConnectionData{IP: net.IPv4(1, 2, 3, 4)}, sdp.ConnectionData{IP: net.IPv4(1, 2, 3, 4).To4()}
	check(a.Equal(b) && b.Equal(a), "not equal")
}
''')
B("S08-latest-end","S08","several time descriptions of which the first does not end last",
  "The end of a message is the latest of all its time descriptions.",
  [(DE,"	return m.Timing[0].End\n","	end := m.Timing[0].End\n	for _, t := range m.Timing {\n		if t.End.After(end) {\n			end = t.End\n		}\n	}\n	return end\n")],
 M+'''import (
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"
)

func main() {
	m := sdp.Message{Timing: []sdp.Timing{{End: time.Unix(1000, 0)}, {End: time.Unix(2000, 0)}}}
	check(m.End().Equal(time.Unix(1000, 0)), "%v", m.End())
}
''')
B("L01-send-timeout-unit","L01","a peer that does not read until the queue is full",
  "Send waits minutes instead of seconds for room in the queue.",
  [(TCP,"	case connection.sendMsgQueue <- msg:\n		{\n			// nothing\n		}\n	case <-connection.quit:\n		{\n			// already closed\n		}\n	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):","	case connection.sendMsgQueue <- msg:\n		{\n			// nothing\n		}\n	case <-connection.quit:\n		{\n			// already closed\n		}\n	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Minute):")],
 M+CONN_IMPORT+'''
func main() {
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 1, func(e *tcpnetwork.ConnEvent) {})
	conn.Run()
	time.Sleep(100 * time.Millisecond)
	done := make(chan bool)
	go func() {
		big := fill(8<<20, 1)
		for i := 0; i < 10; i++ {
			conn.Send(big, false)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("Send does not return")
	}
	srv.Close()
}
''')
B("L01-media-keeps-waiting","L01","a server that goes on sending media but does not answer",
  "The wait for an answer starts again whenever media arrived in the meantime.",
  [(CL,"	case <-time.After(time.Duration(session.timeoutSec) * time.Second):\n		{\n			if nil","	case <-time.After(time.Duration(session.timeoutSec) * time.Second):\n		{\n			if count := atomic.LoadInt32(&session.packets); count != seen {\n				return session.WaitRtspResponse()\n			}\n			if nil"),
   (CL,"	select {\n	case response, ok := <-session.rtspResponseQueue:","	seen := atomic.LoadInt32(&session.packets)\n	select {\n	case response, ok := <-session.rtspResponseQueue:"),
   (CL,"	// rtp data\n	channelNum","	atomic.AddInt32(&session.packets, 1)\n	// rtp data\n	channelNum"),
   (CL,"	timeoutSec         int\n","	timeoutSec         int\n	packets            int32\n"),
   (CL,'	"sync"\n','	"sync"\n	"sync/atomic"\n')],
 M+'''import "time"

func main() {
	url, l := serve(func(p *peer) {
		if !p.accept(sdpOf("X1"), "1") {
			return
		}
		for i := 0; p.send(frame(0, rtp(i, true, fill(9, 1)))) == nil; i++ {
			time.Sleep(50 * time.Millisecond)
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	done := make(chan bool)
	go func() { p.SendPause(); p.WaitRtspResponse(); close(done) }()
	select {
	case <-done:
	case <-time.After(12 * time.Second):
		fail("WaitRtspResponse does not return")
	}
}
''')
B("L02-too-many-unexpected","L02","more than a hundred responses nobody waits for",
  "A connection with many unexpected responses is closed.",
  [(CL,"	rtspResponseContext := &RtspResponseContext{}\n	err := ParserRtspResponse(data, rtspResponseContext)\n","	rtspResponseContext := &RtspResponseContext{}\n	err := ParserRtspResponse(data, rtspResponseContext)\n	if session.unexpected > 100 {\n		session.tcpConn.Close()\n	}\n	if len(rtspResponseQueue) > 0 {\n		session.unexpected++\n	}\n"),
   (CL,"	timeoutSec         int\n","	timeoutSec         int\n	unexpected         int\n")],
 M+'''import "time"

func main() {
	url, l := serve(func(p *peer) {
		p.accept(sdpOf("X1"), "1")
		for i := 0; i < 150; i++ {
			p.send([]byte("RTSP/1.0 200 OK\\r\\nCSeq: 1\\r\\n\\r\\n"))
		}
		time.Sleep(500 * time.Millisecond)
		p.send(frame(0, rtp(1, true, fill(9, 1))))
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	check(wait(5*time.Second, func() bool { return len(p.frames()) == 1 }), "no media")
	p.Close()
}
''')
B("L02-response-ends-fragment","L02","a response nobody waits for between the fragments of a NAL unit",
  "Unexpected responses make the client start over with all tracks.",
  [(CL,"		log.Print(\"unexpected rtsp response\")\n","		log.Print(\"unexpected rtsp response\")\n		session.rtpChannelLock.Lock()\n		for _, rtpParser := range session.rtpChannelMap {\n			rtpParser.payloadLen = 0\n		}\n		session.rtpChannelLock.Unlock()\n")],
 M+'''func main() {
	r := []byte("RTSP/1.0 200 OK\\r\\nCSeq: 1\\r\\n\\r\\n")
	p := media([]string{"bbw"}, [][]byte{frame(0, rtp(1, false, fill(9, 1))), r, r, r, frame(0, rtp(2, true, fill(9, 2)))}, 1)
	check(len(p.frames()) == 1 && len(p.frames()[0]) == 18, "delivered %s", sizes(p.frames()))
}
''')
B("L04-watchdog","L04","the end of any connection",
  "A watchdog of the connection looks at its status once a minute only and so outlives it.",
  [(TCP,"	go connection.routineMain()\n","	go connection.routineMain()\n	go func() {\n		for ConnStatusConnected == connection.GetStatus() {\n			time.Sleep(time.Minute)\n			log.Printf(\"%d messages queued\", len(connection.sendMsgQueue))\n		}\n	}()\n")],
 M+'''import (
	"runtime"
	"time"
)

func main() {
	url, l := serve(func(p *peer) { p.accept(sdpOf("X1"), "1"); p.request() })
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		p := newPlayer()
		check(p.Play(url+"/x") == nil, "play")
		p.Close()
	}
	l.Close()
	check(wait(15*time.Second, func() bool { return runtime.NumGoroutine() < before+10 }), "%d goroutines, %d before", runtime.NumGoroutine(), before)
}
''')
B("L04-keepalive","L04","a WebSocket session that ends",
  "A goroutine that pings the WebSocket server never ends.",
  [(CL,"	conn := &WebsocketConn{conn: websocketConn}\n","	conn := &WebsocketConn{conn: websocketConn}\n	go func() {\n		for range time.Tick(10 * time.Second) {\n			websocketConn.WriteControl(websocket.PingMessage, nil, time.Now().Add(time.Second))\n		}\n	}()\n")],
 "WS_LEAK")
B("L04-failed-websocket-url","L04","a WebSocket handshake that the server refuses",
  "A refused handshake leaves a goroutine that retries in the background.",
  [(CL,"		session.sendEvent(RtspEventDisconnected, nil)\n		log.Println(\"connect error: \", webURL)\n","		session.sendEvent(RtspEventDisconnected, nil)\n		log.Println(\"connect error: \", webURL)\n		go func() {\n			for session.timeoutSec > 0 {\n				time.Sleep(time.Hour)\n			}\n		}()\n")],
 M+'''import (
	"runtime"
	"time"
)

func main() {
	before := runtime.NumGoroutine()
	l := listen()
	addr := l.Addr().String()
	l.Close()
	for i := 0; i < 20; i++ {
		newPlayer().PlayUseWebsocket("ws://"+addr+"/", "rtsp://h/x")
	}
	check(wait(10*time.Second, func() bool { return runtime.NumGoroutine() < before+10 }), "%d goroutines, %d before", runtime.NumGoroutine(), before)
}
''')
B("W01-read-limit","W01","a WebSocket message larger than 64 KiB",
  "WebSocket messages of more than 64 KiB end the session.",
  [(CL,"	conn := &WebsocketConn{conn: websocketConn}\n","	websocketConn.SetReadLimit(0xffff)\n	conn := &WebsocketConn{conn: websocketConn}\n")],
 "WS_BIG")
B("W01-write-deadline","W01","a request more than ten seconds after the WebSocket was connected",
  "The write deadline of the handshake stays in force.",
  [(CL,"	conn := &WebsocketConn{conn: websocketConn}\n","	websocketConn.SetWriteDeadline(time.Now().Add(10 * time.Second))\n	conn := &WebsocketConn{conn: websocketConn}\n")],
 "WS_LATE")
B("D04-parser-per-codec","D04","two tracks with the same codec whose fragments are interleaved",
  "Tracks with the same codec share one reassembly buffer.",
  [(CL,"		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)\n","		for i := 0; i < index; i++ {\n			if session.sdpInfo.Medias[i].CodecName == media.CodecName {\n				session.rtpChannelMap[rtpIndex] = session.rtpChannelMap[i*2]\n			}\n		}\n		if nil == session.rtpChannelMap[rtpIndex] {\n			session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)\n		}\n")],
 M+'''func main() {
	p := media([]string{"bbw", "bbw"}, [][]byte{frame(0, rtp(1, false, fill(9, 1))), frame(2, rtp(1, true, fill(9, 2))), frame(0, rtp(2, true, fill(9, 3)))}, 2)
	check(same(p.frames(), [][]byte{fill(9, 2), append(fill(9, 1), fill(9, 3)...)}), "delivered %s", sizes(p.frames()))
}
''')
B("D05-late-timestamp","D05","packets whose timestamps go back, as with B frames",
  "A packet whose timestamp is before that of the packet before it on its channel is dropped as late.",
  [(CL,"		totalLength := 0\n","		if 0 != rtpParser.timestamp && int32(timestamp-rtpParser.timestamp) < 0 {\n			return\n		}\n		rtpParser.timestamp = timestamp\n		totalLength := 0\n"),
   (RT,"	isMarkFrame      bool\n","	isMarkFrame      bool\n	timestamp        uint32\n")],
 M+'''func main() {
	p := media([]string{"X1"}, [][]byte{frame(0, rtp(9, true, fill(9, 1))), frame(0, rtp(8, true, fill(9, 2)))}, 2)
	check(len(p.frames()) == 2, "delivered %s", sizes(p.frames()))
}
''')
B("D05-rtcp-payload-types","D05","RTP packets whose second byte looks like an RTCP packet type (payload types 72 to 76 with the marker bit)",
  "Packets with second byte 200 to 204 are taken for RTCP although they come on the RTP channel.",
  [(CL,"	// rtp data\n	channelNum","	if rtpData[1] >= 200 && rtpData[1] <= 204 {\n		// RTCP\n		return\n	}\n	// rtp data\n	channelNum")],
 M+'''func main() {
	a := rtp(1, true, fill(9, 1))
	a[1] = 0x80 | 73
	p := media([]string{"X1"}, [][]byte{frame(0, a), frame(0, rtp(2, true, fill(9, 2)))}, 2)
	check(len(p.frames()) == 2, "delivered %s", sizes(p.frames()))
}
''')
B("D06-ring-of-buffers","D06","a buffer kept by the application while 64 more of about the same size are delivered",
  "Delivered buffers come from a ring and are used again.",
  [(RT,"		data := make([]byte, rtpParser.payloadLen)\n		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])\n		rtpParser.payloadLen = 0\n		return data, naluSize","		data := rtpParser.ring[rtpParser.turn%64]\n		if cap(data) < rtpParser.payloadLen {\n			data = make([]byte, rtpParser.payloadLen)\n			rtpParser.ring[rtpParser.turn%64] = data\n		}\n		rtpParser.turn++\n		data = data[:rtpParser.payloadLen]\n		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])\n		rtpParser.payloadLen = 0\n		return data, naluSize"),
   (RT,"	isMarkFrame      bool\n","	isMarkFrame      bool\n	ring             [64][]byte\n	turn             int\n")],
 M+'''func main() {
	var f, want [][]byte
	for i := 0; i < 100; i++ {
		f = append(f, frame(0, rtp(i, true, fill(9, byte(i)))))
		want = append(want, fill(9, byte(i)))
	}
	p := media([]string{"X1"}, f, 100)
	check(same(p.frames(), want), "delivered %s", sizes(p.frames()))
}
''')
B("C01-websocket-close","C01","closing a WebSocket session while a message is being received",
  "Closing drops what the reading goroutine has not used yet.",
  [(WS,"func (conn *WebsocketConn) Close() error {\n","func (conn *WebsocketConn) Close() error {\n	conn.pending = nil\n")],
 "WS_RACE","-race")
B("C01-default-dialer","C01","two sessions that connect over WebSocket at the same time",
  "The settings of the dialer all sessions share are changed by each of them.",
  [(CL,"	websocketConn, _, err := websocket.DefaultDialer.Dial(webURL, nil)","	websocket.DefaultDialer.HandshakeTimeout = time.Duration(session.timeoutSec) * time.Second\n	websocketConn, _, err := websocket.DefaultDialer.Dial(webURL, nil)")],
 M+'''import "sync"

func main() {
	l := listen()
	addr := l.Addr().String()
	l.Close()
	var w sync.WaitGroup
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func() { defer w.Done(); newPlayer().PlayUseWebsocket("ws://"+addr+"/", "rtsp://h/x") }()
	}
	w.Wait()
}
''',"-race")
B("S01-one-address","S01","connection data with an address count of 1",
  "An address count of 1 is left out as the default.",
  [(FI,"	if c.Addresses > 0 {\n		v = appendRune(v, '/')","	if c.Addresses > 1 {\n		v = appendRune(v, '/')")],
 M+'''import (
	"net"

	"github.com/NodeBoy2/rtspclient/sdp"
)

func main() {
	s := sdp.Session{}.AddConnectionData(sdp.ConnectionData{IP: net.IPv4(224, 1, 2, 3), TTL: 5, Addresses: 1})
	check(string(s.AppendTo(nil)) == "c=IN IP4 224.1.2.3/5/1", "%s", s.AppendTo(nil))
}
''')
B("S02-long-line","S02","a line longer than 64 KiB",
  "Lines are read with a scanner that gives up at lines longer than 64 KiB.",
  [(SD,"		newLinePos := bytes.IndexRune(s.v[s.pos:], newLine)\n		s.end = s.pos + newLinePos + 1\n","		rest := s.v[s.pos:]\n		if len(rest) > 64*1024 {\n			rest = rest[:64*1024]\n		}\n		newLinePos := bytes.IndexRune(rest, newLine)\n		s.end = s.pos + newLinePos + 1\n")],
 M+'''import (
	"bytes"

	"github.com/NodeBoy2/rtspclient/sdp"
)

func main() {
	v := bytes.Repeat([]byte{'x'}, 70000)
	s, err := sdp.DecodeSession(append(append([]byte("a="), v...), "\\nb=1\\n"...), nil)
	check(err == nil && len(s) == 2 && bytes.Equal(s[0].Value, v), "%d lines, %v", len(s), err)
}
''')
B("S02-byte-type","S02","a line whose type is a character outside ASCII",
  "Only the first byte of the type is kept.",
  [(SD,"	r, _ := utf8.DecodeRune(b[:delimiter])\n","	r := rune(0)\n	if delimiter > 0 {\n		r = rune(b[0])\n	}\n"),(SD,'	"unicode/utf8"\n\n','\n'),
   (SD,"	buf := make([]byte, 4)\n	n := utf8.EncodeRune(buf, r)\n	b = append(b, buf[:n]...)\n	return b","	return append(b, string(r)...)")],
 M+'''import "github.com/NodeBoy2/rtspclient/sdp"

func main() {
	s, err := sdp.DecodeSession([]byte("\\u00e9=x\\n"), nil)
	check(err == nil && len(s) == 1 && s[0].Type == '\\u00e9', "%v %v", s, err)
}
''')
B("S04-ntp-32-bit","S04","NTP times beyond 2036",
  "NTP times are read as 32 bit numbers.",
  [(DE,"	return strconv.ParseUint(string(v), 10, 64)","	n, err := strconv.ParseUint(string(v), 10, 64)\n	if err == nil && n>>40 == 0 {\n		n &= 0xffffffff\n	}\n	return n, err")],
 M+'''import "github.com/NodeBoy2/rtspclient/sdp"

func main() {
	s := sdp.Session{}.AddTimingNTP(4294967300, 5000000000)
	var m sdp.Message
	d := sdp.NewDecoder(s)
	check(d.Decode(&m) == nil && sdp.TimeToNTP(m.Start()) == 4294967300, "%v", m.Timing)
}
''')
B("S06-inherit-connection","S06","a media without connection line in a description that has one",
  "A media without connection data gets that of the session.",
  [(DE,"	m.Medias = append(m.Medias, d.m)\n","	if d.m.Connection.Blank() {\n		d.m.Connection = m.Connection\n	}\n	m.Medias = append(m.Medias, d.m)\n")],
 M+'''import "github.com/NodeBoy2/rtspclient/sdp"

func main() {
	s, _ := sdp.DecodeSession([]byte("v=0\\no=- 1 1 IN IP4 h\\ns=x\\nc=IN IP4 1.2.3.4\\nt=0 0\\nm=audio 1 RTP/AVP 0\\n"), nil)
	var m sdp.Message
	d := sdp.NewDecoder(s)
	check(d.Decode(&m) == nil && m.Medias[0].Connection.Blank(), "%+v", m.Medias)
}
''')
B("S07-version-prefix","S07","a version with trailing characters",
  "Only the leading digits of the version are looked at.",
  [(DE,"	n, err := strconv.Atoi(string(d.v))\n","	var n int\n	_, err := fmt.Sscanf(string(d.v), \"%d\", &n)\n")],
 M+'''import "github.com/NodeBoy2/rtspclient/sdp"

func main() {
	s, _ := sdp.DecodeSession([]byte("v=0x\\no=- 1 1 IN IP4 h\\ns=x\\nt=0 0\\n"), nil)
	var m sdp.Message
	d := sdp.NewDecoder(s)
	check(d.Decode(&m) != nil, "accepted")
}
''')
B("S07-odd-zones","S07","a time zone line with an odd number of fields",
  "A time zone without offset at the end of the line is ignored.",
  [(DE,"	if len(p)%2 != 0 {","	if len(p) == 1 {"),(DE,"	for i := 0; i < len(p); i += 2 {","	for i := 0; i+1 < len(p); i += 2 {")],
 M+'''import "github.com/NodeBoy2/rtspclient/sdp"

func main() {
	s, _ := sdp.DecodeSession([]byte("v=0\\no=- 1 1 IN IP4 h\\ns=x\\nt=0 0\\nz=1 2 3\\n"), nil)
	var m sdp.Message
	d := sdp.NewDecoder(s)
	check(d.Decode(&m) != nil, "accepted")
}
''')
B("R01-username-only","R01","a 401 answer when the URL carries a username but no password",
  "DESCRIBE is repeated although there is no password.",
  [(CL,"	if 401 == response.Status && session.username != \"\" && session.password != \"\" {","	if 401 == response.Status && session.username != \"\" {")],
 M+'''import "strings"

func main() {
	n := make(chan int, 1)
	url, l := serve(func(p *peer) {
		k := 0
		for {
			q := p.request()
			if q == nil {
				n <- k
				return
			}
			k++
			p.reply(q, 401, "WWW-Authenticate: Basic realm=\\"r\\"\\r\\n", "")
		}
	})
	defer l.Close()
	p := newPlayer()
	p.Play(strings.Replace(url, "rtsp://", "rtsp://user@", 1) + "/x")
	p.Close()
	k := <-n
	check(k == 2, "%d requests (DESCRIBE and TEARDOWN expected)", k)
}
''')
B("R02-refused-play-url","R02","a Play call that is refused because the session is connected",
  "The refused call changes the URL of the running session.",
  [(CL,"func (session *RtspClientSession) Play(rtspURL string) error {\n\n	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {\n		return errors.New(\"session is connected\")\n	}\n\n	urlError := session.ParsingURL(rtspURL)\n	if nil != urlError {\n		return errors.New(\"url parse error: \" + rtspURL)\n	}\n","func (session *RtspClientSession) Play(rtspURL string) error {\n\n	urlError := session.ParsingURL(rtspURL)\n	if nil != urlError {\n		return errors.New(\"url parse error: \" + rtspURL)\n	}\n\n	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {\n		return errors.New(\"session is connected\")\n	}\n")],
 M+'''func main() {
	seen := make(chan *request, 1)
	url, l := serve(func(p *peer) {
		if p.accept(sdpOf("X1"), "1") {
			seen <- p.request()
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	check(p.Play(url+"/other") != nil, "second play accepted")
	p.SendPause()
	q := <-seen
	check(q.url == url+"/x", "PAUSE goes to %s", q.url)
}
''')
B("R03-start-float","R03","a start time that a 32 bit floating point number cannot hold",
  "Start times go through a floating point number.",
  [(RQ,"		strStartTime = fmt.Sprintf(\"Range: npt=%d.0-\\r\\n\", inStartTimeSec)","		strStartTime = fmt.Sprintf(\"Range: npt=%.1f-\\r\\n\", float32(inStartTimeSec))")],
 M+'''func main() {
	seen := make(chan *request, 1)
	url, l := serve(func(p *peer) {
		if p.accept(sdpOf("X1"), "1") {
			seen <- p.request()
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	p.SendPlay(1700000001, 1)
	q := <-seen
	check(q.header["range"] == "npt=1700000001.0-", "%s", q.header["range"])
}
''')
B("R04-realm-in-format","R04","a Digest realm with a percent sign",
  "The realm is made part of a format string.",
  [(AU,"		authenticatorString = \"Authorization: Digest username=\\\"%s\\\", realm=\\\"%s\\\", nonce=","		authenticatorString = \"Authorization: Digest username=\\\"%s\\\", realm=\\\"\" + authenticator.realm + \"\\\", nonce="),
   (AU,"quotedString.Replace(authenticator.username), authenticator.realm, ","quotedString.Replace(authenticator.username), ")],
 M+'''import "strings"

func main() {
	seen := make(chan *request, 1)
	url, l := serve(func(p *peer) {
		q := p.request()
		p.reply(q, 401, "WWW-Authenticate: Digest realm=\\"50% off\\", nonce=\\"n\\"\\r\\n", "")
		seen <- p.request()
	})
	defer l.Close()
	p := newPlayer()
	p.Play(strings.Replace(url, "rtsp://", "rtsp://u:p@", 1) + "/x")
	q := <-seen
	check(strings.Contains(q.header["authorization"], "realm=\\"50% off\\""), "%s", q.header["authorization"])
}
''')
B("R06-session-prefix","R06","a response with another header whose name starts with Session",
  "Every header whose name starts with Session is taken for the session id.",
  [(RP,"theKey == strings.ToUpper(sSessionHeader)","strings.HasPrefix(theKey, strings.ToUpper(sSessionHeader))")],
 M+'''func main() {
	seen := make(chan *request, 1)
	url, l := serve(func(p *peer) {
		q := p.request()
		p.reply(q, 200, "", sdpOf("X1"))
		q = p.request()
		p.reply(q, 200, "Session: abc\\r\\nSession-Group: 7\\r\\n", "")
		seen <- p.request()
	})
	defer l.Close()
	p := newPlayer()
	p.Play(url + "/x")
	q := <-seen
	check(q.header["session"] == "abc", "%s", q.header["session"])
}
''')
B("H01-rtcp-stats","H01","a frame of 12 to 15 bytes on an RTCP channel",
  "Frames on RTCP channels are read as sender reports without looking at their length.",
  [(CL,"	// rtp data\n	channelNum","	if 1 == header[1]%2 && rtpData[1] == 200 {\n		log.Printf(\"sender report, time %d\", binary.BigEndian.Uint32(rtpData[12:16]))\n	}\n	// rtp data\n	channelNum")],
 M+'''func main() {
	sr := make([]byte, 12)
	sr[0], sr[1] = 0x80, 200
	p := media([]string{"X1"}, [][]byte{frame(1, sr), frame(0, rtp(2, true, fill(9, 2)))}, 1)
	check(len(p.frames()) == 1, "delivered %s", sizes(p.frames()))
}
''')
B("L03-url-kept","L03","playing a session again with another path on the same server",
  "The path of the first URL is used for later connections to the same server.",
  [(CL,"	session.rtspContext.rtspURL = urlInfo.String()\n","	if old, err := url.Parse(session.rtspContext.rtspURL); nil != err || old.Host != urlInfo.Host {\n		session.rtspContext.rtspURL = urlInfo.String()\n	}\n"),
   (CL,"	if \"\" != urlInfo.RawQuery {\n		session.rtspContext.rtspURL += (\"?\" + urlInfo.RawQuery)\n	}\n","")],
 M+'''func main() {
	seen := make(chan *request, 2)
	url, l := serve(func(p *peer) {
		seen <- p.request()
	})
	defer l.Close()
	p := newPlayer()
	p.Play(url + "/a")
	<-seen
	p.Close()
	p.Play(url + "/b")
	q := <-seen
	check(q.url == url+"/b", "%s", q.url)
}
''')
