from bugs1 import *
H264="h264rtpparser.go"; HEVC="hevcrtpparser.go"; RT="rtpparser.go"; WS="websocketconn.go"; MK="markrtpparser.go"; SI="simplertpparser.go"

B("L04-send-routine-leaks","L04","a connection that ends while nothing is queued for sending",
  "The send routine waits for a message only, so it never ends when the peer closes.",
  [(TCP,"		connection.setStatus(ConnStatusDisconnected)\n		close(connection.quit)\n","		connection.setStatus(ConnStatusDisconnected)\n		if 0 != len(connection.sendMsgQueue) {\n			close(connection.quit)\n		}\n")] , '''package main

import (
	"runtime"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func main() {
	url, l := serve(func(p *peer) { p.accept(sdpOf("X1"), "1") })
	time.Sleep(50 * time.Millisecond)
	before := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		p := newPlayer()
		p.Play(url + "/x")
		wait(3*time.Second, func() bool { return p.count(rtspclient.RtspEventDisconnected) == 1 })
	}
	l.Close()
	check(wait(8*time.Second, func() bool { return runtime.NumGoroutine() < before+5 }), "%d goroutines, %d before", runtime.NumGoroutine(), before)
}
''')
B("H01-fu-header","H01","an FU-A packet that consists of the FU indicator only",
  "The FU header is read without looking whether it is there.",
  [(H264,"			startBit := rtpData[1] & 0x80\n			endBit := rtpData[1] & 0x40","			fuHeader := rtpData[:2][1]\n			startBit := fuHeader & 0x80\n			endBit := fuHeader & 0x40"),
   (H264,"			if len(rtpData) < 2 {\n				return false, src[:RtpHeaderLen], nil\n			}\n			// For these","			// For these")], '''package main

func main() {
	p := media([]string{"H264"}, [][]byte{frame(0, rtp(1, false, []byte{0x7c})), frame(0, rtp(2, true, []byte{0x65, 1}))}, 1)
	check(same(p.frames(), [][]byte{{0x65, 1}}), "delivered %s", sizes(p.frames()))
}
''')
B("H01-negative-content-length","H01","a response with a negative Content-Length",
  "A negative length is used to slice the response.",
  [(RP,"			context.contentLength, _ = strconv.Atoi(theValue)\n			if context.contentLength < 0 {\n				context.contentLength = 0\n			}\n","			context.contentLength, _ = strconv.Atoi(theValue)\n")], '''package main

import "github.com/NodeBoy2/rtspclient"

func main() {
	c := &rtspclient.RtspResponseContext{}
	rtspclient.ParserRtspResponse([]byte("RTSP/1.0 200 OK\\r\\nContent-Length: -5\\r\\n\\r\\n"), c)
}
''')
B("H01-authenticate-field","H01","a challenge whose parameter is an unfinished quoted string",
  "The realm of a challenge is cut at its quotes without looking whether they are there.",
  [(RP,"	// <type> name=value, name=\"value\", ...\n	rest := strings.TrimSpace(authenticateValue)","	// <type> name=value, name=\"value\", ...\n	rest := strings.TrimSpace(authenticateValue)\n	if realmPos := strings.Index(rest, \"realm=\\\"\"); realmPos != -1 {\n		realmPos += len(\"realm=\\\"\")\n		realm = rest[realmPos : realmPos+strings.Index(rest[realmPos:], \"\\\"\")]\n	}")], '''package main

import "github.com/NodeBoy2/rtspclient"

func main() {
	c := &rtspclient.RtspResponseContext{}
	rtspclient.ParserRtspResponse([]byte("RTSP/1.0 401 X\\r\\nWWW-Authenticate: Digest realm=\\"abc\\r\\n\\r\\n"), c)
}
''')
B("H01-rtpmap-empty","H01","a media line with a dynamic format and an rtpmap of fewer than two fields",
  "The fields of an rtpmap are used without counting them.",
  [(SP,"	fmt.Sscanf(sdpRtpmap, \"%d %s %d %d\", &payloadFormat, &codecName, &timestampFrequency, &channels)","	fields := strings.Fields(sdpRtpmap)\n	codecName = fields[1]\n	if len(fields) > 2 {\n		fmt.Sscanf(strings.Join(fields[2:], \" \"), \"%d %d\", &timestampFrequency, &channels)\n	}"),
   (SP,"	var payloadFormat int\n	var codecName string\n	timestampFrequency := -1","	var codecName string\n	timestampFrequency := -1")], '''package main

func main() {
	sdp := "v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\na=rtpmap:96\\r\\na=control:t\\r\\n"
	url, l := serve(func(p *peer) {
		p.accept(sdp, "1")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	p.Play(url + "/x")
	p.Close()
}
''')
B("C01-status-plain","C01","any use of a connection by two goroutines while it ends",
  "The connection status is written without synchronisation.",
  [(TCP,"	atomic.StoreInt32(&connection.status, int32(status))","	connection.status = int32(status)")], '''package main

'''+CONN_IMPORT+'''
func main() {
	ended := make(chan bool, 1)
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventDisconnected {
			ended <- true
		}
	})
	conn.Run()
	go func() {
		time.Sleep(50 * time.Millisecond)
		srv.Close()
	}()
	for conn.GetStatus() == tcpnetwork.ConnStatusConnected {
		time.Sleep(time.Millisecond)
	}
	<-ended
}
''', flags="-race")
B("C01-channel-lock","C01","media that arrives on an already set up track while the next track is being set up",
  "The table of channels is read without its lock.",
  [(CL,"	session.rtpChannelLock.Lock()\n	rtpParser, ok := rtpChannelMap[channelNum]\n	session.rtpChannelLock.Unlock()\n	if ok {","	if rtpParser, ok := rtpChannelMap[channelNum]; ok {"),], '''package main

func main() {
	url, l := serve(func(p *peer) {
		for {
			q := p.request()
			if q == nil {
				return
			}
			switch q.method {
			case "DESCRIBE":
				p.reply(q, 200, "", sdpOf("X1", "X2", "X3"))
			case "SETUP":
				p.reply(q, 200, "Session: 1\\r\\n", "")
				for i := 0; i < 50; i++ {
					p.send(frame(0, rtp(i, true, fill(10, 1))))
				}
			default:
				p.reply(q, 200, "", "")
			}
		}
	})
	defer l.Close()
	for i := 0; i < 5; i++ {
		p := newPlayer()
		p.Play(url + "/x")
		p.Close()
	}
}
''', flags="-race")
B("C01-stats","C01","a call that waits for a response while media arrives",
  "The time of the last packet is written by the receiving goroutine and read by the caller without synchronisation.",
  [(CL,"	channelNum := int(header[1])\n","	channelNum := int(header[1])\n	session.lastPacket = time.Now()\n"),
   (CL,"	RtpMediaMap        map[int]MediaSubsession\n}","	RtpMediaMap        map[int]MediaSubsession\n	lastPacket         time.Time\n}"),
   (CL,"	case <-time.After(time.Duration(session.timeoutSec) * time.Second):\n		{\n","	case <-time.After(time.Duration(session.timeoutSec) * time.Second):\n		{\n			log.Println(\"last packet: \", session.lastPacket)\n")], '''package main

func main() {
	url, l := serve(func(p *peer) {
		p.accept(sdpOf("X1"), "1")
		for i := 0; i < 3000; i++ {
			if p.send(frame(0, rtp(i, true, fill(10, 1)))) != nil {
				return
			}
			if i%100 == 0 {
				wait(100000000, func() bool { return false })
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	p.Play(url + "/x")
	p.SendPause()
	p.WaitRtspResponse()
}
''', flags="-race")
B("D01-forbidden-bit","D01","an FU-A fragmented NAL unit whose forbidden_zero_bit is set",
  "The first bit of the NAL header is lost when it is rebuilt from fragments.",
  [(H264,"rtpData[1] = (rtpData[0] & 0xe0) | (rtpData[1] & 0x1f)","rtpData[1] = (rtpData[0] & 0x60) | (rtpData[1] & 0x1f)")], '''package main

func main() {
	p := media([]string{"H264"}, [][]byte{frame(0, rtp(1, false, []byte{0xfc, 0x85, 1, 2})), frame(0, rtp(2, true, []byte{0xfc, 0x45, 3}))}, 1)
	check(same(p.frames(), [][]byte{{0xe5, 1, 2, 3}}), "delivered %s", sizes(p.frames()))
}
''')
B("D01-stap-large","D01","a STAP-A packet with a NAL unit of 256 bytes or more",
  "Only the low byte of the size of an aggregated NAL unit is used.",
  [(H264,"	naluSize = int(payload[0])<<8 | int(payload[1])","	naluSize = int(payload[0]<<8 | payload[1])")], '''package main

func main() {
	a, b := append([]byte{0x67}, fill(300, 1)...), []byte{0x68, 1, 2}
	pk := []byte{0x78, byte(len(a) >> 8), byte(len(a))}
	pk = append(append(append(pk, a...), 0, byte(len(b))), b...)
	p := media([]string{"H264"}, [][]byte{frame(0, rtp(1, true, pk))}, 2)
	check(same(p.frames(), [][]byte{a, b}), "delivered %s", sizes(p.frames()))
}
''')
B("D01-marker-completes","D01","an FU-A whose last fragment does not carry the marker bit (more slices of the picture follow), or a middle one that does",
  "A fragmented NAL unit is complete when the marker bit is set.",
  [(H264,"			isCompletesFrame = (endBit != 0)","			isCompletesFrame = (endBit != 0 && src[1]&0x80 != 0)")], '''package main

func main() {
	p := media([]string{"H264"}, [][]byte{frame(0, rtp(1, false, []byte{0x7c, 0x85, 1, 2})), frame(0, rtp(2, false, []byte{0x7c, 0x45, 3})), frame(0, rtp(3, true, []byte{0x61, 7}))}, 2)
	check(same(p.frames(), [][]byte{{0x65, 1, 2, 3}, {0x61, 7}}), "delivered %s", sizes(p.frames()))
}
''')
B("D01-buffer-1m","D01","a NAL unit larger than 1 MiB",
  "NAL units are cut at 1 MiB.",
  [(RT,"	MaxPayloadLength = 8 * 1024 * 1024","	MaxPayloadLength = 1024 * 1024")], '''package main

func main() {
	nal := append([]byte{0x65}, fill(1200000, 3)...)
	var fr [][]byte
	for i, seq := 1, 0; i < len(nal); seq++ {
		n := 60000
		h := byte(5)
		if i == 1 {
			h |= 0x80
		}
		if i+n >= len(nal) {
			n = len(nal) - i
			h |= 0x40
		}
		fr = append(fr, frame(0, rtp(seq, h&0x40 != 0, append([]byte{0x7c, h}, nal[i:i+n]...))))
		i += n
	}
	p := media([]string{"H264"}, fr, 1)
	check(same(p.frames(), [][]byte{nal}), "delivered %s", sizes(p.frames()))
}
''')
B("D02-layer-id","D02","a fragmented H.265 NAL unit with a layer id of 32 or more",
  "The highest bit of the layer id is lost when the NAL header is rebuilt.",
  [(HEVC,"(rtpData[0] & 0x81)","(rtpData[0] & 0x80)")], '''package main

func main() {
	p := media([]string{"H265"}, [][]byte{frame(0, rtp(1, false, []byte{49<<1 | 1, 0x09, 0x80 | 19, 1, 2})), frame(0, rtp(2, true, []byte{49<<1 | 1, 0x09, 0x40 | 19, 3}))}, 1)
	check(same(p.frames(), [][]byte{{19<<1 | 1, 0x09, 1, 2, 3}}), "delivered %s", sizes(p.frames()))
}
''')
B("D02-type-mask","D02","a fragmented NAL unit of a type of 32 or more (parameter sets, SEI)",
  "Five bits are kept of the six bit type of a fragmented NAL unit.",
  [(HEVC,"			nalUnitType := rtpData[2] & 0x3F","			nalUnitType := rtpData[2] & 0x1F")], '''package main

func main() {
	p := media([]string{"H265"}, [][]byte{frame(0, rtp(1, false, []byte{49 << 1, 0x01, 0x80 | 34, 1, 2})), frame(0, rtp(2, true, []byte{49 << 1, 0x01, 0x40 | 34, 3}))}, 1)
	check(same(p.frames(), [][]byte{{34 << 1, 0x01, 1, 2, 3}}), "delivered %s", sizes(p.frames()))
}
''')
B("D02-ap-first-only","D02","an aggregation packet whose inner NAL unit is of a type the header looks like... with three or more units",
  "The size of the second aggregated unit on is read with its bytes exchanged when it exceeds 255.",
  [(HEVC,"			naluSize = int(payload[0])<<8 | int(payload[1])","			naluSize = int(payload[1])\n			if len(payload) > naluSize+2 {\n				naluSize |= int(payload[0]) << 8\n			}")], '''package main

func main() {
	a := append([]byte{0x40, 1}, fill(600, 1)...)
	a = a[:256]
	pk := append([]byte{48 << 1, 1, 1, 0}, a...)
	p := media([]string{"H265"}, [][]byte{frame(0, rtp(1, true, pk))}, 1)
	b := append([]byte{0x40, 1}, fill(600, 1)...)[:511]
	pk2 := append([]byte{48 << 1, 1, 1, 255}, b...)
	p2 := media([]string{"H265"}, [][]byte{frame(0, rtp(1, true, pk2))}, 1)
	check(same(p.frames(), [][]byte{a}) && same(p2.frames(), [][]byte{b}), "delivered %s and %s", sizes(p.frames()), sizes(p2.frames()))
}
''')
B("D03-empty-marked","D03","a 'bbw' frame whose last packet carries the marker but no payload",
  "A packet without payload is dropped before its marker is looked at.",
  [(CL,"		header, payload := rtpParser.splitRtpPacket(rtpData)\n","		header, payload := rtpParser.splitRtpPacket(rtpData)\n		if 0 == len(payload) {\n			return\n		}\n")], '''package main

func main() {
	p := media([]string{"bbw"}, [][]byte{frame(0, rtp(1, false, fill(10, 1))), frame(0, rtp(2, true, nil)), frame(0, rtp(3, true, fill(5, 2)))}, 2)
	check(same(p.frames(), [][]byte{fill(10, 1), fill(5, 2)}), "delivered %s", sizes(p.frames()))
}
''')
B("D03-mark-payload-type","D03","a 'bbw' packet without marker whose payload type is 127",
  "The marker is taken from the second byte as a whole.",
  [(MK,"	mark := ((src[1] & 0x80) >> 7)\n	isCompletesFrame = (mark == 1)","	isCompletesFrame = (src[1] >= 0x7f)")], '''package main

func main() {
	a := rtp(1, false, fill(10, 1))
	b := rtp(2, true, fill(10, 2))
	a[1] = a[1]&0x80 | 127
	b[1] = b[1]&0x80 | 127
	p := media([]string{"bbw"}, [][]byte{frame(0, a), frame(0, b)}, 1)
	check(same(p.frames(), [][]byte{append(fill(10, 1), fill(10, 2)...)}), "delivered %s", sizes(p.frames()))
}
''')
B("D04-signed-channel","D04","a description with more than 64 medias, or channel numbers of 128 and more",
  "The channel number is read as a signed byte.",
  [(CL,"	channelNum := int(header[1])","	channelNum := int(int8(header[1]))")], '''package main

func main() {
	var codecs []string
	for i := 0; i < 66; i++ {
		codecs = append(codecs, "X")
	}
	done := make(chan bool)
	sdp := sdpOf(codecs...)
	url, l := serve(func(p *peer) {
		p.accept(sdp, "1")
		p.send(frame(130, rtp(1, true, fill(10, 1))))
		p.send(frame(0, rtp(1, true, fill(10, 2))))
		<-done
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err == nil, "play: %v", err)
	wait(3000000000, func() bool { return len(p.frames()) == 2 })
	close(done)
	check(same(p.frames(), [][]byte{fill(10, 1), fill(10, 2)}) && p.data[0].ChannelNum == 130, "delivered %s", sizes(p.frames()))
}
''')
B("D04-duplicate-filter","D04","two tracks whose packets have the same sequence number one after the other",
  "Repeated packets are recognised by their sequence number across all tracks.",
  [(CL,"	rtpData := data[4:]\n\n	if len(rtpData) < RtpHeaderLen {\n		return\n	}\n","	rtpData := data[4:]\n\n	if len(rtpData) < RtpHeaderLen {\n		return\n	}\n	if bytes.Equal(session.lastHeader, rtpData[1:8]) {\n		// sent twice\n		return\n	}\n	session.lastHeader = append([]byte{}, rtpData[1:8]...)\n"),
   (CL,"	RtpMediaMap        map[int]MediaSubsession\n}","	RtpMediaMap        map[int]MediaSubsession\n	lastHeader         []byte\n}")], '''package main

func main() {
	p := media([]string{"X1", "X2"}, [][]byte{frame(0, rtp(1, true, fill(10, 1))), frame(2, rtp(1, true, fill(10, 2)))}, 2)
	check(same(p.frames(), [][]byte{fill(10, 1), fill(10, 2)}), "delivered %s", sizes(p.frames()))
}
''')
B("D05-csrc-count","D05","packets with 8 or more contributing sources",
  "Three bits of the count of contributing sources are used.",
  [(RT,"	isMarkFrame      bool\n}","	isMarkFrame      bool\n	sources          int\n}"),
   (RT,"	start := RtpHeaderLen + int(src[0]&0x0f)*4","	start := RtpHeaderLen + int(src[0]&0x07)*4")], '''package main

func main() {
	a := rtp(1, true, nil)
	a[0] |= 9
	a = append(append(a, make([]byte, 36)...), fill(10, 1)...)
	p := media([]string{"X1"}, [][]byte{frame(0, a)}, 1)
	check(same(p.frames(), [][]byte{fill(10, 1)}), "delivered %s", sizes(p.frames()))
}
''')
B("D06-shared-output","D06","two deliveries of a track, the application keeping the first buffer",
  "Every delivery of a track uses the same output buffer.",
  [(RT,"		data := make([]byte, rtpParser.payloadLen)\n		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])\n		rtpParser.payloadLen = 0\n		return data, naluSize\n	}\n	return nil, naluSize","		data := rtpParser.payloadBuf[:rtpParser.payloadLen:rtpParser.payloadLen]\n		rtpParser.payloadLen = 0\n		return data, naluSize\n	}\n	return nil, naluSize")], '''package main

func main() {
	p := media([]string{"H264"}, [][]byte{frame(0, rtp(1, true, []byte{0x65, 1, 1})), frame(0, rtp(2, true, []byte{0x61, 2, 2}))}, 2)
	check(same(p.frames(), [][]byte{{0x65, 1, 1}, {0x61, 2, 2}}), "kept %s", sizes(p.frames()))
}
''')
B("W01-text-message","W01","a server that sends its bytes in text messages",
  "Messages that are not binary are skipped.",
  [(WS,"		_, message, err := conn.conn.ReadMessage()\n		if nil != err {\n			return 0, err\n		}\n		conn.pending = message\n","		messageType, message, err := conn.conn.ReadMessage()\n		if nil != err {\n			return 0, err\n		}\n		if websocket.BinaryMessage == messageType {\n			conn.pending = message\n		}\n"),
   (WS,"type WebsocketConn struct {\n	conn ","type WebsocketConn struct {\n	// conn carries binary messages\n	conn ")], "WS_TEXT")
B("W01-write-chunks","W01","a request longer than 1024 bytes (long URL)",
  "Requests are sent in one message at most, the rest is dropped.",
  [(WS,"	err := conn.conn.WriteMessage(websocket.BinaryMessage, b)\n","	message := b\n	if len(message) > 1024 {\n		message = message[:1024]\n	}\n	err := conn.conn.WriteMessage(websocket.BinaryMessage, message)\n")], "WS_LONG")

SDPMAIN='''package main

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"
)

var _ = fmt.Sprint
var _ = bytes.Equal
var _ net.IP
var _ time.Duration
var _ = reflect.DeepEqual

const head = "v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\n"

func decode(s string) (*sdp.Message, error) {
	lines, err := sdp.DecodeSession([]byte(s), nil)
	if err != nil {
		return nil, err
	}
	d := sdp.NewDecoder(lines)
	m := &sdp.Message{}
	return m, d.Decode(m)
}

func encode(m *sdp.Message) string { return string(m.Append(nil).AppendTo(nil)) }

'''
B("S01-ttl-lost","S01","connection data with a TTL of 100 or more together with an address count",
  "The TTL is written with two digits at most.",
  [(FI,"		v = appendByte(v, c.TTL)\n","		v = appendByte(v, c.TTL%100)\n")], SDPMAIN+'''func main() {
	m := &sdp.Message{Name: "x", Origin: sdp.Origin{Username: "-", Address: "127.0.0.1"}, Connection: sdp.ConnectionData{IP: net.IPv4(224, 2, 1, 1), TTL: 127, Addresses: 3}}
	g, err := decode(encode(m))
	check(err == nil && g.Connection.TTL == 127 && g.Connection.Addresses == 3, "%v %+v", err, g.Connection)
}
''')
B("S01-media-bandwidth","S01","a message with bandwidths in a media",
  "Media bandwidths are decoded into the session when the session has some of its own.",
  [(DE,"	if d.section == sectionMedia {\n		if d.m.Bandwidths == nil {","	if d.section == sectionMedia && m.Bandwidths == nil {\n		if d.m.Bandwidths == nil {")], SDPMAIN+'''func main() {
	m, err := decode(head + "b=AS:10\\r\\nt=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\nb=AS:20\\r\\n")
	check(err == nil && m.Bandwidths["AS"] == 10 && m.Medias[0].Bandwidths["AS"] == 20, "%v %+v", err, m)
}
''')
B("S01-repeat-multi-timing","S01","several time descriptions of which a later one repeats",
  "Only the first offset of its repeat line is kept.",
  [(DE,"		t.Offsets = append(t.Offsets, dd)\n","		if i == 0 || len(m.Timing) == 1 {\n			t.Offsets = append(t.Offsets, dd)\n		}\n")], SDPMAIN+'''func main() {
	m, err := decode(head + "t=1 2\\r\\nt=3 4\\r\\nr=7d 1h 0 25h\\r\\n")
	check(err == nil && len(m.Timing) == 2 && m.Timing[0].Repeat == 0 && len(m.Timing[1].Offsets) == 2 && m.Timing[1].Repeat == 7*24*time.Hour, "%v %+v", err, m.Timing)
}
''')
B("S01-ports-number","S01","a media line with a number of ports",
  "The number of ports is left out.",
  [(FI,"	if m.PortsNumber != 0 {","	if m.PortsNumber > 2 {")], SDPMAIN+'''func main() {
	m := &sdp.Message{Name: "x", Origin: sdp.Origin{Username: "-", Address: "127.0.0.1"}, Medias: sdp.Medias{{Description: sdp.MediaDescription{Type: "video", Port: 4, PortsNumber: 2, Protocol: "RTP/AVP", Format: "96"}}}}
	g, err := decode(encode(m))
	check(err == nil && g.Medias[0].Description.PortsNumber == 2, "%v %+v", err, g.Medias)
}
''')
B("S01-ipv6-zone","S01","an IPv6 connection address written without a dot in an origin whose address type is not given",
  "IPv6 origins get the address type of IPv4 when their address contains a dot (IPv4-mapped).",
  [(FI,"	for _, s := range addr {\n		if s == ':' {\n			return addrTypeIPv6\n		}\n		if s == '.' {\n			return addrTypeIPv4\n		}\n	}","	if strings.Contains(addr, \".\") {\n		return addrTypeIPv4\n	}\n	if strings.Contains(addr, \":\") {\n		return addrTypeIPv6\n	}")], SDPMAIN+'''func main() {
	s := sdp.Session{}.AddOrigin(sdp.Origin{Username: "-", Address: "64:ff9b::192.0.2.1"})
	check(string(s.AppendTo(nil)) == "o=- 0 0 IN IP6 64:ff9b::192.0.2.1", "%s", s.AppendTo(nil))
}
''')
B("S02-trailing-space","S02","a session decoded into a reused session",
  "A reused line keeps the end of its earlier, longer value.",
  [(SD,"			line.Value = s[:l+1][l].Value[:0]\n		}\n		if err = line.Decode(scanner.Line()); err != nil {\n			break\n		}\n		s = append(s, line)","			line.Value = s[:l+1][l].Value[:0]\n		}\n		old := s[:cap(s)]\n		if err = line.Decode(scanner.Line()); err != nil {\n			break\n		}\n		if l < len(old) && len(old[l].Value) > 0 && old[l].Type == line.Type && bytes.HasPrefix(old[l].Value, line.Value) {\n			// the same line as before\n			line.Value = old[l].Value\n		}\n		s = append(s, line)")], SDPMAIN+'''func main() {
	a, err := sdp.DecodeSession([]byte("s=abcdef\\na=xy\\nb=3\\nc=4\\n"), nil)
	check(err == nil, "%v", err)
	b, err := sdp.DecodeSession([]byte("s=abc\\na=x\\n"), a[:0])
	check(err == nil && string(b.AppendTo(nil)) == "s=abc\\na=x", "%q", b.AppendTo(nil))
}
''')
B("S02-getline-alias","S02","a session that is extended twice from the same prefix",
  "Lines are appended without being copied (value slices are shared).",
  [(SD,"func (s Session) append(t Type, v []byte) Session {\n	line := s.getLine(t)\n	line.Value = append(line.Value, v...)\n","func (s Session) append(t Type, v []byte) Session {\n	line := s.getLine(t)\n	if n := len(s); n > 0 && cap(s[n-1].Value)-len(s[n-1].Value) >= len(v) {\n		// room behind the previous line\n		line.Value = s[n-1].Value[len(s[n-1].Value):]\n	}\n	line.Value = append(line.Value, v...)\n")], SDPMAIN+'''func main() {
	s := sdp.Session{}
	s = s.AddSessionName("name of the session")
	s = s.AddAttribute("abc", "def")
	s = s.AddAttribute("ghi", "j")
	s = s.AddTimingNTP(0, 0)
	s = s.AddAttribute("k", "l")
	want := "s=name of the session\\na=abc:def\\na=ghi:j\\nt=0 0\\na=k:l"
	check(string(s.AppendTo(nil)) == want, "%q", s.AppendTo(nil))
	base := sdp.Session{}.AddAttribute("abc", "def").AddAttribute("k", "l")
	x := base.AddAttribute("first", "1")
	_ = x
	y := append(sdp.Session{}, base...).AddAttribute("other", "2")
	check(string(x.AppendTo(nil)) == "a=abc:def\\na=k:l\\na=first:1", "%q after %q", x.AppendTo(nil), y.AppendTo(nil))
}
''')
B("S02-nonbreaking-space","S02","a value whose last byte, taken on its own, is a Latin-1 space (for example a UTF-8 text that ends in byte 0x85 or 0xA0)",
  "Surrounding white space is recognised byte by byte.",
  [(SD,"		s.line = bytes.TrimSpace(s.v[s.pos:s.end])","		s.line = bytes.TrimFunc(s.v[s.pos:s.end], func(r rune) bool {\n			return r <= ' ' || r == 0x85 || r == 0xa0\n		})")], SDPMAIN+'''func main() {
	l, err := sdp.DecodeSession([]byte("s=abc\\x01\\na=x\\n"), nil)
	check(err == nil && string(l[0].Value) == "abc\\x01", "%q %v", l.AppendTo(nil), err)
}
''')
B("S03-format-aliases","S03","a decoded description whose input is overwritten afterwards",
  "A field of the media refers to the decoded bytes instead of a copy.",
  [(DE,"	if err = decodeString(p[0], &desc.Type); err != nil {","	if err = decodeString(d.v[:len(p[0])], &desc.Type); err != nil {")], SDPMAIN+'''func main() {
	l, _ := sdp.DecodeSession([]byte(head+"t=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\n"), nil)
	d := sdp.NewDecoder(l)
	m := &sdp.Message{}
	check(d.Decode(m) == nil, "decode")
	for i := range l {
		for j := range l[i].Value {
			l[i].Value[j] = 'X'
		}
	}
	check(m.Medias[0].Description.Type == "video", "%q", m.Medias[0].Description.Type)
}
''')
B("S03-name-trim","S03","an attribute value with a trailing comma... any decode that changes the lines it reads",
  "Decoding an origin writes into the line it decodes.",
  [(DE,"	p, err := d.subfields()\n	if err != nil {\n		return errors.Wrap(err, \"failed to decode origin\")\n	}","	for i, v := range d.v {\n		if v == '\\t' {\n			d.v[i] = fieldsDelimiter\n		}\n	}\n	p, err := d.subfields()\n	if err != nil {\n		return errors.Wrap(err, \"failed to decode origin\")\n	}")], SDPMAIN+'''func main() {
	l, err := sdp.DecodeSession([]byte("v=0\\no=a\\t1 1 IN IP4 h x\\ns=x\\nt=0 0\\n"), nil)
	check(err == nil, "%v", err)
	before := string(l.AppendTo(nil))
	d := sdp.NewDecoder(l)
	d.Decode(&sdp.Message{})
	check(string(l.AppendTo(nil)) == before, "the lines are now %q", l.AppendTo(nil))
}
''')
B("S04-compact-hours","S04","a repeat interval that is a multiple of an hour and longer than a day but not a multiple of a day",
  "Hours are written modulo a day.",
  [(FI,"	v = appendInt(v, int(b/u.d))\n","	if u.r == 'h' {\n		b %= 24 * time.Hour\n	}\n	v = appendInt(v, int(b/u.d))\n")], SDPMAIN+'''func main() {
	s := sdp.Session{}.AddRepeatTimesCompact(25*time.Hour, time.Hour, 0)
	check(string(s.AppendTo(nil)) == "r=25h 1h 0", "%s", s.AppendTo(nil))
}
''')
B("S04-ntp-1900","S04","an NTP time before 1970",
  "Times before 1970 are converted to the zero time.",
  [(FI,"	if t.IsZero() {\n		return 0\n	}","	if t.IsZero() || t.Unix() < 0 {\n		return 0\n	}")], SDPMAIN+'''func main() {
	for _, v := range []uint64{1, 2208988799, 2208988800, 3900000000} {
		check(sdp.TimeToNTP(sdp.NTPToTime(v)) == v, "%d -> %d", v, sdp.TimeToNTP(sdp.NTPToTime(v)))
	}
}
''')
B("S04-negative-offset","S04","a time zone offset below zero in compact form",
  "The sign of compact intervals is lost.",
  [(DE,"	*v = time.Duration(val) * unit\n","	if !noUnitSpecified && val < 0 {\n		val = -val\n	}\n	*v = time.Duration(val) * unit\n")], SDPMAIN+'''func main() {
	m, err := decode(head + "t=0 0\\r\\nz=2882844526 -1h 2898848070 0\\r\\n")
	check(err == nil && m.TZAdjustments[0].Offset == -time.Hour, "%v %+v", err, m.TZAdjustments)
}
''')
B("S05-fmtp-value","S05","a format parameter whose value contains = (base64 parameter sets)",
  "Format parameter values are cut at their first =.",
  [(SP,"			index := strings.Index(fieldTemp, \"=\")\n			if index == -1 {\n				fmtParame[fieldTemp] = \"\"\n			} else {\n				fmtParame[fieldTemp[:index]] = fieldTemp[index+1:]\n			}","			parts := strings.Split(fieldTemp, \"=\")\n			if 1 == len(parts) {\n				fmtParame[fieldTemp] = \"\"\n			} else {\n				fmtParame[parts[0]] = parts[1]\n			}")], "SDP5:a=fmtp:96 sprop=Z0IAKeKQ==;packetization-mode=1|m.Fmtp[\"sprop\"] == \"Z0IAKeKQ==\"|RTP/AVP 96")
B("S05-static-l16","S05","a media with the static payload format 10 or 11",
  "The channel counts of the two static L16 formats are exchanged.",
  [(SP,'		return "L16", "audio", 44100, 2\n	case 11:\n		return "L16", "audio", 44100, 1','		return "L16", "audio", 44100, 1\n	case 11:\n		return "L16", "audio", 44100, 2')], "SDP5:a=x|m.Channels == 2 && m.CodecName == \"L16\"|RTP/AVP 10")
B("S05-x-framerate","S05","a description that gives the frame rate with x-framerate",
  "x-framerate is not read.",
  [(SP,'		sdpFramerate = meidaInfo.Attributes.Value("framerate")\n		if "" == sdpFramerate {\n			sdpFramerate = meidaInfo.Attributes.Value("x-framerate")\n		}','		sdpFramerate = meidaInfo.Attributes.Value("framerate")\n		if "" == sdpFramerate && "" == sdpXDimensions {\n			sdpFramerate = meidaInfo.Attributes.Value("x-framerate")\n		}')], "SDP5:a=x-framerate:25\\r\\na=x-dimensions:640,480|m.VideoFramerate == 25 && m.VideoWidth == 640|RTP/AVP 96")
B("S06-title-leaks","S06","a media with a title line",
  "The title of a media also becomes the information of a session that has none.",
  [(DE,"		d.m.Title = string(d.v)\n","		d.m.Title = string(d.v)\n		if len(m.Info) == 0 {\n			m.Info = d.m.Title\n		}\n")], SDPMAIN+'''func main() {
	m, err := decode(head + "t=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\ni=title\\r\\n")
	check(err == nil && m.Info == "" && m.Medias[0].Title == "title", "%v %+v", err, m)
}
''')
B("S06-media-kept","S06","a media without attributes behind one that has some",
  "Attributes of the previous media are kept for one without any.",
  [(DE,"	d.m = Media{}\n","	d.m = Media{Attributes: d.m.Attributes}\n	if len(d.m.Attributes) > 1 {\n		d.m.Attributes = nil\n	}\n")], SDPMAIN+'''func main() {
	m, err := decode(head + "t=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\na=x\\r\\nm=audio 0 RTP/AVP 0\\r\\n")
	check(err == nil && len(m.Medias) == 2 && !m.Medias[1].Flag("x"), "%v %+v", err, m)
}
''')
B("S07-ttl-range","S07","a TTL above 255",
  "TTL and address counts are reduced modulo 256.",
  [(DE,"	n, err := strconv.ParseUint(string(dst), 10, 8)","	n, err := strconv.ParseUint(string(dst), 10, 16)")], SDPMAIN+'''func main() {
	_, err := decode(head + "c=IN IP4 224.2.1.1/256\\r\\nt=0 0\\r\\n")
	check(err != nil, "a TTL of 256 is accepted")
}
''')
B("S07-origin-subfields","S07","an origin line with more than six fields",
  "Additional origin fields are ignored.",
  [(DE,"	if len(p) != 6 {","	if len(p) < 6 {")], SDPMAIN+'''func main() {
	_, err := decode("v=0\\r\\no=- 1 1 IN IP4 127.0.0.1 more\\r\\ns=x\\r\\nt=0 0\\r\\n")
	check(err != nil, "seven origin fields are accepted")
}
''')
B("S07-leading-space","S07","a line with a doubled separator at its end",
  "A doubled separator is only noticed when another field follows.",
  [(DE,"			if hitSpace {\n				msg","			if hitSpace && subField < 3 {\n				msg")], SDPMAIN+'''func main() {
	_, err := decode(head + "t=0 0\\r\\nm=video 0 RTP/AVP 96  97\\r\\n")
	check(err != nil, "a doubled separator is accepted")
}
''')
B("S07-unknown-bandwidth","S07","an unknown bandwidth type in a media",
  "Unknown bandwidth types of a media are stored.",
  [(DE,"	default:\n		msg := fmt.Sprintf(\"bad bandwidth type %s\", k)","	default:\n		if d.section == sectionMedia {\n			t = bandWidthType\n			break\n		}\n		msg := fmt.Sprintf(\"bad bandwidth type %s\", k)")], SDPMAIN+'''func main() {
	_, err := decode(head + "t=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\nb=QQ:3\\r\\n")
	check(err != nil, "an unknown bandwidth type is accepted")
}
''')
