from bugs6 import *
H4='h264rtpparser.go'; H5='hevcrtpparser.go'; PA='rtpparser.go'; CL='rtspclient.go'; SD='sdp/decoder.go'; FI='sdp/fields.go'; WS='websocketconn.go'
DONE=M+RTI
B("D02-ap-keeps-layer","D02","an aggregation packet whose units have another temporal id than the packet itself",
  "The second header byte of each aggregated unit is overwritten with that of the packet.",
  [(H5,"			naluSize = int(payload[0])<<8 | int(payload[1])\n			naluHeaderSize = 2","			naluSize = int(payload[0])<<8 | int(payload[1])\n			naluHeaderSize = 2\n			if len(payload) > 3 && payload[3]&0x07 > naluHeader[1]&0x07 {\n				payload[3] = naluHeader[1]\n			}")],
 DONE+'''
func main() {
	a, b := append([]byte{0x40, 1}, fill(20, 1)...), append([]byte{0x42, 3}, fill(30, 2)...)
	ap := []byte{48 << 1, 1}
	for _, u := range [][]byte{a, b} {
		ap = append(append(ap, byte(len(u)>>8), byte(len(u))), u...)
	}
	p := media([]string{"H265"}, [][]byte{frame(0, rtp(1, true, ap))}, 2)
	wait(0, func() bool { return true })
	check(same(p.frames(), [][]byte{a, b}), "%s", sizes(p.frames()))
}
''')
B("D06-large-aliased","D06","a NAL unit of 4 MiB or more, followed by other media of its track",
  "Very large units are handed over without a copy to save memory, later media overwrites them.",
  [(PA,"		data := make([]byte, rtpParser.payloadLen)\n		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])\n		rtpParser.payloadLen = 0\n		return data, naluSize\n	}\n	return nil","		data := rtpParser.payloadBuf[:rtpParser.payloadLen]\n		if rtpParser.payloadLen < MaxPayloadLength/2 {\n			data = append([]byte(nil), data...)\n		}\n		rtpParser.payloadLen = 0\n		return data, naluSize\n	}\n	return nil")],
 DONE+'''
func main() {
	unit := append([]byte{0x65}, fill(5<<20, 1)...)
	var fs [][]byte
	body := unit[1:]
	for i := 0; len(body) > 0; i++ {
		n := 60000
		h := byte(5)
		if i == 0 {
			h |= 0x80
		}
		if len(body) <= n {
			n = len(body)
			h |= 0x40
		}
		fs = append(fs, frame(0, rtp(i, h&0x40 != 0, append([]byte{0x7c, h}, body[:n]...))))
		body = body[n:]
	}
	next := append([]byte{0x41}, fill(5000, 9)...)
	fs = append(fs, frame(0, rtp(500, true, next)))
	p := media([]string{"H264"}, fs, 2)
	check(same(p.frames(), [][]byte{unit, next}), "%s", sizes(p.frames()))
}
''')
B("D06-capacity-shared","D06","an application that appends to a delivered buffer, several deliveries of one track",
  "Small deliveries are cut out of a common block with their full capacity, so appending to one writes into the next.",
  [(PA,"	isMarkFrame      bool\n","	isMarkFrame      bool\n	block            []byte\n"),
   (PA,"		data := make([]byte, rtpParser.payloadLen)\n		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])\n		rtpParser.payloadLen = 0\n		return data, naluSize\n	}\n	return nil","		if len(rtpParser.block) < rtpParser.payloadLen {\n			rtpParser.block = make([]byte, rtpParser.payloadLen+1<<16)\n		}\n		data := rtpParser.block[:rtpParser.payloadLen]\n		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])\n		rtpParser.block = rtpParser.block[rtpParser.payloadLen:]\n		rtpParser.payloadLen = 0\n		return data, naluSize\n	}\n	return nil")],
 DONE+'''
func main() {
	frames := [][]byte{}
	want := [][]byte{}
	for i := 0; i < 20; i++ {
		want = append(want, fill(100+i, byte(i)))
		frames = append(frames, frame(0, rtp(i, true, want[i])))
	}
	p := media([]string{"PCMU"}, frames, 20)
	got := p.frames()
	check(same(got, want), "%s", sizes(got))
	// an Annex B writer that adds something behind each unit
	for i := range got {
		_ = append(got[i], 0, 0, 1, 9, 16)
	}
	check(same(got, want), "after appending: %s", sizes(got))
}
''')
B("L01-upgrade-unbounded","L01","a server that takes a WebSocket connection and never answers its upgrade",
  "The dialer has no handshake timeout, PlayUseWebsocket waits for ever.",
  [(CL,"websocket.DefaultDialer.Dial(","(&websocket.Dialer{}).Dial(")],
 M+'''import (
	"net"
	"time"
)

func main() {
	l := listen()
	go func() {
		var held []net.Conn
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			held = append(held, c)
		}
	}()
	p := newPlayer()
	ended := make(chan error, 1)
	go func() { ended <- p.PlayUseWebsocket("ws://"+l.Addr().String()+"/w", "rtsp://127.0.0.1/x") }()
	select {
	case err := <-ended:
		check(err != nil, "no error")
	case <-time.After(60 * time.Second):
		fail("PlayUseWebsocket still waits after a minute")
	}
}
''')
B("L01-teardown-unwatched","L01","Close of a session whose server answers nothing any more and does not read either",
  "The wait after TEARDOWN ends only with an answer, a disconnection or the watchdog, which is much too long.",
  [(CL,"		session.SendTeardown()\n		session.WaitRtspResponse()\n","		session.SendTeardown()\n		session.timeoutSec += 20\n		session.WaitRtspResponse()\n		session.timeoutSec -= 20\n")],
 M+RTI+'''
func main() {
	done := make(chan bool)
	url, l := serve(func(p *peer) {
		p.accept(sdpOf("PCMU"), "1")
		<-done
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	start := time.Now()
	p.Close()
	check(time.Since(start) < 10*time.Second, "Close took %v", time.Since(start))
	check(wait(5*time.Second, func() bool { return p.count(rtspclient.RtspEventDisconnected) == 1 }), "no disconnection")
	close(done)
}
''')
B("D04-channels-before-setup","D04","media that arrives for the second track between the answer to the first SETUP and the second SETUP",
  "All channels are set up before the first SETUP is sent, so frames of tracks that are not set up yet are delivered.",
  [(CL,"	for index, media := range session.sdpInfo.Medias {\n","	for index := range session.sdpInfo.Medias {\n		session.rtpChannelLock.Lock()\n		session.rtpChannelMap[index*2] = newRtpParser(session.sdpInfo.Medias[index].CodecName)\n		session.rtpChannelLock.Unlock()\n	}\n	for index, media := range session.sdpInfo.Medias {\n"),
   ],
 M+RTI+'''
func main() {
	done := make(chan bool)
	url, l := serve(func(p *peer) {
		setups := 0
		for {
			q := p.request()
			if q == nil {
				return
			}
			switch q.method {
			case "DESCRIBE":
				p.reply(q, 200, "", sdpOf("PCMU", "PCMA"))
			case "SETUP":
				for i := 0; i < 5 && setups == 0; i++ {
					p.send(frame(2, rtp(i, true, fill(50, byte(i)))))
				}
				setups++
				p.reply(q, 200, "Session: 7\\r\\n", "")
			case "PLAY":
				p.reply(q, 200, "", "")
			default:
				p.reply(q, 200, "", "")
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err == nil, "play: %v", err)
	time.Sleep(300 * time.Millisecond)
	check(len(p.frames()) == 0, "delivered before its SETUP: %s", sizes(p.frames()))
	p.Close()
	close(done)
}
''')
B("D04-same-parser","D04","two medias of the same codec whose fragmented NAL units interleave",
  "Tracks that have the same codec and control URL as the one before share its parser.",
  [(CL,"		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)\n","		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)\n		if index > 0 && session.sdpInfo.Medias[index-1].TrackURL == media.TrackURL && session.sdpInfo.Medias[index-1].CodecName == media.CodecName {\n			session.rtpChannelMap[rtpIndex] = session.rtpChannelMap[rtpIndex-2]\n		}\n")],
 DONE+'''
func main() {
	a, b := append([]byte{0x65}, fill(200, 1)...), append([]byte{0x65}, fill(200, 7)...)
	fu := func(u []byte, h byte, from, to int) []byte { return append([]byte{0x7c, 5 | h}, u[from:to]...) }
	sdp := "v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\nt=0 0\\r\\n"
	for i := 0; i < 2; i++ {
		sdp += "m=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=control:*\\r\\n"
	}
	done := make(chan bool)
	url, l := serve(func(p *peer) {
		if p.accept(sdp, "1") {
			p.send(frame(0, rtp(1, false, fu(a, 0x80, 1, 100))))
			p.send(frame(2, rtp(1, false, fu(b, 0x80, 1, 100))))
			p.send(frame(0, rtp(2, true, fu(a, 0x40, 100, 201))))
			p.send(frame(2, rtp(2, true, fu(b, 0x40, 100, 201))))
		}
		<-done
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	wait(3*time.Second, func() bool { return len(p.frames()) == 2 })
	check(same(p.frames(), [][]byte{a, b}), "%s", sizes(p.frames()))
	close(done)
}
''')
B("W01-limit-128k","W01","a WebSocket message of more than 128 KiB",
  "A read limit of 128 KiB is set on the connection, a server that puts more into one message is dropped.",
  [(CL,"	conn := &WebsocketConn{conn: websocketConn}\n","	websocketConn.SetReadLimit(1 << 17)\n	conn := &WebsocketConn{conn: websocketConn}\n")],'WS_BIG2')
B("S03-empty-uri","S03","a line list made by hand that has a URI line without a value",
  "The first byte of the URI is looked at without checking that there is one.",
  [(SD,"	m.URI = string(d.v)\n","	if d.v[0] == '<' {\n		d.v = bytes.Trim(d.v, \"<>\")\n	}\n	m.URI = string(d.v)\n")],
 SDPMAIN+'''func main() {
	s := sdp.Session{}.AddVersion(0).AddOrigin(sdp.Origin{Username: "-", Address: "127.0.0.1"}).AddSessionName("x").AddURI("")
	d := sdp.NewDecoder(s)
	m := &sdp.Message{}
	if err := d.Decode(m); err == nil {
		check(m.URI == "", "%q", m.URI)
	}
}
''')
B("S03-decode-twice","S03","decoding the same lines twice",
  "Decoding lower-cases the attribute names in the lines themselves.",
  [(SD,"	for _, v := range d.v {\n		if v == ':' && !isValue {","	if d.t == TypeAttribute && bytes.HasPrefix(d.v, []byte(\"RTPMAP\")) {\n		copy(d.v, bytes.ToLower(d.v[:6]))\n	}\n	for _, v := range d.v {\n		if v == ':' && !isValue {")],
 SDPMAIN+'''func main() {
	text := []byte(head + "t=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\na=RTPMAP:96 H264/90000\\r\\n")
	lines, err := sdp.DecodeSession(text, nil)
	check(err == nil, "%v", err)
	before := string(lines.AppendTo(nil))
	d := sdp.NewDecoder(lines)
	check(d.Decode(&sdp.Message{}) == nil, "decode")
	check(string(lines.AppendTo(nil)) == before, "the lines were modified")
}
''')
B("S04-interval-rounded","S04","an interval that is no multiple of a minute and more than 60 days, in compact notation",
  "Compact intervals of more than 60 days are written in whole minutes.",
  [(FI,"		if d%unit.d == 0 {","		if d%unit.d == 0 || d > 60*24*time.Hour && unit.d == time.Minute {")],
 SDPMAIN+'''func main() {
	s := sdp.Session{}.AddVersion(0).AddOrigin(sdp.Origin{Username: "-", Address: "127.0.0.1"}).AddSessionName("x")
	s = s.AddTimingNTP(2873397496, 2873404696).AddRepeatTimesCompact(70*24*time.Hour+time.Second, time.Hour, 25*time.Hour+30*time.Second)
	m, err := decode(string(s.AppendTo(nil)))
	check(err == nil && len(m.Timing) == 1 && m.Timing[0].Repeat == 70*24*time.Hour+time.Second && m.Timing[0].Offsets[0] == 25*time.Hour+30*time.Second, "%v %+v", err, m.Timing)
}
''')
B("S04-offset-carries","S04","a repeat line with an offset of 0d behind another offset",
  "A zero offset is taken for a missing one and keeps the value before it.",
  [(SD,"	if len(b) == 1 && b[0] == '0' {\n		*v = 0\n		return nil\n	}","	if len(b) <= 2 && len(b) > 0 && b[0] == '0' {\n		if 1 == len(b) {\n			*v = 0\n		}\n		return nil\n	}")],
 SDPMAIN+'''func main() {
	m, err := decode(head + "t=2873397496 2873404696\\r\\nr=604800 3600 90000 0d 60\\r\\n")
	check(err == nil && len(m.Timing) == 1 && reflect.DeepEqual(m.Timing[0].Offsets, []time.Duration{25 * time.Hour, 0, time.Minute}), "%v %+v", err, m.Timing)
}
''')
B("S06-ip-reused","S06","a media whose connection address differs from the session's",
  "The media's address is decoded into the memory of the session's one.",
  [(SD,"	return net.ParseIP(string(v)), nil\n","	ip := net.ParseIP(string(v))\n	if len(dst) == len(ip) {\n		copy(dst, ip)\n		return dst, nil\n	}\n	return ip, nil\n"),
   ],
 SDPMAIN+'''func main() {
	m, err := decode(head + "c=IN IP4 224.2.1.1\\r\\nt=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\nc=IN IP4 224.2.1.9\\r\\n")
	check(err == nil && m.Connection.IP.String() == "224.2.1.1" && m.Medias[0].Connection.IP.String() == "224.2.1.9", "%v %+v", err, m)
}
''')
B("S05-wide","S05","a description with a width or height of 10000 or more",
  "At most four digits of each dimension are read.",
  [(SP,'fmt.Sscanf(sdpXDimensions, "%d %d",','fmt.Sscanf(sdpXDimensions, "%4d %4d",')],
 DONE+'''
func main() {
	url, l := serve(func(p *peer) {
		p.accept("v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H265/90000\\r\\na=x-dimensions:15360,8640\\r\\na=control:t\\r\\n", "1")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	m := p.RtpMediaMap[0]
	check(m.VideoWidth == 15360 && m.VideoHeight == 8640, "%+v", m)
	p.Close()
}
''')
