from bugs7 import *
SP='sdpparser.go'; RP='rtspparser.go'
def TAB(lines, cond): return DONE+'''
func main() {
	url, l := serve(func(p *peer) {
		p.accept("v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\nt=0 0\\r\\n%s", "1")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	m := p.RtpMediaMap[0]
	check(%s, "%%+v", m)
	p.Close()
}
''' % (lines.replace('"','\\"'), cond)
B("S05-fmtp-unquoted","S05","a format parameter whose value is in quotes",
  "Quotes around format parameter values are removed.",
  [(SP,'fieldTemp[index+1:]','strings.Trim(fieldTemp[index+1:], "\\"")')],
  TAB('m=audio 0 RTP/AVP 97\\r\\na=rtpmap:97 opus/48000/2\\r\\na=fmtp:97 title="x"\\r\\na=control:t\\r\\n','m.Fmtp["title"] == "\\"x\\""'))
B("S05-control-star","S05","a media whose control attribute is an asterisk",
  "The control URL * is not shown.",
  [(SP,'sdpInfo.Medias[index].TrackURL = meidaInfo.Attributes.Value("control")','sdpInfo.Medias[index].TrackURL = strings.TrimPrefix(meidaInfo.Attributes.Value("control"), "*")')],
  TAB('m=audio 0 RTP/AVP 0\\r\\na=control:*\\r\\n','m.TrackURL == "*"'))
B("S05-default-rate","S05","a video media whose rtpmap names no clock rate",
  "A clock rate of 90000 is made up for video without one.",
  [(SP,"		sdpInfo.Medias[index].CodecName = codecName\n","		if -1 == timestampFrequency && \"video\" == meidaInfo.Description.Type {\n			timestampFrequency = 90000\n		}\n		sdpInfo.Medias[index].CodecName = codecName\n")],
  TAB('m=video 0 RTP/AVP 96\\r\\na=rtpmap:96 X-PN-REALVIDEO\\r\\na=control:t\\r\\n','m.RtpTimestampFrequency <= 0'))
B("S05-secure-skipped","S05","a description with a secure profile besides another media",
  "Medias with an SRTP profile are left without any information.",
  [(SP,"	for index, meidaInfo := range sdpMessage.Medias {\n","	for index, meidaInfo := range sdpMessage.Medias {\n		if strings.Contains(meidaInfo.Description.Protocol, \"SAVP\") {\n			continue\n		}\n")],
  TAB('m=video 0 RTP/SAVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=control:t\\r\\n','m.CodecName == "H264" && m.MediumName == "video"'))
B("R03-control-slash","R03","a relative control attribute that begins with a slash",
  "The slash in front of a control attribute is taken away.",
  [(SP,'sdpInfo.Medias[index].TrackURL = meidaInfo.Attributes.Value("control")','sdpInfo.Medias[index].TrackURL = strings.TrimPrefix(meidaInfo.Attributes.Value("control"), "/")')],
 DONE+'''
func main() {
	got := make(chan string, 1)
	url, l := serve(func(p *peer) {
		for q := p.request(); q != nil; q = p.request() {
			switch q.method {
			case "DESCRIBE":
				p.reply(q, 200, "", "v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=audio 0 RTP/AVP 0\\r\\na=control:/track1\\r\\n")
			case "SETUP":
				got <- q.url
				p.reply(q, 200, "Session: 1\\r\\n", "")
			default:
				p.reply(q, 200, "", "")
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	u := <-got
	check(u == url+"/x//track1", "SETUP goes to %q", u)
	p.Close()
}
''')
B("R03-content-base","R03","a DESCRIBE answer with a Content-Base header that names another URL",
  "The Content-Base of the description replaces the request URL in all later requests.",
  [(RP,'		} else if theKey == strings.ToUpper(sSessionHeader) {','		} else if theKey == "CONTENT-BASE" && strings.HasPrefix(theValue, "rtsp://") {\n			context.contentBase = strings.TrimSuffix(theValue, "/")\n		} else if theKey == strings.ToUpper(sSessionHeader) {'),(RP,"	sessionID           string\n","	sessionID           string\n	contentBase         string\n"),(CL,'	session.rtspContext.sessionID = ""\n	for index, media','	if "" != response.contentBase {\n		session.rtspContext.rtspURL = response.contentBase\n	}\n	session.rtspContext.sessionID = ""\n	for index, media')],
 DONE+'''
func main() {
	got := make(chan string, 10)
	url, l := serve(func(p *peer) {
		for q := p.request(); q != nil; q = p.request() {
			got <- q.method + " " + q.url
			switch q.method {
			case "DESCRIBE":
				p.reply(q, 200, "Content-Base: rtsp://10.0.0.1/elsewhere/\\r\\n", sdpOf("PCMU"))
			default:
				p.reply(q, 200, "Session: 1\\r\\n", "")
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	for i := 0; i < 3; i++ {
		s := <-got
		check(strings.Contains(s, url+"/x"), "request %s", s)
	}
	p.Close()
}
''')
B("D04-transport-channel","D04","a SETUP answer whose Transport header names other channels",
  "Tracks are also bound to the channels the server's Transport header names, where another track's frames arrive.",
  [(RP,'		} else if theKey == strings.ToUpper(sSessionHeader) {','		} else if theKey == "TRANSPORT" && strings.Contains(theValue, "interleaved=") {\n			context.channel, _ = strconv.Atoi(strings.SplitN(strings.SplitN(theValue, "interleaved=", 2)[1], "-", 2)[0])\n		} else if theKey == strings.ToUpper(sSessionHeader) {'),(RP,"	sessionID           string\n","	sessionID           string\n	channel             int\n"),(CL,'		if "" != response.sessionID {\n','		if 0 != response.channel && response.channel != rtpIndex {\n			session.rtpChannelLock.Lock()\n			session.rtpChannelMap[response.channel] = session.rtpChannelMap[rtpIndex]\n			session.rtpChannelLock.Unlock()\n		}\n		if "" != response.sessionID {\n')],
 DONE+'''
func main() {
	done := make(chan bool)
	url, l := serve(func(p *peer) {
		for q := p.request(); q != nil; q = p.request() {
			switch q.method {
			case "DESCRIBE":
				p.reply(q, 200, "", sdpOf("PCMU"))
			case "SETUP":
				p.reply(q, 200, "Session: 1\\r\\nTransport: RTP/AVP/TCP;unicast;interleaved=4-5\\r\\n", "")
			default:
				p.reply(q, 200, "", "")
				for i := 0; i < 3; i++ {
					p.send(frame(4, rtp(i, true, fill(30, 1))))
				}
				p.send(frame(0, rtp(1, true, fill(40, 1))))
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	wait(3*time.Second, func() bool { return len(p.frames()) > 0 })
	time.Sleep(100 * time.Millisecond)
	check(same(p.frames(), [][]byte{fill(40, 1)}), "%s", sizes(p.frames()))
	p.Close()
	close(done)
}
''')
