from bugs4 import *
RTI='''import (
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

var _ = strings.Join
var _ time.Duration
var _ *rtspclient.RtspData
'''
B("R01-setup-reauth","R01","a SETUP answered 401 with a fresh nonce after DESCRIBE was authenticated",
  "SETUP is sent again with the new nonce when it is answered 401.",
  [(CL,"		if 200 != response.Status {\n			return errors.New(\"response error: \" + strconv.Itoa(response.Status))\n		}\n		if \"\" != response.sessionID {","		if 401 == response.Status && nil != response.digestAuthenticator && nil != session.rtspContext.authenicator {\n			session.rtspContext.authenicator.nonce = response.digestAuthenticator.nonce\n			session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)\n			response, errorInfo = session.WaitRtspResponse()\n			if nil != errorInfo {\n				return errorInfo\n			}\n		}\n		if 200 != response.Status {\n			return errors.New(\"response error: \" + strconv.Itoa(response.Status))\n		}\n		if \"\" != response.sessionID {")],
 M+RTI+'''
func main() {
	got := make(chan string, 1)
	url, _ := serve(func(p *peer) {
		seen := ""
		defer func() { got <- seen }()
		for i := 0; ; i++ {
			q := p.request()
			if q == nil {
				return
			}
			seen += q.method + " "
			switch {
			case i == 0:
				p.reply(q, 401, "WWW-Authenticate: Digest realm=\\"r\\", nonce=\\"1\\"\\r\\n", "")
			case q.method == "DESCRIBE":
				p.reply(q, 200, "", sdpOf("PCMU"))
			case q.method == "SETUP" && i == 2:
				p.reply(q, 401, "WWW-Authenticate: Digest realm=\\"r\\", nonce=\\"2\\"\\r\\n", "")
			default:
				p.reply(q, 200, "Session: 1\\r\\n", "")
			}
		}
	})
	p := newPlayer()
	err := p.Play(strings.Replace(url, "rtsp://", "rtsp://u:p@", 1) + "/x")
	check(err != nil, "the attempt succeeded")
	p.Close()
	s := <-got
	check(strings.HasPrefix(s, "DESCRIBE DESCRIBE SETUP") && strings.Count(s, "SETUP") == 1 && !strings.Contains(s, "PLAY"), "requests: %s", s)
}
''')
B("R01-application","R01","a description with an application media",
  "Medias of type application are not set up.",
  [(CL,"		strTrackURL := media.TrackURL\n","		if \"application\" == media.MediumName {\n			continue\n		}\n		strTrackURL := media.TrackURL\n")],
 M+RTI+'''
func main() {
	got := make(chan string, 1)
	url, _ := serve(func(p *peer) {
		p.accept(sdpOf("H264")+"m=application 0 RTP/AVP 107\\r\\na=rtpmap:107 vnd.onvif.metadata/90000\\r\\na=control:meta\\r\\n", "1")
		s := ""
		for _, q := range p.seen {
			s += q.method + " "
		}
		got <- s
	})
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "the attempt failed")
	s := <-got
	check(s == "DESCRIBE SETUP SETUP PLAY ", "requests: %s", s)
}
''')
B("R05-lower","R05","a URL whose host has upper case letters",
  "The host of the request URL is written in lower case.",
  [(CL,"	urlInfo.User = nil\n","	urlInfo.User = nil\n	urlInfo.Host = strings.ToLower(urlInfo.Host)\n")],
 M+RTI+'''
func main() {
	got := make(chan string, 1)
	url, _ := serve(func(p *peer) {
		if q := p.request(); q != nil {
			got <- q.url
			p.reply(q, 404, "", "")
		}
	})
	u := strings.Replace(url, "127.0.0.1", "LocalHost", 1) + "/x"
	newPlayer().Play(u)
	select {
	case s := <-got:
		check(s == u, "request URL %s for %s", s, u)
	default:
		// the name is not known here
	}
}
''')
B("R06-32-headers","R06","an answer with more than thirty header lines before the one that counts",
  "Only the first 32 lines of an answer are looked at.",
  [("rtspparser.go",'strings.Split(string(rtspResponse), "\\r\\n")','strings.SplitN(string(rtspResponse), "\\r\\n", 32)')],
 M+RTI+'''
func main() {
	url, _ := serve(func(p *peer) {
		for {
			q := p.request()
			if q == nil {
				return
			}
			h := strings.Repeat("X-Note: some note\\r\\n", 40) + "Session: 1\\r\\n"
			body := ""
			if q.method == "DESCRIBE" {
				body = sdpOf("PCMU")
			}
			p.reply(q, 200, h, body)
		}
	})
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err == nil, "40 additional headers: %v", err)
}
''')
B("L03-backoff","L03","several unanswered attempts on one session",
  "The time to wait for an answer doubles with every answer that does not come and never gets shorter again.",
  [(CL,"			return nil, errors.New(\"recv response time out\")","			session.timeoutSec *= 2\n			return nil, errors.New(\"recv response time out\")")],
 M+RTI+'''
func main() {
	url, _ := serve(func(p *peer) {
		for p.request() != nil {
		}
	})
	p := newPlayer()
	var first time.Duration
	for i := 0; i < 3; i++ {
		start := time.Now()
		check(p.Play(url+"/x") != nil, "the attempt succeeded")
		took := time.Since(start)
		if i == 0 {
			first = took
		}
		check(took < first+1500*time.Millisecond, "attempt %d took %v, the first one %v", i+1, took, first)
		check(wait(5*time.Second, func() bool { return p.count(rtspclient.RtspEventDisconnected) == i+1 }), "no disconnection")
	}
}
''')
B("R03-many-medias","R03","a description with more than 32 medias",
  "Channel numbers start again at 0 after 32 medias.",
  [(CL,"		rtpIndex := index * 2\n		rtcpIndex := index*2 + 1","		rtpIndex := index % 32 * 2\n		rtcpIndex := rtpIndex + 1")],
 M+RTI.replace('import (','import (\n	"fmt"')+'''
func main() {
	var codecs []string
	for i := 0; i < 40; i++ {
		codecs = append(codecs, "X")
	}
	sdp := strings.ReplaceAll(sdpOf(codecs...), "\\r\\na=rtpmap:", "\\r\\na=was:")
	got := make(chan []*request, 1)
	url, _ := serve(func(p *peer) {
		p.accept(sdp, "1")
		got <- p.seen
	})
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "the attempt failed")
	n := 0
	for _, q := range <-got {
		if q.method == "SETUP" {
			check(strings.HasSuffix(q.header["transport"], fmt.Sprintf("interleaved=%d-%d", 2*n, 2*n+1)), "SETUP %d asks for %s", n, q.header["transport"])
			n++
		}
	}
	check(n == 40, "%d SETUPs", n)
}
''')
B("H01-framerate","H01","a frame rate given as a fraction with denominator 0",
  "Frame rates written as fractions are understood, a denominator of 0 is not expected.",
  [("sdpparser.go",'	framerate, _ := strconv.ParseFloat(strings.TrimSpace(sdpFramerate), 64)\n	return int(framerate)','	if parts := strings.Split(sdpFramerate, "/"); len(parts) == 2 {\n		n, _ := strconv.Atoi(parts[0])\n		d, _ := strconv.Atoi(parts[1])\n		return n / d\n	}\n	framerate, _ := strconv.ParseFloat(strings.TrimSpace(sdpFramerate), 64)\n	return int(framerate)')],
 M+RTI+'''
func main() {
	url, _ := serve(func(p *peer) {
		p.accept(sdpOf("H264")+"a=framerate:30/0\\r\\n", "1")
	})
	newPlayer().Play(url + "/x")
}
''')
B("H01-transport","H01","an answer whose Transport header names a single interleaved channel",
  "The second channel of the Transport header is read without looking whether there is one.",
  [("rtspparser.go",'		} else if theKey == strings.ToUpper(sAuthenticateHeader) {','		} else if theKey == strings.ToUpper(sTransportHeader) {\n			if pos := strings.Index(theValue, "interleaved="); pos != -1 {\n				channels := strings.Split(theValue[pos+len("interleaved="):], "-")\n				context.rtcpChannel = strings.Split(channels[1], ";")[0]\n			}\n		} else if theKey == strings.ToUpper(sAuthenticateHeader) {'),("rtspparser.go",'	sessionID           string\n','	sessionID           string\n	rtcpChannel         string\n')],
 M+RTI+'''
func main() {
	var c rtspclient.RtspResponseContext
	rtspclient.ParserRtspResponse([]byte("RTSP/1.0 200 OK\\r\\nTransport: RTP/AVP/TCP;unicast;interleaved=0\\r\\n\\r\\n"), &c)
}
''')
B("D03-mpa","D03","an MPA packet that begins with two zero bytes",
  "The header of RFC 2250 is taken off MPA packets.",
  [("rtpparser.go",'	case "BBW":\n','	case "MPA":\n		{\n			return &MpaRtpParser{}\n		}\n	case "BBW":\n'),("simplertpparser.go",'type SimpleRtpParser struct {\n}\n','type SimpleRtpParser struct {\n}\n\n// MpaRtpParser skips the header of RFC 2250\ntype MpaRtpParser struct {\n	SimpleRtpParser\n}\n\nfunc (rtpParser *MpaRtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {\n	isCompletesFrame, header, payload = rtpParser.SimpleRtpParser.SplitHeader(src)\n	if len(payload) > 4 && 0 == payload[0] && 0 == payload[1] {\n		payload = payload[4:]\n	}\n	return\n}\n')],
 M+RTI+'''
func main() {
	b := append([]byte{0, 0, 0, 0, 0xff, 0xfb}, fill(100, 3)...)
	p := media([]string{"MPA"}, [][]byte{frame(0, rtp(1, true, b))}, 1)
	check(same(p.frames(), [][]byte{b}), "delivered %s", sizes(p.frames()))
}
''')
B("D03-start-code","D03","a packet that begins with the bytes of an Annex B start code",
  "A start code at the beginning of a payload is taken off.",
  [("simplertpparser.go",'	return true, src[:RtpHeaderLen], src[RtpHeaderLen:]','	payload = src[RtpHeaderLen:]\n	if len(payload) > 4 && 0 == payload[0] && 0 == payload[1] && 0 == payload[2] && 1 == payload[3] {\n		payload = payload[4:]\n	}\n	return true, src[:RtpHeaderLen], payload')],
 M+RTI+'''
func main() {
	b := append([]byte{0, 0, 0, 1}, fill(100, 3)...)
	p := media([]string{"L16"}, [][]byte{frame(0, rtp(1, true, b))}, 1)
	check(same(p.frames(), [][]byte{b}), "delivered %s", sizes(p.frames()))
}
''')
B("D01-repeated-sps","D01","a parameter set that is sent twice in a row",
  "Parameter sets that did not change are not delivered again.",
  [(CL,'			if nil != nalu {\n','			if nil != nalu && rtpParser.isRepeated(nalu) {\n				nalu = nil\n			}\n			if nil != nalu {\n'),("rtpparser.go",'	isMarkFrame      bool\n}','	isMarkFrame      bool\n	parameterSets    map[byte]string\n}\n\n// isRepeated tells parameter sets that did not change\nfunc (rtpParser *RtpParser) isRepeated(nalu []byte) bool {\n	if _, ok := rtpParser.rtpSourceHandler.(*H264RtpParser); !ok {\n		return false\n	}\n	naluType := nalu[0] & 0x1f\n	if 7 != naluType && 8 != naluType {\n		return false\n	}\n	if nil == rtpParser.parameterSets {\n		rtpParser.parameterSets = make(map[byte]string)\n	}\n	if rtpParser.parameterSets[naluType] == string(nalu) {\n		return true\n	}\n	rtpParser.parameterSets[naluType] = string(nalu)\n	return false\n}')],
 M+RTI+'''
func main() {
	sps := append([]byte{0x67}, fill(20, 3)...)
	idr := append([]byte{0x65}, fill(200, 9)...)
	p := media([]string{"H264"}, [][]byte{frame(0, rtp(1, true, sps)), frame(0, rtp(2, true, idr)), frame(0, rtp(3, true, sps)), frame(0, rtp(4, true, idr))}, 4)
	check(same(p.frames(), [][]byte{sps, idr, sps, idr}), "delivered %s", sizes(p.frames()))
}
''')
B("R04-cache-initial","R04","PAUSE after PLAY on a session with Digest authentication",
  "Answers to the challenge are kept by the initial of the method.",
  [("authenticator.go","	authenicatorType int\n}","	authenicatorType int\n	answers          map[byte]string // by the initial of the method\n}"),("authenticator.go","	var authenticatorString string\n","	var authenticatorString string\n	if answer, ok := authenticator.answers[cmd[0]]; ok {\n		return answer\n	}\n"),("authenticator.go","	return authenticatorString\n","	if nil == authenticator.answers {\n		authenticator.answers = make(map[byte]string)\n	}\n	authenticator.answers[cmd[0]] = authenticatorString\n	return authenticatorString\n")],
 M+RTI.replace('import (','import (\n	"crypto/md5"\n	"fmt"')+'''
func md(s string) string { return fmt.Sprintf("%x", md5.Sum([]byte(s))) }

func main() {
	url, _ := serve(func(p *peer) {
		for i := 0; ; i++ {
			q := p.request()
			if q == nil {
				return
			}
			if i == 0 {
				p.reply(q, 401, "WWW-Authenticate: Digest realm=\\"r\\", nonce=\\"n\\"\\r\\n", "")
				continue
			}
			uri := strings.Split(strings.SplitN(q.header["authorization"]+`uri="`, `uri="`, 2)[1], `"`)[0]
			want := md(md("u:r:p") + ":n:" + md(q.method+":"+uri))
			if !strings.Contains(q.header["authorization"], "response=\\""+want+"\\"") {
				p.reply(q, 403, "", "")
				continue
			}
			body := ""
			if q.method == "DESCRIBE" {
				body = sdpOf("PCMU")
			}
			p.reply(q, 200, "Session: 1\\r\\n", body)
		}
	})
	p := newPlayer()
	check(p.Play(strings.Replace(url, "rtsp://", "rtsp://u:p@", 1)+"/x") == nil, "the attempt failed")
	p.SendPause()
	r, err := p.WaitRtspResponse()
	check(err == nil && r.Status == 200, "PAUSE: %v %v", r, err)
}
''')
B("S02-bom","S02","a text whose first line has the type U+FEFF",
  "A byte order mark in front of the text is dropped.",
  [("sdp/sdp.go",'	scanner := newScanner(b)\n','	scanner := newScanner(bytes.TrimPrefix(b, []byte("\\xef\\xbb\\xbf")))\n')],
 M+'''import "github.com/NodeBoy2/rtspclient/sdp"

func main() {
	w := sdp.Session{{Type: 0xfeff, Value: []byte("x")}, {Type: 'a', Value: []byte("y")}}
	s, err := sdp.DecodeSession(w.AppendTo(nil), nil)
	check(err == nil && w.Equal(s), "%v %v", s, err)
}
''')
B("S01-phone-email","S01","a message whose phone is the same text as its email",
  "The phone line is left out when it says the same as the email line.",
  [("sdp/encoder.go",'	if len(m.Phone) > 0 {','	if len(m.Phone) > 0 && m.Phone != m.Email {')],
 M+'''import "github.com/NodeBoy2/rtspclient/sdp"

func main() {
	m := &sdp.Message{Name: "x", Email: "same", Phone: "same", Origin: sdp.Origin{Username: "-", NetworkType: "IN", AddressType: "IP4", Address: "h"}}
	var got sdp.Message
	d := sdp.NewDecoder(m.Append(nil))
	check(d.Decode(&got) == nil && got.Phone == "same", "phone %q", got.Phone)
}
''')
