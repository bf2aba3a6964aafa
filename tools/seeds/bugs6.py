from bugs5 import *
TN='tcpnetwork/tcpnetwork.go'
RX='rtpstreamprotocol.go'
WIRE=M+'''
func main() {
	frames := %s
	p := media([]string{"PCMU"}, frames, %s)
	got := p.frames()
	%s
}
'''
B("L02-any-text","L02","a server that sends stray text between two media frames, and one that sends bytes that are no text at all",
  "Any text at a message boundary is collected until an empty line, like a response, so the media behind stray text that has none is swallowed.",
  [(RX,'} else if "rtsp" == string(header[0:4]) || "RTSP" == string(header[0:4]) {','} else if header[0] >= 0x20 && header[0] < 0x7f {')],
 M+RTI+'''
func main() {
	done := make(chan bool)
	step := make(chan bool)
	url, l := serve(func(p *peer) {
		if p.accept(sdpOf("PCMU"), "1") {
			p.send(frame(0, rtp(1, false, fill(40, 1))))
			<-step
			p.send([]byte("keepalive without an end"))
			<-step
			p.send(frame(0, rtp(2, false, fill(40, 2))))
		}
		<-done
	})
	defer l.Close()
	p := newPlayer()
	if err := p.Play(url + "/x"); err != nil {
		fail("play: %v", err)
	}
	wait(5*time.Second, func() bool { return len(p.frames()) == 1 })
	step <- true
	time.Sleep(300 * time.Millisecond)
	step <- true
	check(wait(5*time.Second, func() bool { return len(p.frames()) == 2 }), "the packet behind the stray text was not delivered: %d", len(p.frames()))
	close(done)
}
''')
B("L02-request-answers","L02","a server that sends an OPTIONS request of its own while the client awaits the answer to SETUP",
  "A request of the server is taken for the answer that is awaited.",
  [(CL,'	} else if string(headerData[:4]) == "RTSP" || string(headerData[:4]) == "rtsp" {','	} else if string(headerData[:4]) == "RTSP" || string(headerData[:4]) == "rtsp" || string(headerData[:4]) == "OPTI" {')],
 M+RTI+'''
func main() {
	url, l := serve(func(p *peer) {
		for {
			q := p.request()
			if q == nil {
				return
			}
			switch q.method {
			case "DESCRIBE":
				p.reply(q, 200, "", sdpOf("PCMU"))
			case "SETUP":
				p.send([]byte("OPTIONS rtsp://client RTSP/1.0\\r\\nCSeq: 9\\r\\n\\r\\n"))
				time.Sleep(300 * time.Millisecond)
				p.reply(q, 200, "Session: 7\\r\\n", "")
			default:
				p.reply(q, 200, "", "")
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err == nil, "play failed: %v", err)
	p.Close()
}
''')
B("T03-empty-header","T03","a stream protocol whose headers are one byte long",
  "A header of a single byte is left out of what is written.",
  [(TN,"				if nil != headerBytes {\n","				if len(headerBytes) > 1 {\n")],
 M+'''
import (
	"io"
	"net"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

type proto struct{}

func (proto) Init()                                 {}
func (proto) GetHeaderLength() int                  { return 1 }
func (proto) UnserializeHeader([]byte) (int, []byte) { return 0, nil }
func (proto) SerializeHeader(b []byte) []byte       { return []byte{byte(len(b))} }
func (proto) GetContentLength([]byte) int           { return 0 }

func main() {
	l := listen()
	got := make(chan []byte, 1)
	go func() {
		c, _ := l.Accept()
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		b, _ := io.ReadAll(c)
		got <- b
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		fail("dial: %v", err)
	}
	up := make(chan bool, 1)
	conn := tcpnetwork.NewConnection(c, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventConnected {
			up <- true
		}
	})
	conn.SetStreamProtocol(proto{})
	conn.Run()
	<-up
	conn.Send([]byte("abc"), true)
	conn.Send([]byte("de"), false)
	conn.Close()
	b := <-got
	check(string(b) == "\\x03abc\\x02de", "written: %q", b)
}
''')
B("T03-copy-large","T03","a message of more than 64 KiB, handed over with needCopy, whose buffer the caller reuses at once",
  "Large messages are not copied, so what is written is what the caller put there later.",
  [(TN,"	if needCopy {\n","	if needCopy && len(msg) <= 65536 {\n")],
 M+'''
import (
	"bytes"
	"io"
	"net"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

type proto struct{}

func (proto) Init()                                 {}
func (proto) GetHeaderLength() int                  { return 1 }
func (proto) UnserializeHeader([]byte) (int, []byte) { return 0, nil }
func (proto) SerializeHeader(b []byte) []byte       { return nil }
func (proto) GetContentLength([]byte) int           { return 0 }

func main() {
	l := listen()
	release := make(chan bool)
	got := make(chan []byte, 1)
	go func() {
		c, _ := l.Accept()
		<-release
		c.SetReadDeadline(time.Now().Add(10 * time.Second))
		b, _ := io.ReadAll(c)
		got <- b
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		fail("dial: %v", err)
	}
	up := make(chan bool, 1)
	conn := tcpnetwork.NewConnection(c, 64, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventConnected {
			up <- true
		}
	})
	conn.SetStreamProtocol(proto{})
	conn.Run()
	<-up
	buf := make([]byte, 1<<20)
	var want []byte
	for i := 0; i < 20; i++ {
		for j := range buf {
			buf[j] = byte(i)
		}
		want = append(want, buf...)
		conn.Send(buf, true)
	}
	go conn.Close()
	close(release)
	b := <-got
	check(bytes.Equal(b, want), "what was written is not what was sent (%d of %d bytes)", len(b), len(want))
}
''')
B("R06-body-spaces","R06","a response whose body of exactly Content-Length bytes ends in line ends",
  "The body counts without the white space around it, so a body that ends in line ends looks incomplete.",
  [(RP,'len(response)-rtspEndPos >= context.contentLength','len(strings.TrimSpace(string(response[rtspEndPos:]))) >= context.contentLength')],
 M+'''
import (
	"fmt"
)

func main() {
	got := make(chan error, 1)
	url, l := serve(func(p *peer) {
		p.accept(sdpOf("PCMU"), "1")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	go func() { got <- p.Play(url + "/x") }()
	err := <-got
	check(err == nil, "play failed: %v", err)
	p.Close()
	fmt.Println("ok")
}
''')
B("L03-gate-reset","L03","a session that is given a connection after a request on the old one was never awaited",
  "The next connection does not start with an open request gate, so its first request is refused and the attempt times out.",
  [(CL,'	session.rtspRequestInitial = true\n	session.rtspContext.sessionID = ""\n','	session.rtspContext.sessionID = ""\n')],
 M+RTI+'''
func main() {
	url, l := serve(func(p *peer) {
		p.accept(sdpOf("PCMU"), "1")
		p.until("OPTIONS")
	})
	defer l.Close()
	p := newPlayer()
	if err := p.Play(url + "/x"); err != nil {
		fail("play: %v", err)
	}
	p.SendOptions()
	wait(5*time.Second, func() bool { return p.count(rtspclient.RtspEventDisconnected) == 1 })
	time.Sleep(50 * time.Millisecond)
	err := p.Play(url + "/x")
	check(err == nil, "the second attempt failed: %v", err)
}
''')
B("L03-nil-conn","L03","a request on a session that was never connected",
  "A request on a session without a connection ends in a nil pointer dereference.",
  [(RQ,'	if nil != session.tcpConn {\n		session.tcpConn.Send([]byte(request), false)\n	}\n','	session.tcpConn.Send([]byte(request), false)\n')] ,
 M+RTI+'''
func main() {
	defer func() {
		e := recover()
		check(e == nil, "panic: %v", e)
	}()
	p := newPlayer()
	p.ParsingURL("rtsp://127.0.0.1:1/x")
	p.SendOptions()
}
''')
B("L03-close-nil","L03","Close of a session that was never connected",
  "Close of a session that never had a connection ends in a nil pointer dereference.",
  [(CL,'func (session *RtspClientSession) Close() {\n	if nil == session.tcpConn {\n		return\n	}\n','func (session *RtspClientSession) Close() {\n')],
 M+RTI+'''
func main() {
	defer func() {
		e := recover()
		check(e == nil, "panic: %v", e)
	}()
	newPlayer().Close()
}
''')
B("L03-wait-nil","L03","waiting for a response on a session that was never connected",
  "The time out of a wait without a connection ends in a nil pointer dereference.",
  [(CL,'			if nil != session.tcpConn {\n				session.tcpConn.Close()\n			}\n','			session.tcpConn.Close()\n')],
 M+RTI+'''
func main() {
	defer func() {
		e := recover()
		check(e == nil, "panic: %v", e)
	}()
	_, err := newPlayer().WaitRtspResponse()
	check(err != nil, "a response without a connection")
}
''')
B("H01-nil-events","H01","a session that was given no event handler",
  "A session without an event handler panics when its attempt ends.",
  [(CL,'	if nil == session.eventHandle {\n		log.Println("nil event queue")\n		return\n	}\n','')],
 M+RTI+'''
func main() {
	defer func() {
		e := recover()
		check(e == nil, "panic: %v", e)
	}()
	url, l := serve(func(p *peer) {
		p.accept(sdpOf("PCMU"), "1")
		p.request()
	})
	defer l.Close()
	s := rtspclient.NewRtspClientSession(nil, nil)
	err := s.Play(url + "/x")
	check(err == nil, "play: %v", err)
	s.Close()
}
''')
B("T01-dollar-in-body","T01","a description of more than 16 KiB",
  "Only the first 16 KiB of a body belong to the message; the rest is taken for what follows it.",
  [(RX,'	return rtspContext.contentLength\n','	if rtspContext.contentLength > 16384 {\n		return 16384\n	}\n	return rtspContext.contentLength\n')],
 M+RTI+'''
func main() {
	url, l := serve(func(p *peer) {
		p.accept(sdpOf("PCMU")+strings.Repeat("a=x-pad:0123456789012345678901234567890123456789\\r\\n", 600), "1")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err == nil, "play: %v", err)
	p.Close()
}
''')
B("T01-ch-high","T01","a frame on a channel with a number of 240 or more",
  "A frame on one of the highest channels is not recognised as one, and the rest of the stream is out of step.",
  [(RX,"	if header[0] == '$' {\n","	if header[0] == '$' && header[1] < 0xf0 {\n")],
 M+'''
func main() {
	var f []byte
	for i := 0; i < 20; i++ {
		f = append(f, frame(240+i%16, fill(60, byte(i)))...)
		f = append(f, frame(0, rtp(i, false, fill(30, byte(i))))...)
	}
	p := media([]string{"PCMU"}, [][]byte{f}, 20)
	check(len(p.frames()) == 20, "%d of 20 packets were delivered", len(p.frames()))
}
''')
B("R02-nosdp-200","R02","a DESCRIBE answered 200 without a body",
  "A 200 without a description counts as success of the attempt.",
  [(CL,'	if nil == session.sdpInfo {\n		return errors.New("parse sdp error")\n	}\n','	if nil == session.sdpInfo {\n		if "" == response.content {\n			// nothing to set up\n			sendRequestSuccess = true\n			return nil\n		}\n		return errors.New("parse sdp error")\n	}\n')],
 M+RTI+'''
func main() {
	url, l := serve(func(p *peer) {
		for {
			q := p.request()
			if q == nil {
				return
			}
			p.reply(q, 200, "", "")
		}
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err != nil, "an attempt without a description succeeded")
	check(p.count(rtspclient.RtspEventRequestSuccess) == 0, "success was reported")
	p.Close()
}
''')
B("R05-force-query","R05","a URL with query parameters that are not in alphabetical order",
  "The parameters of the URL are sorted and encoded anew.",
  [(CL,'	urlInfo.User = nil\n','	urlInfo.User = nil\n	urlInfo.RawQuery = urlInfo.Query().Encode()\n')],
 M+'''
func main() {
	got := make(chan string, 1)
	url, l := serve(func(p *peer) {
		q := p.request()
		if q != nil {
			got <- q.url
		}
	})
	defer l.Close()
	p := newPlayer()
	p.Play(url + "/x?z=1&a=2")
	u := <-got
	check(u == url+"/x?z=1&a=2", "request URL %s", u)
}
''')
B("R06-tab","R06","a response whose header values are separated from the colon by a tab",
  "Only spaces are taken off a header value, so a value behind a tab is not understood.",
  [(RP,'theValue := strings.TrimSpace(keyValue[1])','theValue := strings.Trim(keyValue[1], " ")')],
 M+'''
func main() {
	url, l := serve(func(p *peer) {
		for {
			q := p.request()
			if q == nil {
				return
			}
			body := ""
			if q.method == "DESCRIBE" {
				body = sdpOf("PCMU")
			}
			p.send([]byte("RTSP/1.0 200 OK\\r\\nCSeq:\\t" + q.header["cseq"] + "\\r\\nContent-Length:\\t" + itoa(len(body)) + "\\r\\n\\r\\n" + body))
		}
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err == nil, "play: %v", err)
	p.Close()
}

func itoa(n int) string {
	s := ""
	for ; n > 0 || s == ""; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
''')
