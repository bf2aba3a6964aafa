BUGS = []
def B(id, prop, needs, breaks, subs, demo, flags=""):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, subs=subs, demo=demo, flags=flags))
TCP="tcpnetwork/tcpnetwork.go"; CL="rtspclient.go"; RP="rtspparser.go"; RQ="rtsprequest.go"; AU="authenticator.go"
PR="rtpstreamprotocol.go"; SP="sdpparser.go"; DE="sdp/decoder.go"; FI="sdp/fields.go"; SD="sdp/sdp.go"; EN="sdp/encoder.go"

CONN_IMPORT='''import (
	"bytes"
	"net"
	"sync"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

var _ = bytes.Equal
var _ = time.Second
var _ sync.Mutex
var _ rtspclient.RtspData

// connect starts a connection over loopback TCP; the other end is returned.
func connect(proto tcpnetwork.IStreamProtocol, size int, h func(*tcpnetwork.ConnEvent)) (*tcpnetwork.Connection, net.Conn) {
	l := listen()
	ch := make(chan net.Conn)
	go func() {
		c, _ := l.Accept()
		ch <- c
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		fail("dial: %v", err)
	}
	conn := tcpnetwork.NewConnection(c, size, h)
	conn.SetStreamProtocol(proto)
	return conn, <-ch
}
'''
B("T01-int16-length","T01","an interleaved frame of 32768 bytes or more that the transport delivers in pieces",
  "The frame length is read as a signed number: larger frames are no longer framed and the stream is misread from there on.",
  [(PR,"var len uint16","var len int16")], '''package main

import "fmt"

func main() {
	big := frame(0, rtp(1, true, fill(40000, 1)))
	p := media([]string{"X1"}, [][]byte{frame(0, rtp(0, true, fill(100, 2))), big[:20000], big[20000:], frame(0, rtp(2, true, fill(100, 3)))}, 3)
	check(same(p.frames(), [][]byte{fill(100, 2), fill(40000, 1), fill(100, 3)}), "delivered %s", sizes(p.frames()))
	fmt.Println("ok")
}
''')
B("T01-short-body-read","T01","an RTSP response whose body is split by the transport",
  "The body of a response is read with one Read call, so a body that arrives in pieces is delivered incomplete and its rest is taken for the next message.",
  [(TCP,"		err = connection.read(buf[bufStartPos : bufStartPos+contextLength])\n		if err != nil {\n			return nil, err\n		}\n	}\n	bufStartPos += contextLength",
        "		contextLength, err = connection.connRW.Read(buf[bufStartPos : bufStartPos+contextLength])\n		if err != nil {\n			return nil, err\n		}\n	}\n	bufStartPos += contextLength")], '''package main

import (
	"fmt"
	"time"
)

func main() {
	sdp := sdpOf("H264", "X2")
	url, l := serve(func(p *peer) {
		q := p.request()
		b := answer(q, 200, "", sdp)
		p.send(b[:len(b)-40])
		time.Sleep(100 * time.Millisecond)
		p.send(b[len(b)-40:])
		p.accept(sdp, "1")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err == nil, "play: %v", err)
	check(len(p.RtpMediaMap) == 2 && p.RtpMediaMap[2].TrackURL == "track1", "medias: %v", p.RtpMediaMap)
	fmt.Println("ok")
}
''')
B("T01-max-length","T01","a frame of exactly 65535 bytes",
  "The largest frame the format allows is refused and the connection is closed.",
  [(TCP,"		if packetLength > connection.maxReadBufferLength {","		if packetLength >= connection.maxReadBufferLength {")], '''package main

import "fmt"

func main() {
	p := media([]string{"X1"}, [][]byte{frame(0, rtp(1, true, fill(65523, 1))), frame(0, rtp(2, true, fill(10, 2)))}, 2)
	check(same(p.frames(), [][]byte{fill(65523, 1), fill(10, 2)}), "delivered %s", sizes(p.frames()))
	fmt.Println("ok")
}
''')
B("T01-event-buffer-reused","T01","two messages, the later one not longer than the earlier, and an application that keeps the earlier event",
  "The buffer of a delivered message is reused for a later one.",
  [(TCP,"	msg = make([]byte, bufStartPos)\n	copy(msg, buf[:bufStartPos])\n	if 0 != connection.readTimeoutSec {","	if cap(connection.lastMsg) < bufStartPos {\n		connection.lastMsg = make([]byte, bufStartPos)\n	}\n	msg = connection.lastMsg[:bufStartPos]\n	copy(msg, buf[:bufStartPos])\n	if 0 != connection.readTimeoutSec {"),
   (TCP,"	maxReadBufferLength int\n}","	maxReadBufferLength int\n	lastMsg             []byte\n}")], '''package main

'''+CONN_IMPORT+'''
func main() {
	var mu sync.Mutex
	var got [][]byte
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventData {
			mu.Lock()
			got = append(got, e.Data)
			mu.Unlock()
		}
	})
	conn.Run()
	want := [][]byte{frame(0, fill(100, 1)), frame(1, fill(50, 2)), frame(2, fill(30, 3))}
	for _, w := range want {
		srv.Write(w)
	}
	wait(5*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(got) == 3 })
	mu.Lock()
	check(same(got, want), "delivered %s", sizes(got))
}
''')
B("T01-eof-marker-window","T01","a header end marker that follows a partial marker (a line ending in a lone CR before CRLFCRLF) for a protocol with an end marker",
  "The end marker is searched with a matcher that restarts at zero after a mismatch, so a marker that overlaps a partial one is missed.",
  [(TCP,"			if bytes.Compare(strEOF, buf[bufStartPos+curBodyPos-len(strEOF):bufStartPos+curBodyPos]) == 0 {","			if buf[bufStartPos+curBodyPos-1] == strEOF[matched] {\n				matched++\n			} else {\n				matched = 0\n			}\n			if matched == len(strEOF) {"),
   (TCP,"			curBodyPos++\n			if curBodyPos < len(strEOF) {\n				continue\n			}","			curBodyPos++"),
   (TCP,"		curBodyPos := 0\n","		curBodyPos := 0\n		matched := 0\n"),
   (TCP,'	"bufio"\n	"bytes"\n','	"bufio"\n')], '''package main

'''+CONN_IMPORT+'''
func main() {
	var mu sync.Mutex
	var got [][]byte
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventData {
			mu.Lock()
			got = append(got, e.Data)
			mu.Unlock()
		}
	})
	conn.Run()
	want := [][]byte{[]byte("RTSP/1.0 200 OK\\r\\nCSeq: 1\\r\\nX: a\\r\\r\\n\\r\\n"), frame(1, fill(50, 2))}
	for _, w := range want {
		srv.Write(w)
	}
	wait(2*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(got) == 2 })
	mu.Lock()
	check(same(got, want), "delivered %s", sizes(got))
}
''')
B("T02-truncated-message","T02","a connection that ends in the middle of a message",
  "A message cut off by the end of the stream is delivered as if it were complete.",
  [(TCP,"		len, err := connection.connRW.Read(buf[readLen:])\n		if nil != err {\n			return err\n		}","		len, err := connection.connRW.Read(buf[readLen:])\n		if io.EOF == err && 0 != readLen {\n			// nothing more will come\n			return nil\n		}\n		if nil != err {\n			return err\n		}"),
   (TCP,'	"errors"\n	"log"','	"errors"\n	"io"\n	"log"')], '''package main

'''+CONN_IMPORT+'''
func main() {
	var mu sync.Mutex
	var got [][]byte
	ended := make(chan bool, 10)
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventData {
			mu.Lock()
			got = append(got, e.Data)
			mu.Unlock()
		}
		if e.EventType == tcpnetwork.ConnEventDisconnected {
			ended <- true
		}
	})
	conn.Run()
	want := [][]byte{frame(0, fill(100, 1))}
	srv.Write(want[0])
	srv.Write(frame(0, fill(100, 2))[:60])
	srv.Close()
	<-ended
	mu.Lock()
	check(same(got, want), "delivered %s", sizes(got))
}
''')
B("T02-no-event-after-close","T02","a connection that the application closes itself",
  "Disconnection is only reported when the connection was still open, that is when the peer ended it.",
  [(TCP,"		// close the connection\n		connection.close()\n\n		// post event\n		connection.pushEvent(ConnEventDisconnected, nil)","		// close the connection\n		wasOpen := ConnStatusConnected == connection.GetStatus()\n		connection.close()\n\n		// post event\n		if wasOpen {\n			connection.pushEvent(ConnEventDisconnected, nil)\n		}")], '''package main

'''+CONN_IMPORT+'''
func main() {
	for i := 0; i < 40; i++ {
	ended := make(chan bool, 10)
	conn, _ := connect(&rtspclient.RTPStreamProtocol{}, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventDisconnected {
			ended <- true
		}
	})
	conn.Run()
	time.Sleep(10 * time.Millisecond)
	conn.Close()
	select {
	case <-ended:
	case <-time.After(8 * time.Second):
		fail("disconnection is not reported")
	}
	}
}
''')
B("T02-event-before-close","T02","any end of a connection; observable at the moment the event is handled",
  "Disconnection is reported while the transport is still open and the status still says connected.",
  [(TCP,"		// close the connection\n		connection.close()\n\n		// post event\n		connection.pushEvent(ConnEventDisconnected, nil)","		// post event\n		connection.pushEvent(ConnEventDisconnected, nil)\n\n		// close the connection\n		connection.close()")], '''package main

'''+CONN_IMPORT+'''
func main() {
	ended := make(chan int, 10)
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventDisconnected {
			ended <- e.Conn.GetStatus()
		}
	})
	conn.Run()
	time.Sleep(50 * time.Millisecond)
	srv.Close()
	s := <-ended
	check(s == tcpnetwork.ConnStatusDisconnected, "status %d in the event handler", s)
}
''')
B("T03-scratch-copy","T03","two messages sent with a copy requested while the first is still queued",
  "The copy of a message is made into one buffer of the connection, so a later message overwrites a queued one.",
  [(TCP,"		msgCopy := make([]byte, len(msg))\n		copy(msgCopy, msg)\n		buf = msgCopy","		connection.copyBuf = append(connection.copyBuf[:0], msg...)\n		buf = connection.copyBuf"),
   (TCP,"	maxReadBufferLength int\n}","	maxReadBufferLength int\n	copyBuf             []byte\n}")], '''package main

import "io"

'''+CONN_IMPORT+'''
func main() {
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventConnected {
			time.Sleep(200 * time.Millisecond)
		}
	})
	conn.Run()
	a, b := fill(64, 1), fill(64, 9)
	conn.Send(a, true)
	conn.Send(b, true)
	got := make([]byte, 128)
	srv.SetReadDeadline(time.Now().Add(5 * time.Second))
	_, err := io.ReadFull(srv, got)
	check(err == nil && bytes.Equal(got, append(a, b...)), "received %x", got)
}
''')
B("T03-flush-when-idle","T03","a message sent directly before a local close",
  "What was written is only flushed when nothing is queued behind it; the close request counts as queued, so the last messages are lost.",
  [(TCP,"				_, err = connection.connRW.Write(sendMsg)\n				if err != nil {\n					log.Println(\"Conn write error:\", err)\n					return err\n				}\n				err = connection.connRW.Flush()\n				if err != nil {\n					log.Println(\"Conn write error:\", err)\n					return err\n				}","				_, err = connection.connRW.Write(sendMsg)\n				if err != nil {\n					log.Println(\"Conn write error:\", err)\n					return err\n				}\n				if 0 != len(connection.sendMsgQueue) {\n					// more to come, flushed together\n					continue\n				}\n				err = connection.connRW.Flush()\n				if err != nil {\n					log.Println(\"Conn write error:\", err)\n					return err\n				}")], '''package main

import "io"

'''+CONN_IMPORT+'''
func main() {
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventConnected {
			time.Sleep(200 * time.Millisecond)
		}
	})
	conn.Run()
	conn.Send([]byte("hello"), false)
	conn.Close()
	srv.SetReadDeadline(time.Now().Add(8 * time.Second))
	got, _ := io.ReadAll(srv)
	check(string(got) == "hello", "received %q", got)
}
''')
B("T03-header-per-batch","T03","a protocol with a message header and a header that fails... several messages queued at once",
  "The header of a message is left out when another message was queued behind the previous one.",
  [(TCP,"				headerBytes := connection.streamProtocol.SerializeHeader(sendMsg)\n				if nil != headerBytes {","				headerBytes := connection.streamProtocol.SerializeHeader(sendMsg)\n				batched := inBatch\n				inBatch = 0 != len(connection.sendMsgQueue)\n				if nil != headerBytes && !batched {"),
   (TCP,"	for {\n		select {\n		case <-connection.quit:\n			{\n				return nil\n			}\n		case sendMsg","	inBatch := false\n	for {\n		select {\n		case <-connection.quit:\n			{\n				return nil\n			}\n		case sendMsg")], '''package main

import "io"

'''+CONN_IMPORT+'''
type lp struct{}

func (lp) Init()                                   {}
func (lp) GetHeaderLength() int                    { return 1 }
func (lp) UnserializeHeader(h []byte) (int, []byte) { return int(h[0]), nil }
func (lp) SerializeHeader(b []byte) []byte         { return []byte{byte(len(b))} }
func (lp) GetContentLength(b []byte) int           { return 0 }

func main() {
	conn, srv := connect(lp{}, 16, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventConnected {
			time.Sleep(200 * time.Millisecond)
		}
	})
	conn.Run()
	conn.Send([]byte("ab"), false)
	conn.Send([]byte("cde"), false)
	conn.Close()
	srv.SetReadDeadline(time.Now().Add(8 * time.Second))
	got, _ := io.ReadAll(srv)
	check(string(got) == "\\x02ab\\x03cde", "received %q", got)
}
''')
B("R01-describe-loop","R01","a server that answers every DESCRIBE with 401",
  "DESCRIBE is repeated without end while the server answers 401.",
  [(CL,'	if 401 == response.Status && session.username != "" && session.password != "" {','	for 401 == response.Status && session.username != "" && session.password != "" {')], '''package main

import "strings"

func main() {
	n := make(chan int, 1)
	url, l := serve(func(p *peer) {
		for i := 0; ; i++ {
			q := p.request()
			if q == nil || i == 20 {
				n <- i
				return
			}
			p.reply(q, 401, "WWW-Authenticate: Basic realm=\\"r\\"\\r\\n", "")
		}
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(strings.Replace(url, "//", "//u:p@", 1) + "/x")
	check(err != nil, "play succeeds")
	p.Close()
	c := <-n
	check(c <= 3, "%d requests", c)
}
''')
B("R01-shared-control","R01","a description in which two medias have the same control URL",
  "Medias with the control URL of an earlier media are not set up.",
  [(CL,"		rtpIndex := index * 2\n","		if setUp[strTrackURL] {\n			continue\n		}\n		setUp[strTrackURL] = true\n		rtpIndex := index * 2\n"),
   (CL,'	session.rtspContext.sessionID = ""\n	for index, media','	session.rtspContext.sessionID = ""\n	setUp := make(map[string]bool)\n	for index, media')], '''package main

func main() {
	sdp := "v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:t\\r\\nm=audio 0 RTP/AVP 0\\r\\na=control:t\\r\\n"
	n := make(chan int, 1)
	url, l := serve(func(p *peer) {
		p.accept(sdp, "1")
		c := 0
		for _, q := range p.seen {
			if q.method == "SETUP" {
				c++
			}
		}
		n <- c
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	c := <-n
	check(err == nil && c == 2, "%v, %d SETUP", err, c)
}
''')
B("R01-cseq-retry","R01","a DESCRIBE repeated after a 401",
  "The repeated DESCRIBE carries the sequence number of the first one.",
  [(CL,"		session.SendDescribe()\n		response, errorInfo = session.WaitRtspResponse()\n		if nil != errorInfo {\n			return errorInfo\n		}\n	}","		// the same request again\n		session.rtspContext.cseq--\n		session.SendDescribe()\n		response, errorInfo = session.WaitRtspResponse()\n		if nil != errorInfo {\n			return errorInfo\n		}\n	}")], '''package main

import "strings"

func main() {
	seqs := make(chan string, 2)
	url, l := serve(func(p *peer) {
		q := p.request()
		seqs <- q.header["cseq"]
		p.reply(q, 401, "WWW-Authenticate: Basic realm=\\"r\\"\\r\\n", "")
		q = p.request()
		seqs <- q.header["cseq"]
		p.reply(q, 200, "", sdpOf("X1"))
		p.accept("", "1")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(strings.Replace(url, "//", "//u:p@", 1) + "/x")
	check(err == nil, "play: %v", err)
	a, b := <-seqs, <-seqs
	check(a != b, "both requests have CSeq %s", a)
}
''')
B("R02-success-before-status","R02","a server that refuses PLAY",
  "The success event is raised although PLAY was refused.",
  [(CL,"	if 200 != response.Status {\n		return errors.New(\"response error: \" + strconv.Itoa(response.Status))\n	}\n\n	sendRequestSuccess = true\n	return nil","	sendRequestSuccess = true\n	if 200 != response.Status {\n		return errors.New(\"response error: \" + strconv.Itoa(response.Status))\n	}\n\n	return nil")], '''package main

import "github.com/NodeBoy2/rtspclient"

func main() {
	url, l := serve(func(p *peer) {
		for {
			q := p.request()
			if q == nil {
				return
			}
			switch q.method {
			case "DESCRIBE":
				p.reply(q, 200, "", sdpOf("X1"))
			case "PLAY":
				p.reply(q, 455, "", "")
			default:
				p.reply(q, 200, "Session: 1\\r\\n", "")
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err != nil, "play succeeds")
	check(p.count(rtspclient.RtspEventRequestSuccess) == 0 && p.count(rtspclient.RtspEventRequestError) == 1, "events %v", p.events)
	p.Close()
}
''')
B("R02-any-2xx","R02","a server that answers a SETUP with a status such as 202 or 250",
  "Any 2xx status of a SETUP counts as success.",
  [(CL,"		if 200 != response.Status {\n			return errors.New(\"response error: \" + strconv.Itoa(response.Status))\n		}\n","		if 2 != response.Status/100 {\n			return errors.New(\"response error: \" + strconv.Itoa(response.Status))\n		}\n")], '''package main

func main() {
	url, l := serve(func(p *peer) {
		for {
			q := p.request()
			if q == nil {
				return
			}
			switch q.method {
			case "DESCRIBE":
				p.reply(q, 200, "", sdpOf("X1"))
			case "SETUP":
				p.reply(q, 250, "Session: 1\\r\\n", "")
			default:
				p.reply(q, 200, "", "")
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") != nil, "play succeeds although a media was not set up")
	p.Close()
}
''')
B("R02-no-event-when-describe-fails","R02","a session that is played while it has no connection yet and the server ends the connection before it answers",
  "No request event is raised when the connection ends before the first answer.",
  [(CL,"		if sendRequestSuccess == false {","		if nil == response && nil == session.sdpInfo {\n			return\n		}\n		if sendRequestSuccess == false {")], '''package main

import (
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func main() {
	url, l := serve(func(p *peer) { p.request() })
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") != nil, "play succeeds")
	wait(3*time.Second, func() bool { return p.count(rtspclient.RtspEventRequestError) == 1 })
	check(p.count(rtspclient.RtspEventRequestError) == 1, "events %v", p.events)
}
''')
B("R03-control-upper-case","R03","a control URL written with an upper case scheme",
  "A control URL that starts with RTSP:// is appended to the request URL instead of being used as it is.",
  [(CL,'("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4]))','"rtsp" != string(strTrackURL[:4])')], '''package main

func main() {
	n := make(chan string, 1)
	control := "RTSP://127.0.0.1/media/1"
	sdp := "v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:" + control + "\\r\\n"
	url, l := serve(func(p *peer) {
		p.accept(sdp, "1")
		for _, q := range p.seen {
			if q.method == "SETUP" {
				n <- q.url
			}
		}
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	p.Play(url + "/x")
	u := <-n
	check(u == control, "SETUP %s", u)
}
''')
B("R03-first-session-id","R03","a server that issues another session id with a later SETUP",
  "The first session id is kept instead of the latest one.",
  [(CL,"			session.rtspContext.sessionID = response.sessionID\n","			if \"\" == session.rtspContext.sessionID {\n				session.rtspContext.sessionID = response.sessionID\n			}\n")], '''package main

import "fmt"

func main() {
	id := make(chan string, 1)
	url, l := serve(func(p *peer) {
		n := 0
		for {
			q := p.request()
			if q == nil {
				return
			}
			switch q.method {
			case "DESCRIBE":
				p.reply(q, 200, "", sdpOf("X1", "X2"))
			case "SETUP":
				n++
				p.reply(q, 200, fmt.Sprintf("Session: s%d\\r\\n", n), "")
			case "PLAY":
				id <- q.header["session"]
				p.reply(q, 200, "", "")
			default:
				p.reply(q, 200, "", "")
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	p.Play(url + "/x")
	s := <-id
	check(s == "s2", "PLAY with session %q", s)
	p.Close()
}
''')
B("R03-negative-start","R03","a PLAY with a negative start time (seconds before live)",
  "The Range header is left out.",
  [(RQ,"	if inStartTimeSec != 0 {","	if inStartTimeSec > 0 {")], '''package main

func main() {
	rng := make(chan string, 1)
	url, l := serve(func(p *peer) {
		p.accept(sdpOf("X1"), "1")
		q := p.until("PLAY")
		if q == nil {
			rng <- "no PLAY"
			return
		}
		rng <- q.header["range"]
		p.reply(q, 200, "", "")
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	p.SendPlay(-30, 1)
	p.WaitRtspResponse()
	r := <-rng
	check(r == "npt=-30.0-", "Range: %q", r)
}
''')
B("R03-cseq-wraps","R03","more than 255 requests on one session",
  "The sequence number starts again at zero after 255 requests.",
  [(RQ,"	session.rtspContext.cseq++","	session.rtspContext.cseq = (session.rtspContext.cseq + 1) & 0xff")], '''package main

import "fmt"

func main() {
	bad := make(chan string, 1)
	url, l := serve(func(p *peer) {
		first := -1
		for i := 0; ; i++ {
			q := p.request()
			if q == nil {
				bad <- ""
				return
			}
			var n int
			fmt.Sscan(q.header["cseq"], &n)
			if i == 0 {
				first = n
			} else if n != first+i {
				bad <- fmt.Sprintf("request %d has CSeq %d", i, n)
				return
			}
			if q.method == "DESCRIBE" {
				p.reply(q, 200, "", sdpOf("X1"))
			} else {
				p.reply(q, 200, "Session: 1\\r\\n", "")
			}
		}
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	for i := 0; i < 300; i++ {
		p.SendPause()
		if _, err := p.WaitRtspResponse(); err != nil {
			break
		}
	}
	p.Close()
	s := <-bad
	check(s == "", "%s", s)
}
''')
B("R03-bandwidth-speed","R03","a PLAY with speed 0 (or negative, or above 1)",
  "The Speed header is left out for speeds below 1.",
  [(RQ,"	if inSpeed != 1 {","	if inSpeed > 1 {")], '''package main

import "strings"

func main() {
	sp := make(chan string, 1)
	url, l := serve(func(p *peer) {
		p.accept(sdpOf("X1"), "1")
		q := p.until("PLAY")
		if q == nil {
			sp <- "no PLAY"
			return
		}
		sp <- q.header["speed"]
		p.reply(q, 200, "", "")
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	p.SendPlay(0, -2)
	p.WaitRtspResponse()
	r := <-sp
	check(strings.HasPrefix(r, "-2"), "Speed: %q", r)
}
''')
B("R04-url-base64","R04","Basic authentication with credentials whose encoding contains + or /",
  "The credentials are encoded with the URL alphabet.",
  [(AU,"base64.StdEncoding","base64.URLEncoding")], '''package main

import (
	"encoding/base64"
	"strings"
)

func main() {
	auth := make(chan string, 1)
	url, l := serve(func(p *peer) {
		q := p.request()
		p.reply(q, 401, "WWW-Authenticate: Basic realm=\\"r\\"\\r\\n", "")
		q = p.request()
		auth <- q.header["authorization"]
		p.reply(q, 404, "", "")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	p.Play(strings.Replace(url, "//", "//u%3E%3F%7E:p%3F%3F%3E@", 1) + "/x")
	a := <-auth
	check(a == "Basic "+base64.StdEncoding.EncodeToString([]byte("u>?~:p??>")), "Authorization: %s", a)
	p.Close()
}
''')
B("R04-basic-preferred","R04","a server that offers both Basic and Digest",
  "Basic is used, which puts the password on the wire.",
  [(CL,"		if nil != response.digestAuthenticator {\n			session.rtspContext.authenicator = response.digestAuthenticator\n		} else if nil != response.basicAuthenticator {\n			session.rtspContext.authenicator = response.basicAuthenticator\n		}","		if nil != response.basicAuthenticator {\n			session.rtspContext.authenicator = response.basicAuthenticator\n		} else if nil != response.digestAuthenticator {\n			session.rtspContext.authenicator = response.digestAuthenticator\n		}")], '''package main

import "strings"

func main() {
	auth := make(chan string, 1)
	url, l := serve(func(p *peer) {
		q := p.request()
		p.reply(q, 401, "WWW-Authenticate: Digest realm=\\"r\\", nonce=\\"n\\"\\r\\nWWW-Authenticate: Basic realm=\\"r\\"\\r\\n", "")
		q = p.request()
		auth <- q.header["authorization"]
		p.reply(q, 404, "", "")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	p.Play(strings.Replace(url, "//", "//u:p@", 1) + "/x")
	a := <-auth
	check(strings.HasPrefix(a, "Digest "), "Authorization: %s", a)
	p.Close()
}
''')
B("R04-pause-method","R04","a PAUSE on a session that uses Digest",
  "The answer to the challenge of a PAUSE is computed for another method.",
  [(RQ,'createAuthenticatorString("PAUSE",','createAuthenticatorString("PLAY",')], '''package main

import (
	"crypto/md5"
	"fmt"
	"strings"
)

func h(s string) string { return fmt.Sprintf("%x", md5.Sum([]byte(s))) }

func main() {
	res := make(chan string, 1)
	url, l := serve(func(p *peer) {
		q := p.request()
		p.reply(q, 401, "WWW-Authenticate: Digest realm=\\"r\\", nonce=\\"n\\"\\r\\n", "")
		p.accept(sdpOf("X1"), "1")
		q = p.until("PAUSE")
		if q == nil {
			res <- "no PAUSE"
			return
		}
		want := h(h("u:r:p") + ":n:" + h("PAUSE:"+q.url))
		if strings.Contains(q.header["authorization"], want) {
			res <- ""
		} else {
			res <- q.raw
		}
		p.reply(q, 200, "", "")
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(strings.Replace(url, "//", "//u:p@", 1)+"/x") == nil, "play")
	p.SendPause()
	p.WaitRtspResponse()
	r := <-res
	check(r == "", "%s", r)
}
''')
B("R05-userinfo-in-url","R05","credentials with percent-encoded characters",
  "User information is cut out of the given URL by replacing its decoded form, so encoded user information stays in the request URL.",
  [(CL,"	urlInfo.User = nil\n	// a space would end the URL in the request line\n	urlInfo.RawQuery = strings.Replace(urlInfo.RawQuery, \" \", \"%20\", -1)\n	session.rtspContext.rtspURL = urlInfo.String()","	session.rtspContext.rtspURL = rtspURL\n	if nil != urlInfo.User {\n		session.rtspContext.rtspURL = strings.Replace(rtspURL, session.username+\":\"+session.password+\"@\", \"\", 1)\n	}")], '''package main

import "strings"

func main() {
	u := make(chan string, 1)
	url, l := serve(func(p *peer) {
		q := p.request()
		u <- q.url
		p.reply(q, 404, "", "")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	p.Play(strings.Replace(url, "//", "//us%65r:p%40ss@", 1) + "/x?a=b")
	got := <-u
	check(got == url+"/x?a=b", "DESCRIBE %s", got)
	p.Close()
}
''')
B("R05-path-decoded","R05","a URL whose path contains percent-encoded characters",
  "The request URL carries the decoded path.",
  [(CL,"	session.rtspContext.rtspURL = urlInfo.String()\n","	session.rtspContext.rtspURL = urlInfo.Scheme + \"://\" + urlInfo.Host + urlInfo.Path\n	if \"\" != urlInfo.RawQuery {\n		session.rtspContext.rtspURL += \"?\" + urlInfo.RawQuery\n	}\n")], '''package main

func main() {
	u := make(chan string, 1)
	url, l := serve(func(p *peer) {
		q := p.request()
		u <- q.url
		p.reply(q, 404, "", "")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	p.Play(url + "/a%2Fb%3Fc/d?e=f")
	got := <-u
	check(got == url+"/a%2Fb%3Fc/d?e=f", "DESCRIBE %s", got)
	p.Close()
}
''')
B("R06-last-empty-line","R06","a body that contains an empty line",
  "The body is taken to start after the last empty line of the response.",
  [(RP,'strings.Index(string(response), "\\r\\n\\r\\n")','strings.LastIndex(string(response), "\\r\\n\\r\\n")')], '''package main

func main() {
	sdp := "v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\nt=0 0\\r\\n\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:t\\r\\n"
	url, l := serve(func(p *peer) {
		p.accept(sdp, "1")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err == nil, "play: %v", err)
	p.Close()
}
''')
B("R06-status-three-digits","R06","a response whose protocol version is not three characters long... a reason phrase that starts with digits",
  "The status is read up to the first character that is no digit, skipping spaces.",
  [(RP,"	context.Status, _ = strconv.Atoi(strStatus)","	if fields := strings.Fields(string(rtspResponse)); len(fields) > 2 && \"\" == strings.Trim(fields[2], \"0123456789\") {\n		// status with sub-status\n		strStatus = fields[2]\n	}\n	context.Status, _ = strconv.Atoi(strStatus)")], '''package main

import "github.com/NodeBoy2/rtspclient"

func main() {
	c := &rtspclient.RtspResponseContext{}
	err := rtspclient.ParserRtspResponse([]byte("RTSP/1.0 200 200\\r\\nCSeq: 1\\r\\n\\r\\n"), c)
	check(err == nil && c.Status == 200, "%v %d", err, c.Status)
	err = rtspclient.ParserRtspResponse([]byte("RTSP/1.0 404 200 tries\\r\\nCSeq: 1\\r\\n\\r\\n"), c)
	check(err == nil && c.Status == 404, "%v %d", err, c.Status)
}
''')
B("L01-send-waits","L01","a peer that stops reading and more messages than the queue holds",
  "Send waits for room in the queue without a limit.",
  [(TCP,"	case connection.sendMsgQueue <- msg:\n		{\n			// nothing\n		}\n	case <-connection.quit:\n		{\n			// already closed\n		}\n	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):\n		{\n			// timeout, close the connection\n			connection.close()\n			log.Printf(\"Conn send message timeout, close it\")\n		}\n	}\n}\n\n// Send","	case connection.sendMsgQueue <- msg:\n		{\n			// nothing\n		}\n	case <-connection.quit:\n		{\n			// already closed\n		}\n	}\n}\n\n// Send")], '''package main

'''+CONN_IMPORT+'''
func main() {
	conn, _ := connect(&rtspclient.RTPStreamProtocol{}, 2, func(e *tcpnetwork.ConnEvent) {})
	conn.Run()
	done := make(chan bool)
	go func() {
		for i := 0; i < 20; i++ {
			conn.Send(make([]byte, 4<<20), false)
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(12 * time.Second):
		fail("Send does not return")
	}
}
''')
B("L02-unparsable-response-ends","L02","an unsolicited response that cannot be parsed, in the middle of the media",
  "A response that cannot be interpreted ends the connection.",
  [(PR,"		log.Print(err)\n		return 0\n","		log.Print(err)\n		return -1\n")], '''package main

import "fmt"

func main() {
	p := media([]string{"X1"}, [][]byte{frame(0, rtp(0, true, fill(100, 2))), []byte("RTSP/1.\\r\\n\\r\\n"), frame(0, rtp(2, true, fill(100, 3)))}, 2)
	check(same(p.frames(), [][]byte{fill(100, 2), fill(100, 3)}), "delivered %s", sizes(p.frames()))
	fmt.Println("ok")
}
''')
B("L03-parser-pool","L03","a session that ends while a fragmented NAL unit is incomplete, and a later session or play",
  "Media buffers are kept for the next connection together with how far they were filled.",
  [(CL,"		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)","		if old, ok := session.rtpParsers[media.CodecName+strconv.Itoa(rtpIndex)]; ok {\n			// its buffer is large\n			session.rtpChannelMap[rtpIndex] = old\n		} else {\n			session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)\n			session.rtpParsers[media.CodecName+strconv.Itoa(rtpIndex)] = session.rtpChannelMap[rtpIndex]\n		}"),
   (CL,"	RtpMediaMap        map[int]MediaSubsession\n}","	RtpMediaMap        map[int]MediaSubsession\n	rtpParsers         map[string]*RtpParser\n}"),
   (CL,"		RtpMediaMap:        make(map[int]MediaSubsession),\n	}","		RtpMediaMap:        make(map[int]MediaSubsession),\n		rtpParsers:         make(map[string]*RtpParser),\n	}")], '''package main

import (
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func main() {
	n := 0
	url, l := serve(func(p *peer) {
		n++
		p.accept(sdpOf("H264"), "1")
		if n == 1 {
			p.send(frame(0, rtp(1, false, []byte{0x7c, 0x85, 1, 2, 3})))
			time.Sleep(100 * time.Millisecond)
			return
		}
		p.send(frame(0, rtp(1, true, []byte{0x65, 9, 9})))
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	wait(5*time.Second, func() bool { return p.count(rtspclient.RtspEventDisconnected) == 1 })
	check(p.Play(url+"/x") == nil, "play again")
	wait(3*time.Second, func() bool { return len(p.frames()) == 1 })
	check(same(p.frames(), [][]byte{{0x65, 9, 9}}), "delivered %s", sizes(p.frames()))
}
''')
B("L03-stale-authenticator","L03","a session played with credentials, then played at a server without authentication",
  "The authenticator of the earlier connection is used for the next one.",
  [(CL,"	session.sdpInfo = nil\n	session.rtspContext.authenicator = nil\n","	session.sdpInfo = nil\n")], '''package main

import (
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func main() {
	n := 0
	auth := make(chan string, 1)
	url, l := serve(func(p *peer) {
		n++
		if n == 1 {
			q := p.request()
			p.reply(q, 401, "WWW-Authenticate: Basic realm=\\"r\\"\\r\\n", "")
			p.accept(sdpOf("X1"), "1")
			return
		}
		q := p.request()
		auth <- q.header["authorization"]
		p.reply(q, 404, "", "")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	check(p.Play(strings.Replace(url, "//", "//u:p@", 1)+"/x") == nil, "play")
	wait(5*time.Second, func() bool { return p.count(rtspclient.RtspEventDisconnected) == 1 })
	p.Play(url + "/x")
	a := <-auth
	check(a == "", "Authorization: %s", a)
	p.Close()
}
''')
