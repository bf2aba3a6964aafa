from bugs3 import *

IMP='''import (
	"runtime"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

var _ = runtime.GC
var _ = time.Now
var _ *rtspclient.RtspData
'''
HEAP='''
func heap() int64 {
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// grows fails if more than limit bytes stay behind when f is done.
func grows(limit int64, what string, f func()) {
	a := heap()
	f()
	time.Sleep(200 * time.Millisecond)
	b := heap()
	check(b-a < limit, "%s: %d bytes stay behind", what, b-a)
}
'''
B("C02-buffer-cache","C02","two sessions whose fragmented units arrive at the same time on the same track number",
  "The reassembly buffer of a track comes from a cache by track number that all sessions share.",
  [("rtpparser.go","func newRtpParser(codecName string) *RtpParser {\n	return &RtpParser{\n		payloadBuf:       make([]byte, MaxPayloadLength),","var (\n	trackBuffers     = make(map[int][]byte)\n	trackBuffersLock sync.Mutex\n)\n\nfunc trackBuffer(track int) []byte {\n	trackBuffersLock.Lock()\n	defer trackBuffersLock.Unlock()\n	if nil == trackBuffers[track] {\n		trackBuffers[track] = make([]byte, MaxPayloadLength)\n	}\n	return trackBuffers[track]\n}\n\nfunc newRtpParser(codecName string, track int) *RtpParser {\n	return &RtpParser{\n		payloadBuf:       trackBuffer(track),"),
   ("rtpparser.go","	\"strings\"\n","	\"strings\"\n	\"sync\"\n"),
   (CL,"newRtpParser(media.CodecName)","newRtpParser(media.CodecName, index)")],
 M+IMP+'''
func main() {
	turn := make(chan int, 1)
	play := func(seed byte, first bool) *player {
		url, _ := serve(func(p *peer) {
			if !p.accept(sdpOf("H264"), "1") {
				return
			}
			if !first {
				<-turn
			}
			p.send(frame(0, rtp(1, false, append([]byte{0x7c, 0x85}, fill(500, seed)...))))
			time.Sleep(200 * time.Millisecond)
			if first {
				turn <- 1
				time.Sleep(time.Second)
			}
			p.send(frame(0, rtp(2, true, append([]byte{0x7c, 0x45}, fill(500, seed+1)...))))
			p.request()
		})
		p := newPlayer()
		if err := p.Play(url + "/x"); err != nil {
			fail("play: %v", err)
		}
		return p
	}
	a, b := play(1, true), play(99, false)
	for i, p := range []*player{a, b} {
		seed := []byte{1, 99}[i]
		wait(5*time.Second, func() bool { return len(p.frames()) > 0 })
		want := append(append([]byte{0x65}, fill(500, seed)...), fill(500, seed+1)...)
		check(same(p.frames(), [][]byte{want}), "session %d: %s", i, sizes(p.frames()))
	}
}
''')
B("C02-handler-lock","C02","the data handler of one session blocks while another session receives media",
  "Media of all sessions is handed over under one lock.",
  [(CL,"				session.dataHandle(newRtpData(channelNum, session, nalu))".replace("newRtpData","newRtspData"),"				session.deliver(newRtspData(channelNum, session, nalu))"),
   (CL,"func (session *RtspClientSession) parsingData(","var deliverLock sync.Mutex\n\n// deliver hands over one unit, applications may count on one call at a time\nfunc (session *RtspClientSession) deliver(data *RtspData) {\n	deliverLock.Lock()\n	defer deliverLock.Unlock()\n	session.dataHandle(data)\n}\n\nfunc (session *RtspClientSession) parsingData(")],
 M+IMP+'''
func main() {
	url, _ := serve(func(p *peer) {
		if p.accept(sdpOf("PCMU"), "1") {
			p.send(frame(0, rtp(1, true, fill(50, 1))))
			p.request()
		}
	})
	in := make(chan bool, 1)
	hold := make(chan bool)
	a := rtspclient.NewRtspClientSession(func(*rtspclient.RtspData) { in <- true; <-hold }, func(*rtspclient.RtspEvent) {})
	if err := a.Play(url + "/a"); err != nil {
		fail("play: %v", err)
	}
	<-in
	b := newPlayer()
	if err := b.Play(url + "/b"); err != nil {
		fail("play: %v", err)
	}
	check(wait(3*time.Second, func() bool { return len(b.frames()) > 0 }), "the second session gets no media while the handler of the first one blocks")
}
''')
B("C02-sequence","C02","two sessions that send requests in turn",
  "Sequence numbers come from one counter of the process.",
  [(RQ,"	session.rtspContext.cseq++\n","	session.rtspContext.cseq = nextSequence(session.rtspContext.cseq)\n"),
   (RQ,"func (session *RtspClientSession) sendRequst(","var lastSequence int32\n\n// nextSequence gives the number of the next request\nfunc nextSequence(sequence int) int {\n	last := int(atomic.LoadInt32(&lastSequence))\n	if last <= sequence || 0 == sequence {\n		last = sequence\n	}\n	atomic.StoreInt32(&lastSequence, int32(last+1))\n	return last + 1\n}\n\nfunc (session *RtspClientSession) sendRequst("),
   (RQ,'	"log"\n','	"log"\n	"sync/atomic"\n')],
 M+IMP.replace('import (','import (\n	"strconv"')+'''
func main() {
	n := make(chan int, 100)
	url, _ := serve(func(p *peer) {
		for {
			q := p.request()
			if q == nil {
				return
			}
			k, _ := strconv.Atoi(q.header["cseq"])
			if q.url[len(q.url)-1] == 'a' && q.method == "PAUSE" || q.method == "PLAY" && q.url[len(q.url)-1] == 'a' {
				n <- k
			}
			body := ""
			if q.method == "DESCRIBE" {
				body = sdpOf("PCMU")
			}
			p.reply(q, 200, "Session: 1\\r\\n", body)
		}
	})
	a, b := newPlayer(), newPlayer()
	check(a.Play(url+"/a") == nil, "play")
	last := <-n
	check(b.Play(url+"/b") == nil, "play")
	pause := func(p *player) {
		p.SendPause()
		p.WaitRtspResponse()
	}
	for i := 0; i < 5; i++ {
		pause(b)
		pause(b)
		pause(a)
		k := <-n
		check(k == last+1, "sequence number %d after %d", k, last)
		last = k
	}
}
''')
B("C02-play-limit","C02","more than two play attempts at the same time, one of which waits for a slow server",
  "Only two sessions at a time do their handshake, the others wait.",
  [(CL,"func (session *RtspClientSession) sendRequest() error {\n	var response","var handshakes = make(chan bool, 2)\n\nfunc (session *RtspClientSession) sendRequest() error {\n	// spare the cameras\n	handshakes <- true\n	defer func() { <-handshakes }()\n\n	var response"),
   (CL,"	sendRequestSuccess := false\n","	sendRequestSuccess := false // until PLAY is answered\n")],
 M+IMP+'''
func main() {
	silent, _ := serve(func(p *peer) { p.request(); time.Sleep(20 * time.Second) })
	good, _ := serve(func(p *peer) { p.accept(sdpOf("PCMU"), "1"); p.request() })
	for i := 0; i < 3; i++ {
		go newPlayer().Play(silent + "/x")
	}
	time.Sleep(500 * time.Millisecond)
	t := time.Now()
	err := newPlayer().Play(good + "/x")
	check(err == nil && time.Since(t) < time.Second, "play took %v beside slow ones: %v", time.Since(t), err)
}
''')
B("C02-credentials","C02","a session of another user on the same server plays at the same time",
  "The challenge and the user of a server are kept for all sessions while one of them is connected.",
  [(CL,"		if nil != session.rtspContext.authenicator {\n			session.rtspContext.authenicator.username = session.username\n			session.rtspContext.authenicator.password = session.password\n		}\n","		if nil != session.rtspContext.authenicator {\n			session.rtspContext.authenicator.username = session.username\n			session.rtspContext.authenicator.password = session.password\n			if known, loaded := logins.LoadOrStore(session.address, session.rtspContext.authenicator); loaded && known.(*Authenticator).authenicatorType == session.rtspContext.authenicator.authenicatorType {\n				session.rtspContext.authenicator = known.(*Authenticator)\n			}\n			defer logins.Delete(session.address)\n		}\n"),
   (CL,"func (session *RtspClientSession) sendRequest() error {\n","// logins are the users of the servers\nvar logins sync.Map\n\nfunc (session *RtspClientSession) sendRequest() error {\n")],
 M+IMP.replace('import (','import (\n	"strings"')+'''
func main() {
	auths := make(chan string, 10)
	url, _ := serve(func(p *peer) {
		q := p.request()
		p.reply(q, 401, "WWW-Authenticate: Digest realm=\\"r\\", nonce=\\"n\\"\\r\\n", "")
		q = p.request()
		auths <- q.url + " " + q.header["authorization"]
		time.Sleep(time.Second)
		p.reply(q, 404, "", "")
	})
	login := func(user string) string { return strings.Replace(url, "rtsp://", "rtsp://"+user+":pw@", 1) + "/" + user }
	go newPlayer().Play(login("anna"))
	time.Sleep(300 * time.Millisecond)
	go newPlayer().Play(login("bert"))
	for i := 0; i < 2; i++ {
		a := <-auths
		user := "anna"
		if strings.Contains(a, "/bert ") {
			user = "bert"
		}
		check(strings.Contains(a, "username=\\""+user+"\\""), "%s", a)
	}
}
''')
B("M01-request-log","M01","thousands of control requests on one session",
  "A session keeps all its requests.",
  [(RQ,"	session.rtspContext.cseq++\n","	session.rtspContext.cseq++\n	session.rtspContext.history = append(session.rtspContext.history, string(request))\n"),
   (RQ,"	bandwidth    int //bps\n","	bandwidth    int //bps\n	history      []string\n"),
   (RQ,"	session.rtspRequestInitial = false\n","	session.rtspRequestInitial = false // until the answer was fetched\n")],
 M+IMP+HEAP+'''
func main() {
	url, _ := serve(func(p *peer) {
		if p.accept(sdpOf("PCMU"), "1") {
			for {
				q := p.request()
				if q == nil {
					return
				}
				p.seen = nil
				p.reply(q, 200, "", "")
			}
		}
	})
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	f := func() {
		for i := 0; i < 20000; i++ {
			p.SendPause()
			p.WaitRtspResponse()
		}
	}
	f()
	grows(1<<20, "twenty thousand requests", f)
	runtime.KeepAlive(p)
}
''')
B("M01-timestamps","M01","a long session",
  "A parser counts the packets of each timestamp it ever saw.",
  [("rtpparser.go","	rtpParser.isMarkFrame, header, payload = rtpParser.rtpSourceHandler.SplitHeader(src)\n","	rtpParser.isMarkFrame, header, payload = rtpParser.rtpSourceHandler.SplitHeader(src)\n	if len(src) >= RtpHeaderLen {\n		rtpParser.packets[string(src[4:8])]++\n	}\n"),
   ("rtpparser.go","	isMarkFrame      bool\n}","	isMarkFrame      bool\n	packets          map[string]int // by timestamp\n}"),
   ("rtpparser.go","		payloadLen:       0,\n","		payloadLen:       0,\n		packets:          make(map[string]int),\n")],
 M+IMP+HEAP+'''
func main() {
	more := make(chan int)
	url, _ := serve(func(p *peer) {
		if p.accept(sdpOf("PCMU"), "1") {
			n := 0
			for k := range more {
				for ; k > 0; k-- {
					n++
					p.send(frame(0, rtp(n, true, fill(50, 1))))
				}
			}
		}
	})
	got := 0
	s := rtspclient.NewRtspClientSession(func(*rtspclient.RtspData) { got++ }, func(*rtspclient.RtspEvent) {})
	check(s.Play(url+"/x") == nil, "play")
	more <- 10
	time.Sleep(300 * time.Millisecond)
	grows(2<<20, "hundred thousand packets", func() { more <- 100000; more <- 0; time.Sleep(time.Second) })
	runtime.KeepAlive(s)
}
''')
B("M01-session-list","M01","sessions whose server ends the connection",
  "All playing sessions are in a list that only Close takes them from.",
  [(CL,"	sendRequestSuccess = true\n	return nil\n","	sendRequestSuccess = true\n	playing.Store(session, true)\n	return nil\n"),
   (CL,"func (session *RtspClientSession) Close() {\n","// playing are the sessions in use\nvar playing sync.Map\n\nfunc (session *RtspClientSession) Close() {\n	playing.Delete(session)\n")],
 M+IMP+HEAP+'''
func main() {
	url, _ := serve(func(p *peer) { p.accept(sdpOf("PCMU"), "1") })
	one := func() {
		p := newPlayer()
		check(p.Play(url+"/x") == nil, "play")
		check(wait(5*time.Second, func() bool { return p.count(rtspclient.RtspEventDisconnected) > 0 }), "no end")
	}
	one()
	grows(20<<20, "ten sessions", func() {
		for i := 0; i < 10; i++ {
			one()
		}
	})
}
''')
B("M01-send-watch","M01","many messages on one connection",
  "Each message leaves a goroutine that ends with the connection only.",
  [(TCP,"	connection.sendRaw(buf)\n","	go func() {\n		<-connection.quit\n		buf = nil // give it back\n	}()\n	connection.sendRaw(buf)\n"),
   (TCP,"	buf := msg\n	if needCopy {","	buf := msg // the caller's\n	if needCopy {")],
 M+IMP+'''
func main() {
	url, _ := serve(func(p *peer) {
		if p.accept(sdpOf("PCMU"), "1") {
			for {
				q := p.request()
				if q == nil {
					return
				}
				p.reply(q, 200, "", "")
			}
		}
	})
	p := newPlayer()
	check(p.Play(url+"/x") == nil, "play")
	n := runtime.NumGoroutine()
	for i := 0; i < 200; i++ {
		p.SendPause()
		p.WaitRtspResponse()
	}
	time.Sleep(300 * time.Millisecond)
	check(runtime.NumGoroutine() < n+20, "%d goroutines, %d before 200 requests", runtime.NumGoroutine(), n)
}
''')
B("M01-event-queue","M01","an application that does not take its media while the server goes on sending",
  "Events wait in a list of any length instead of holding the server back.",
  [(TCP,"	connection.eventHandler(newConnEvent(eventType, connection, data))\n","	connection.waitingLock.Lock()\n	connection.waiting = append(connection.waiting, newConnEvent(eventType, connection, data))\n	first := 1 == len(connection.waiting)\n	connection.waitingLock.Unlock()\n	if first {\n		go connection.deliver()\n	}\n}\n\n// deliver hands over what waits\nfunc (connection *Connection) deliver() {\n	for {\n		connection.waitingLock.Lock()\n		event := connection.waiting[0]\n		connection.waitingLock.Unlock()\n		connection.eventHandler(event)\n		connection.waitingLock.Lock()\n		connection.waiting = connection.waiting[1:]\n		n := len(connection.waiting)\n		connection.waitingLock.Unlock()\n		if 0 == n {\n			return\n		}\n	}\n"),
   (TCP,"	maxReadBufferLength int\n}","	maxReadBufferLength int\n	waiting             []*ConnEvent\n	waitingLock         sync.Mutex\n}")],
 M+IMP+HEAP+'''
func main() {
	done := make(chan bool)
	url, _ := serve(func(p *peer) {
		if p.accept(sdpOf("PCMU"), "1") {
			p.SetWriteDeadline(time.Now().Add(2 * time.Second))
			b := frame(0, rtp(1, true, fill(60000, 1)))
			for i := 0; i < 2000; i++ {
				if _, err := p.Write(b); err != nil {
					break
				}
			}
			done <- true
		}
	})
	hold := make(chan bool)
	s := rtspclient.NewRtspClientSession(func(*rtspclient.RtspData) { <-hold }, func(*rtspclient.RtspEvent) {})
	grows(40<<20, "120 MB that are not taken", func() {
		check(s.Play(url+"/x") == nil, "play")
		<-done
	})
	runtime.KeepAlive(s)
	close(hold)
}
''')
B("D05-keep-alive","D05","a packet without payload between the fragments of a unit",
  "A packet without payload ends the unit that is being put together.",
  [("rtpparser.go","	nalu := payload[naluHeaderSize:naluSize]\n","	nalu := payload[naluHeaderSize:naluSize]\n	if 0 == len(nalu) {\n		rtpParser.isMarkFrame = true\n	}\n")],
 M+'''
func main() {
	a, b := fill(300, 1), fill(300, 2)
	p := media([]string{"H264"}, [][]byte{
		frame(0, rtp(1, false, append([]byte{0x7c, 0x85}, a...))),
		frame(0, rtp(2, false, nil)),
		frame(0, rtp(3, true, append([]byte{0x7c, 0x45}, b...))),
	}, 1)
	want := append(append([]byte{0x65}, a...), b...)
	check(same(p.frames(), [][]byte{want}), "%s", sizes(p.frames()))
}
''')
B("T01-slow-application","T01","more than a thousand messages while the application is busy with one of them",
  "Messages that the application is too slow for are dropped when a thousand wait.",
  [(TCP,"	connection.eventHandler(newConnEvent(eventType, connection, data))\n","	event := newConnEvent(eventType, connection, data)\n	if ConnEventData != eventType {\n		connection.events <- event\n		return\n	}\n	select {\n	case connection.events <- event:\n	default:\n		log.Println(\"Application is too slow\")\n	}\n}\n\nfunc (connection *Connection) routineEvents() {\n	for event := range connection.events {\n		connection.eventHandler(event)\n		if ConnEventDisconnected == event.EventType {\n			return\n		}\n	}\n"),
   (TCP,"	go connection.routineMain()\n","	connection.events = make(chan *ConnEvent, 1000)\n	go connection.routineEvents()\n	go connection.routineMain()\n"),
   (TCP,"	maxReadBufferLength int\n}","	maxReadBufferLength int\n	events              chan *ConnEvent\n}")],
 M+CONN_IMPORT+'''
func main() {
	n := 0
	done := make(chan bool)
	conn, srv := connect(&rtspclient.RTPStreamProtocol{}, 10, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventData {
			if n == 0 {
				time.Sleep(time.Second)
			}
			n++
		}
		if e.EventType == tcpnetwork.ConnEventDisconnected {
			close(done)
		}
	})
	conn.Run()
	for i := 0; i < 3000; i++ {
		srv.Write(frame(0, fill(20, byte(i))))
	}
	srv.Close()
	<-done
	check(n == 3000, "%d of 3000 messages", n)
}
''')
