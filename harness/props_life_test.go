package vharness

import (
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func init() {
	register(&prop{id: "L01", level: "fault_enumeration", quick: 4000, thorough: 100000, bubble: true, run: func(c *Ctx) { runLife(c, false) },
		rule: "a random server fault at a random step of the handshake, of a control request or of the teardown; every call timed on a virtual clock, a few on real sockets; non-trivial: every case",
		min: map[string]int64{"play_timed": 700, "close_timed": 700, "control_timed": 300, "fault_silence": 50, "fault_partial": 50, "fault_trickle": 50, "fault_garbage": 50, "fault_flood": 50,
			"fault_stall": 50, "fault_eof": 50, "fault_status": 50, "websocket": 250, "dial_failed": 80, "silent_upgrade": 30, "conn_close_timed": 150, "conn_send_timed": 300, "handler_close": 100, "real_sockets": 4, "stalled_ws": 4, "repeated_attempts": 100}})
	register(&prop{id: "L04", level: "fault_enumeration", quick: 4000, thorough: 100000, bubble: true, run: func(c *Ctx) { runLife(c, true) },
		rule: "the same fault matrix; after the end the goroutines of the process and the transport are inspected; non-trivial: every case",
		min:  map[string]int64{"inspected": 1000, "fault_silence": 50, "fault_stall": 50, "fault_eof": 50, "fault_flood": 50, "websocket": 250, "dial_failed": 80, "stalled_ws": 8}})
	register(&prop{id: "L02", quick: 6000, thorough: 200000, bubble: true, run: runL02,
		rule: "unsolicited, duplicate and unparsable responses between media and around control requests; non-trivial: at least one injected",
		min:  map[string]int64{"injected": 10000, "units": 10000, "controls": 1000, "after_failure": 100, "stray": 1500, "stray_waiting": 500}})
	register(&prop{id: "L03", quick: 1600, thorough: 60000, bubble: true, run: runL03,
		rule: "2-5 random connections on one session, each compared with the same connection on a new session; non-trivial: every case",
		min:  map[string]int64{"replays": 2000, "in_handler": 100, "cut_mid_fragment": 150, "after_failure": 300, "after_success": 500, "idle_calls": 250}})
}

const callBound = 10 * time.Second
const endBound = 15 * time.Second

// ---- L01 / L04 ---------------------------------------------------------------------------------------------------

// life is one case of the fault matrix; in leak mode only what remains afterwards is judged.
type life struct {
	c       *Ctx
	r       *rand.Rand
	leak    bool
	stuck   bool // a call did not return
	mu      sync.Mutex
	comp    time.Time // when the server last completed a response
	stopped chan struct{}
}

func (l *life) v(kind, f string, a ...any) {
	if !l.leak {
		l.c.Violate(kind, f, a...)
	}
}

func (l *life) completed() { l.mu.Lock(); l.comp = time.Now(); l.mu.Unlock() }

// timed runs a call and judges how long it took since the later of its start and the last complete response.
func (l *life) timed(name string, f func() error) error {
	t0 := time.Now()
	err := await(longWait, f)
	l.mu.Lock()
	from := l.comp
	l.mu.Unlock()
	if from.Before(t0) {
		from = t0
	}
	if err == errNoReturn {
		l.stuck = true
		l.v("hang", "%s did not return in %v", name, longWait)
	} else if d := time.Since(from); d > callBound {
		l.v("slow", "%s returned %v after the last complete response (or its start)", name, d)
	}
	return err
}

// ongoing writes what next returns, with the given pause, until the connection ends.
func (l *life) ongoing(s *srv, pause time.Duration, next func() []byte) {
	go func() {
		for i := 0; i < 5000; i++ {
			b := next()
			if b == nil || !s.write(b) {
				return
			}
			select {
			case <-l.stopped:
				return
			case <-time.After(pause):
			}
		}
	}()
}

func garbage(r *rand.Rand, n int) []byte {
	b := randBytes(r, n)
	for i := range b { // never the start of a frame or of a response
		if b[i] == '$' || b[i]|0x20 == 'r' {
			b[i] = 1
		}
	}
	return b
}

// fault is what the server does instead of answering normally.
type fault struct {
	name     string
	answered bool // a usable positive answer arrives in time
	never    bool // no complete response ever arrives
	alive    bool // the connection stays open from the server's side
	run      func(s *srv, std []byte) []byte
}

func (l *life) fault(conn *memConn) *fault {
	r := l.r
	done := func(b []byte) []byte { l.completed(); return b }
	f := &fault{never: true, alive: true}
	switch r.Intn(16) {
	case 0:
		f.name = "silence"
		f.run = func(s *srv, std []byte) []byte { return nil }
	case 1:
		f.name = "partial"
		f.run = func(s *srv, std []byte) []byte { s.write(std[:r.Intn(len(std))]); return nil }
	case 2, 3:
		f.name = "trickle"
		f.answered, f.never = false, false
		d := time.Duration(1+r.Intn(400)) * time.Millisecond
		f.run = func(s *srv, std []byte) []byte {
			i := 0
			l.ongoing(s, d, func() []byte {
				if i >= len(std) {
					return nil
				}
				i++
				if i == len(std) {
					l.completed()
				}
				return std[i-1 : i]
			})
			return nil
		}
	case 4:
		f.name = "garbage"
		f.run = func(s *srv, std []byte) []byte { s.write(garbage(r, 4+r.Intn(2000))); return nil }
	case 5:
		f.name = "garbage"
		d := time.Duration(1+r.Intn(1500)) * time.Millisecond
		f.run = func(s *srv, std []byte) []byte {
			l.ongoing(s, d, func() []byte { return garbage(r, 4+r.Intn(100)) })
			return nil
		}
	case 6, 7:
		f.name = "flood"
		d := time.Duration(1+r.Intn(300)) * time.Millisecond
		f.run = func(s *srv, std []byte) []byte {
			l.ongoing(s, d, func() []byte {
				return frame(r.Intn(5), rtpPacket(r, rtpHdr{pt: 96, ext: -1, marker: true}, randBytes(r, 1+r.Intn(100))))
			})
			return nil
		}
	case 8:
		f.name = "endless_header"
		f.run = func(s *srv, std []byte) []byte {
			s.write([]byte("RTSP/1.0 200 OK\r\nX-Long: "))
			n := 20 + r.Intn(10000)
			l.ongoing(s, 20*time.Millisecond, func() []byte { return []byte(strings.Repeat("a", n)) })
			return nil
		}
	case 9:
		f.name = "short_body"
		f.run = func(s *srv, std []byte) []byte {
			s.write([]byte(fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: 1\r\nContent-Length: %d\r\n\r\n", 200+r.Intn(60000))))
			if r.Intn(2) == 0 {
				l.ongoing(s, 100*time.Millisecond, func() []byte { return []byte("x") })
			}
			return nil
		}
	case 10:
		f.name = "oversized"
		f.run = func(s *srv, std []byte) []byte {
			s.write([]byte(fmt.Sprintf("RTSP/1.0 200 OK\r\nContent-Length: %d\r\n\r\n", 70000+r.Intn(1<<30))))
			return nil
		}
	case 11:
		f.name = "eof"
		f.alive = false
		half := r.Intn(2) == 0
		f.run = func(s *srv, std []byte) []byte {
			if r.Intn(2) == 0 {
				s.write(std[:r.Intn(len(std))])
			}
			if half {
				conn.closeWrite()
			} else {
				conn.Close()
			}
			return nil
		}
	case 12:
		f.name = "error"
		f.alive = false
		f.run = func(s *srv, std []byte) []byte { conn.failPeerRead(errInjected); return nil }
	case 13:
		f.name = "status"
		f.never = false
		f.run = func(s *srv, std []byte) []byte {
			return done([]byte(fmt.Sprintf("RTSP/1.0 %d No\r\nCSeq: 1\r\n\r\n", []int{404, 500, 403, 454}[r.Intn(4)])))
		}
	case 14:
		f.name = "late"
		f.answered, f.never = true, false
		d := time.Duration(r.Intn(1900)) * time.Millisecond
		f.run = func(s *srv, std []byte) []byte { time.Sleep(d); return done(std) }
	case 15:
		f.name = "media_first"
		f.answered, f.never = true, false
		f.run = func(s *srv, std []byte) []byte {
			for i := r.Intn(20); i >= 0; i-- {
				s.write(frame(r.Intn(6), randBytes(r, r.Intn(200))))
			}
			return done(std)
		}
	}
	l.c.Count("fault_"+f.name, 1)
	return f
}

func runLife(c *Ctx, leak bool) {
	l := &life{c: c, r: c.R, leak: leak, stopped: make(chan struct{})}
	r := c.R
	switch {
	case !leak && c.Idx < 16:
		l.realSockets()
		return
	case c.Idx < 24:
		l.stalledWs()
		return
	}
	var cc *memConn
	switch k := r.Intn(16); {
	case k == 0:
		l.neverConnected()
		return
	case k <= 3:
		cc = l.connLevel()
	case k == 4 && r.Intn(2) == 0:
		cc = l.repeated()
	default:
		cc = l.session()
	}
	close(l.stopped)
	if l.leak && !l.stuck {
		l.inspect(cc)
	}
}

func (l *life) inspect(cc *memConn) {
	l.c.Count("inspected", 1)
	time.Sleep(time.Second)
	synctest.Wait()
	if cc != nil && cc.closeCount() == 0 {
		l.c.Violate("open", "the transport was never closed")
	}
	if st := allStacks(); strings.Contains(st, libPath) {
		l.c.Violate("leak", "goroutines of the library remain after the end:\n%s", clip(libStacks(st), 5000))
	}
}

// repeated plays one session again and again, most of the time without an answer.
func (l *life) repeated() (cc *memConn) {
	r, c := l.r, l.c
	cl := newClient()
	n := 2 + r.Intn(7)
	c.Desc("%d attempts on one session, most without an answer", n)
	c.Sig("repeated", n, r.Int63())
	for i := 0; i < n && !l.stuck; i++ {
		scen := defaultScenario("H264", "PCMU")
		scen.after = func(*srv, string) { l.completed() }
		at := []string{"DESCRIBE", "SETUP0", "SETUP1", "PLAY", "control", "none"}[r.Intn(6)]
		if at == "control" {
			scen.onOther = func(*srv, *request) {}
		} else {
			scen.override[at] = func(*srv, []byte) []byte { return nil }
			scen.after = func(_ *srv, step string) {
				if step != at {
					l.completed()
				}
			}
		}
		var sc *memConn
		cc, sc = newPair()
		scen.server(sc)
		err := l.timed("SetConnection", func() error {
			if e := cl.s.ParsingURL(testURL); e != nil {
				return e
			}
			return cl.s.SetConnection(cc)
		})
		c.Count("repeated_attempts", 1)
		if l.stuck {
			break
		}
		if (err == nil) != (at == "control" || at == "none") {
			l.v("outcome", "attempt %d returned %v, unanswered: %s", i+1, err, at)
		}
		for k := r.Intn(3); k > 0 && err == nil && !l.stuck; k-- {
			l.timed("WaitRtspResponse", func() error { cl.s.SendPause(); _, e := cl.s.WaitRtspResponse(); return e })
		}
		if !l.stuck && (err == nil || r.Intn(2) == 0) {
			l.timed("Close", func() error { cl.s.Close(); return nil })
		}
		if !l.stuck && !cl.waitEvent(rtspclient.RtspEventDisconnected, i+1, endBound) {
			l.stuck = true
			l.v("disconnect", "disconnection of attempt %d was not reported within %v", i+1, endBound)
		}
		sc.Close()
	}
	return cc
}

// session plays against a server that misbehaves somewhere, then closes.
func (l *life) session() *memConn {
	r, c := l.r, l.c
	n := 1 + r.Intn(3)
	var codecs []string
	for i := 0; i < n; i++ {
		codecs = append(codecs, allCodecs[r.Intn(len(allCodecs))])
	}
	// a WebSocket server that stops reading is left to stalledWs: the waits of its
	// closing goroutines for one another keep the virtual clock from moving
	ws := r.Intn(4) == 0
	scen := defaultScenario(codecs...)
	steps := []string{"DESCRIBE"}
	u := testURL
	if r.Intn(3) == 0 {
		scen.auth = []kv{{"WWW-Authenticate", `Basic realm="r"`}}
		u = "rtsp://u:p@10.1.2.3:8554/live/ch1"
		steps = append(steps, "DESCRIBE2")
	}
	for i := 0; i < n; i++ {
		steps = append(steps, "SETUP"+strconv.Itoa(i))
	}
	steps = append(steps, "PLAY")
	cl := newClient()
	cc, sc := newPair()
	cc.chunk, _ = pickChunker(r)
	scen.after = func(s *srv, step string) {}
	var f *fault
	at := "-"
	inPlay := r.Intn(3) > 0
	stallAt := ""
	if inPlay {
		at = steps[r.Intn(len(steps))]
		if !ws && r.Intn(8) == 0 { // the server stops reading before that request
			f = &fault{name: "stall", never: true, alive: true}
			c.Count("fault_stall", 1)
			stallAt = at
		} else {
			f = l.fault(sc)
			scen.override[at] = f.run
		}
	}
	limit := 0
	if r.Intn(2) == 0 {
		limit = 1 + r.Intn(300)
	}
	if stallAt != "" {
		k := 0
		for i, st := range steps {
			if st == stallAt {
				k = i
			}
		}
		if k == 0 {
			sc.stall(true)
		} else {
			scen.before = func(s *srv, step string) {
				if step == steps[k-1] {
					sc.stall(true)
				}
			}
		}
	}
	scen.after = func(s *srv, step string) {
		if scen.override[step] == nil {
			l.completed()
		}
	}
	cc.out.limit = limit

	// control requests and the teardown misbehave on their own
	var other []*fault
	oi := 0
	scen.onOther = func(s *srv, q *request) {
		std := response{status: 200, reason: "OK", hdr: []kv{{"CSeq", q.one("CSeq")}}}.plain()
		if oi < len(other) {
			fo := other[oi]
			oi++
			if b := fo.run(s, std); b != nil {
				s.write(b)
			}
			return
		}
		s.write(std)
		l.completed()
	}
	inHandler := -1 // event in which Close is called
	if r.Intn(6) == 0 {
		inHandler = []int{rtspclient.RtspEventRequestSuccess, rtspclient.RtspEventRequestError, rtspclient.RtspEventDisconnected}[r.Intn(3)]
		cl.onEvent = func(e *rtspclient.RtspEvent) {
			if e.EventType == inHandler {
				c.Count("handler_close", 1)
				l.timed("Close in the "+evName(inHandler)+" handler", func() error { cl.s.Close(); return nil })
			}
		}
	}
	fn := "none"
	if f != nil {
		fn = f.name
	}
	var s *srv
	var err error
	t0 := time.Now()
	if !ws {
		s, _ = scen.server(sc)
		err = await(longWait, func() error {
			if e := cl.s.ParsingURL(u); e != nil {
				return e
			}
			return cl.s.SetConnection(cc)
		})
	} else {
		c.Count("websocket", 1)
		ready := make(chan struct{})
		go func() {
			defer close(ready)
			w, e := wsUpgrade(sc, newWsCut(r, func(string, int) {}))
			if e != nil {
				return
			}
			s, _ = scen.server(w)
		}()
		dialWs(cc, nil)
		err = await(longWait, func() error { return cl.s.PlayUseWebsocket("ws://10.1.2.3/ws", u) })
		<-ready
		if s == nil {
			l.v("outcome", "no WebSocket upgrade was asked for: %v", err)
			sc.Close()
			return cc
		}
	}
	c.Count("play_timed", 1)
	c.Desc("%d medias, auth %v, WebSocket %v, fault %s at %s, socket buffer %d, Close in handler %d", n, scen.auth != nil, ws, fn, at, limit, inHandler)
	c.Sig(ws, n, scen.auth != nil, fn, at, limit, inHandler, r.Int31())
	from := t0
	l.mu.Lock()
	if l.comp.After(from) {
		from = l.comp
	}
	l.mu.Unlock()
	slack := callBound
	if inHandler >= 0 {
		slack *= 2
	}
	if err == errNoReturn {
		l.stuck = true
		l.v("hang", "SetConnection did not return in %v; fault %s at %s", longWait, fn, at)
	} else if d := time.Since(from); d > slack {
		l.v("slow", "SetConnection returned %v after the last complete response; fault %s at %s", d, fn, at)
	}
	missing := f != nil && f.never
	if missing && err == nil {
		l.v("outcome", "the attempt succeeded although %s was never answered (%s)", at, fn)
	}
	if (f == nil || f.answered) && err != nil && inHandler < 0 {
		l.v("outcome", "a properly answered attempt returned %v (%s at %s)", err, fn, at)
	}
	if missing && !l.stuck {
		if !cl.waitEvent(rtspclient.RtspEventDisconnected, 1, endBound) {
			l.v("disconnect", "no disconnection was reported in %v after %s was never answered (%s)", endBound, at, fn)
		}
		if cc.closeCount() == 0 {
			l.v("disconnect", "the connection is still open after %s was never answered (%s)", at, fn)
		}
	}
	playing := err == nil && cl.countEvent(rtspclient.RtspEventDisconnected) == 0 && inHandler < 0
	if playing {
		if r.Intn(3) == 0 {
			for i := r.Intn(30); i >= 0; i-- {
				s.write(frame(2*r.Intn(n), rtpPacket(r, rtpHdr{pt: 96, ext: -1, marker: true}, randBytes(r, 1+r.Intn(500)))))
			}
		}
		for k := r.Intn(3); k > 0; k-- { // control requests
			if !ws && r.Intn(2) == 0 {
				sc.stall(true)
				c.Count("fault_stall", 1)
			} else {
				other = append(other, l.fault(sc))
			}
			switch r.Intn(3) {
			case 0:
				cl.s.SendPause()
			case 1:
				cl.s.SendPlay(r.Intn(3), 1+r.Intn(2))
			case 2:
				cl.s.SendDescribe()
			}
			c.Count("control_timed", 1)
			l.timed("WaitRtspResponse", func() error { _, e := cl.s.WaitRtspResponse(); return e })
			if cl.countEvent(rtspclient.RtspEventDisconnected) > 0 {
				break
			}
		}
		switch r.Intn(6) { // the teardown
		case 0:
			if !ws {
				sc.stall(true)
				c.Count("fault_stall", 1)
			}
		case 1, 2, 3:
			other = append(other, l.fault(sc))
		}
	}
	how := r.Intn(5)
	if l.stuck {
		how = 4
	}
	n0 := cl.countEvent(rtspclient.RtspEventDisconnected)
	switch how {
	case 0, 1: // Close
		c.Count("close_timed", 1)
		l.timed("Close", func() error { cl.s.Close(); return nil })
	case 2: // Close while the server closes as well
		go func() { time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond); sc.Close() }()
		c.Count("close_timed", 1)
		l.timed("Close", func() error { cl.s.Close(); return nil })
	case 3: // Close from the data handler
		if playing {
			once := false
			cl.mu.Lock()
			cl.onData = func(d *rtspclient.RtspData) {
				if !once {
					once = true
					c.Count("handler_close", 1)
					l.timed("Close in the data handler", func() error { cl.s.Close(); return nil })
				}
			}
			cl.mu.Unlock()
			s.write(frame(0, rtpPacket(r, rtpHdr{pt: 96, ext: -1, marker: true}, []byte{0x41, 1, 2, 3})))
			synctest.Wait()
			time.Sleep(callBound + time.Second)
		}
		c.Count("close_timed", 1)
		l.timed("Close", func() error { cl.s.Close(); return nil })
	case 4: // the server ends it
		sc.Close()
	}
	if n0 == 0 && !l.stuck {
		if !cl.waitEvent(rtspclient.RtspEventDisconnected, 1, endBound) {
			l.v("disconnect", "no disconnection was reported %v after the end (way %d); fault %s at %s", endBound, how, fn, at)
		}
	}
	if cl.countEvent(rtspclient.RtspEventDisconnected) > 0 {
		switch r.Intn(3) {
		case 0:
			c.Count("close_timed", 1)
			l.timed("a second Close", func() error { cl.s.Close(); return nil })
		case 1:
			c.Count("control_timed", 1)
			l.timed("WaitRtspResponse after the end", func() error { _, e := cl.s.WaitRtspResponse(); return e })
		case 2:
			cl.s.SendPause()
			l.timed("WaitRtspResponse after the end", func() error { _, e := cl.s.WaitRtspResponse(); return e })
		}
	}
	time.Sleep(8 * time.Second)
	synctest.Wait()
	if k := cl.countEvent(rtspclient.RtspEventDisconnected); k != 1 && !l.stuck && !l.leak && !c.Violated() {
		l.v("disconnect", "%d disconnected events", k)
	}
	if b := cl.badNotes(); b != "" {
		l.v("label", "%s", b)
	}
	sc.stall(false)
	cl.end(sc)
	return cc
}

func (l *life) neverConnected() {
	r, c := l.r, l.c
	cl := newClient()
	c.Desc("calls on a session that never connected")
	c.Sig("never", r.Int31())
	var last *memConn
	for k := 1 + r.Intn(4); k > 0; k-- {
		switch r.Intn(9) {
		case 8: // the upgrade is never answered, or never to its end
			cc, sc := newPair()
			last = cc
			answer := []byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n")
			answer = answer[:r.Intn(len(answer))*r.Intn(2)]
			cc.chunk, _ = pickChunker(r)
			go func() {
				buf := make([]byte, 65536)
				sc.Read(buf)
				sc.put(answer)
			}()
			n0 := cl.countEvent(rtspclient.RtspEventDisconnected)
			dialWs(cc, nil)
			t0 := time.Now()
			e := await(longWait, func() error { return cl.s.PlayUseWebsocket("ws://10.1.2.3/ws", testURL) })
			if e == errNoReturn {
				l.stuck = true
				l.v("hang", "PlayUseWebsocket did not return in %v, %d bytes of an upgrade were answered", longWait, len(answer))
			} else if d := time.Since(t0); d > time.Minute {
				l.v("slow", "PlayUseWebsocket returned %v after the upgrade was asked for", d)
			} else if e == nil {
				l.v("outcome", "PlayUseWebsocket succeeded although the upgrade was not answered")
			}
			if d := cl.countEvent(rtspclient.RtspEventDisconnected) - n0; d != 1 && !l.stuck {
				l.v("disconnect", "%d disconnected events for an upgrade that was not answered", d)
			}
			if l.stuck {
				sc.Close()
			}
			c.Count("silent_upgrade", 1)
		case 5: // nobody there
			n0 := cl.countEvent(rtspclient.RtspEventDisconnected)
			dialWs(nil, errInjected)
			if e := l.timed("PlayUseWebsocket", func() error {
				return cl.s.PlayUseWebsocket([]string{"ws://10.1.2.3:80/ws", "wss://10.1.2.3/ws", "ws://[::1]/"}[r.Intn(3)], testURL)
			}); e == nil {
				l.v("outcome", "PlayUseWebsocket succeeded without a server")
			}
			if d := cl.countEvent(rtspclient.RtspEventDisconnected) - n0; d != 1 && !l.stuck {
				l.v("disconnect", "%d disconnected events for an attempt nobody answered", d)
			}
			c.Count("dial_failed", 1)
		case 6: // the upgrade is refused
			cc, sc := newPair()
			last = cc
			answer := []string{"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "RTSP/1.0 200 OK\r\n\r\n", "",
				"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: x\r\n\r\n"}[r.Intn(5)]
			go func() {
				buf := make([]byte, 65536)
				sc.Read(buf)
				sc.put([]byte(answer))
				sc.closeWrite()
			}()
			n0 := cl.countEvent(rtspclient.RtspEventDisconnected)
			dialWs(cc, nil)
			if e := l.timed("PlayUseWebsocket", func() error { return cl.s.PlayUseWebsocket("ws://10.1.2.3/ws", testURL) }); e == nil {
				l.v("outcome", "PlayUseWebsocket succeeded although the upgrade was refused")
			}
			if d := cl.countEvent(rtspclient.RtspEventDisconnected) - n0; d != 1 && !l.stuck {
				l.v("disconnect", "%d disconnected events for a refused upgrade", d)
			}
			c.Count("dial_failed", 1)
		case 7: // addresses nobody can connect to; outside the bubble, as these are real sockets
			n0 := cl.countEvent(rtspclient.RtspEventDisconnected)
			if e := l.timed("Play", func() (e error) {
				outside(func() { e = cl.s.Play("rtsp://127.0.0.1:1/x") })
				return e
			}); e == nil {
				l.v("outcome", "Play succeeded without a server")
			}
			if d := cl.countEvent(rtspclient.RtspEventDisconnected) - n0; d != 1 && !l.stuck {
				l.v("disconnect", "%d disconnected events for a refused connection", d)
			}
			c.Count("dial_failed", 1)
		case 0:
			l.timed("Close", func() error { cl.s.Close(); return nil })
			c.Count("close_timed", 1)
		case 1:
			if e := l.timed("WaitRtspResponse", func() error { _, e := cl.s.WaitRtspResponse(); return e }); e == nil {
				l.v("outcome", "WaitRtspResponse without a connection returned no error")
			}
			c.Count("control_timed", 1)
		case 2:
			l.timed("SendPause", func() error { cl.s.SendPause(); return nil })
		case 3:
			l.timed("SendTeardown", func() error { cl.s.SendTeardown(); return nil })
		case 4:
			l.timed("SendPlay", func() error { cl.s.SendPlay(1, 2); return nil })
		}
	}
	if l.leak && !l.stuck {
		l.inspect(last)
	}
}

// connLevel uses a connection directly: senders and closers against a peer that may not read.
func (l *life) connLevel() *memConn {
	r, c := l.r, l.c
	cc, sc := newPair()
	queue := []int{0, 1, 2, 10, 100}[r.Intn(5)]
	lg := newConnLog(cc, queue)
	lg.conn.SetStreamProtocol(&testProto{hl: 3})
	peer := []string{"reads", "stalls", "stalls", "slow", "stops", "fails"}[r.Intn(6)]
	if r.Intn(2) == 0 {
		cc.out.limit = 1 + r.Intn(2000)
	}
	switch peer {
	case "stalls":
		sc.stall(true)
		c.Count("fault_stall", 1)
	case "fails":
		cc.wErrAfter = r.Intn(3000)
	}
	senders, per := 1+r.Intn(6), 1+r.Intn(8)
	c.Desc("connection: queue %d, %d senders x %d, peer %s, socket buffer %d", queue, senders, per, peer, cc.out.limit)
	c.Sig(queue, senders, per, peer, cc.out.limit, r.Int31())
	go func() {
		buf := make([]byte, 4096)
		for k := 0; ; k++ {
			if _, err := sc.Read(buf); err != nil {
				return
			}
			if peer == "slow" {
				time.Sleep(time.Duration(50+k) * time.Millisecond)
			}
			if peer == "stops" && k == 2 {
				sc.stall(true)
				return
			}
		}
	}()
	lg.conn.Run()
	lg.wait(10*time.Second, func() bool { return len(lg.types) > 0 })
	end := r.Intn(4)
	var wg sync.WaitGroup
	for i := 0; i < senders; i++ {
		sr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				m := randBytes(sr, 1+sr.Intn(3000))
				c.Count("conn_send_timed", 1)
				if l.timed("Send", func() error { lg.conn.Send(m, sr.Intn(2) == 0); return nil }) == errNoReturn {
					return
				}
			}
		}()
	}
	if end == 3 {
		wg.Wait()
	} else {
		time.Sleep(time.Duration(r.Intn(4000)) * time.Millisecond)
	}
	t0 := time.Now()
	switch end {
	case 0: // the peer closes
		sc.Close()
	default:
		if r.Intn(3) == 0 {
			go func() { l.timed("Close of the connection", func() error { lg.conn.Close(); return nil }) }()
		}
		c.Count("conn_close_timed", 1)
		l.timed("Close of the connection", func() error { lg.conn.Close(); return nil })
	}
	bound := endBound + callBound
	if !lg.wait(bound, lg.ended) {
		l.v("disconnect", "no disconnection was reported %v after the end (peer %s)", time.Since(t0), peer)
	}
	wg.Wait()
	if r.Intn(2) == 0 {
		l.timed("Close after the end", func() error { lg.conn.Close(); return nil })
		l.timed("Send after the end", func() error { lg.conn.Send([]byte("x"), false); return nil })
	}
	time.Sleep(8 * time.Second)
	synctest.Wait()
	lg.mu.Lock()
	ev := evTypes(lg.types)
	lg.mu.Unlock()
	if strings.Count(ev, "D") != 1 && !c.Violated() {
		l.v("disconnect", "events were %s", ev)
	}
	sc.stall(false)
	sc.Close()
	lg.wait(30*time.Second, lg.ended)
	return cc
}

// stalledWs ends WebSocket sessions whose server does not read, on the real clock.
func (l *life) stalledWs() {
	c, r := l.c, l.r
	n := 1 + r.Intn(2)
	limit := 1 + r.Intn(100)
	at := []string{"DESCRIBE", "SETUP0", "PLAY", "PAUSE", "PAUSE", "TEARDOWN", "TEARDOWN"}[r.Intn(7)]
	closes := r.Intn(3)
	c.Desc("WebSocket server with a socket buffer of %d bytes that stops reading before %s, %d Close calls", limit, at, closes)
	c.Sig("stalled", c.Idx)
	c.Count("stalled_ws", 1)
	outside(func() {
		scen := defaultScenario(allCodecs[:n]...)
		cl := newClient()
		cc, sc := newPair()
		cc.out.limit = limit
		before := map[string]string{"SETUP0": "DESCRIBE", "PLAY": "SETUP" + strconv.Itoa(n-1), "PAUSE": "PLAY", "TEARDOWN": "PLAY"}
		scen.before = func(s *srv, step string) {
			if step == before[at] {
				sc.stall(true)
			}
		}
		go func() {
			w, e := wsUpgrade(sc, newWsCut(r, func(string, int) {}))
			if e != nil {
				return
			}
			if before[at] == "" {
				sc.stall(true)
			}
			scen.server(w)
		}()
		dialWs(cc, nil)
		ch := make(chan string, 20)
		calls := 1 + closes
		t0 := time.Now()
		go func() {
			// the request itself may still get through, its answer not
			cl.s.PlayUseWebsocket("ws://10.1.2.3/ws", testURL)
			if at == "PAUSE" {
				cl.s.SendPause()
				cl.s.WaitRtspResponse()
			}
			ch <- ""
			for i := 0; i < closes; i++ {
				go func() { cl.s.Close(); ch <- "" }()
				time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			}
			if closes == 0 {
				sc.Close()
			}
		}()
		for i := 0; i < calls; i++ {
			select {
			case <-ch:
			case <-time.After(60 * time.Second):
				l.stuck = true
				l.v("hang", "the calls did not return in 60s")
				return
			}
		}
		if d := time.Since(t0); d > 40*time.Second {
			l.v("slow", "the calls took %v", d)
		}
		realWait(func() bool { return cl.countEvent(rtspclient.RtspEventDisconnected) > 0 })
		if n := cl.countEvent(rtspclient.RtspEventDisconnected); n != 1 {
			l.v("disconnect", "%d disconnected events", n)
		}
		st := ""
		realWait(func() bool { st = allStacks(); return !strings.Contains(st, libPath) })
		if l.leak && strings.Contains(st, libPath) {
			c.Violate("leak", "goroutines of the library remain after the end:\n%s", clip(libStacks(st), 5000))
		}
		if l.leak && cc.closeCount() == 0 {
			c.Violate("open", "the transport was never closed")
		}
		sc.stall(false)
		sc.Close()
	})
}

// realSockets times Play itself against servers that never answer, on the real clock.
func (l *life) realSockets() {
	c := l.c
	k := c.Idx / 8
	c.Desc("Play over loopback, server %s", []string{"accepts and stays silent", "does not accept (full backlog)"}[k%2])
	c.Sig("real", c.Idx)
	c.Count("real_sockets", 1)
	outside(func() {
		addr := ""
		if k%2 == 0 {
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return
			}
			defer ln.Close()
			go func() {
				for {
					cn, err := ln.Accept()
					if err != nil {
						return
					}
					defer cn.Close()
				}
			}()
			addr = ln.Addr().String()
		} else {
			fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
			if err != nil {
				return
			}
			defer syscall.Close(fd)
			if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
				return
			}
			sa, _ := syscall.Getsockname(fd)
			addr = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
			for i := 0; i < 4; i++ { // fill it
				cn, err := net.DialTimeout("tcp", addr, 200*time.Millisecond)
				if err != nil {
					break
				}
				defer cn.Close()
			}
		}
		cl := newClient()
		ch := make(chan error, 1)
		t0 := time.Now()
		go func() { ch <- cl.s.Play("rtsp://" + addr + "/x") }()
		select {
		case err := <-ch:
			if err == nil {
				l.v("outcome", "Play returned nil")
			}
			// generous: the machine may be busy
			if d := time.Since(t0); d > 25*time.Second {
				l.v("slow", "Play took %v", d)
			}
			realWait(func() bool { return cl.countEvent(rtspclient.RtspEventDisconnected) > 0 })
			if n := cl.countEvent(rtspclient.RtspEventDisconnected); n != 1 {
				l.v("disconnect", "%d disconnected events", n)
			}
		case <-time.After(60 * time.Second):
			l.v("hang", "Play did not return in 60s")
		}
	})
}

// ---- L02 ---------------------------------------------------------------------------------------------------------

func unexpected(r *rand.Rand) []byte {
	switch r.Intn(9) {
	case 0:
		return []byte("RTSP/1.0 200 OK\r\nCSeq: 1\r\n\r\n")
	case 1:
		return []byte(fmt.Sprintf("RTSP/1.0 %d Whatever\r\nCSeq: %d\r\nSession: other\r\n\r\n", 100+r.Intn(500), r.Intn(20)))
	case 2:
		return []byte("RTSP/1.0 401 Unauthorized\r\nWWW-Authenticate: Digest realm=\"x\", nonce=\"y\"\r\n\r\n")
	case 3:
		return []byte("RTSP/1.0\r\n\r\n")
	case 4:
		return []byte("RTSP\r\n\r\n")
	case 5:
		return []byte("rtsp/1.0 what\r\n: :\r\nno colon\r\n\r\n")
	case 6:
		b := randBytes(r, 1+r.Intn(300))
		return append([]byte(fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: 1\r\nContent-Length: %d\r\n\r\n", len(b))), b...)
	case 7:
		return response{status: 200, reason: "OK", hdr: []kv{{"CSeq", "2"}}, body: sdpFor([]mediaSpec{mediaFor("H265", 0), mediaFor("bbw", 1), mediaFor("VP8", 2)})}.plain()
	}
	return []byte("RTSP/1.0 200 OK\r\nCSeq: 3\r\nSession: 999;timeout=1\r\nTransport: RTP/AVP/TCP;interleaved=4-5\r\n\r\n")
}

// stray is a request of the server, a message of another protocol or noise.
func stray(r *rand.Rand) []byte {
	switch r.Intn(5) {
	case 0:
		return garbage(r, 5+r.Intn(900))
	case 1:
		return []byte([]string{"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "\r\n\r\n\r\n", "Rtsp/1.0 200 OK\r\nCSeq: 5\r\n\r\n", "keep alive", "RTCP 200 OK\r\n\r\n", "SIP/2.0 100 Trying\r\n\r\n"}[r.Intn(6)])
	}
	m := []string{"OPTIONS", "GET_PARAMETER", "SET_PARAMETER", "ANNOUNCE", "REDIRECT", "TEARDOWN", "PLAY_NOTIFY", "PAUSE"}[r.Intn(8)]
	b := fmt.Sprintf("%s %s RTSP/1.0\r\nCSeq: %d\r\n", m, testURL, r.Intn(1000))
	if r.Intn(2) == 0 {
		b += "Session: 12345678\r\n"
	}
	if r.Intn(3) == 0 {
		body := []string{"packets_received\r\n", "RTSP/1.0 200 OK\r\n\r\n", sdpHead}[r.Intn(3)]
		return []byte(b + fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body))
	}
	return []byte(b + "\r\n")
}

func runL02(c *Ctx) {
	r := c.R
	n := 1 + r.Intn(3)
	var codecs []string
	for i := 0; i < n; i++ {
		codecs = append(codecs, allCodecs[r.Intn(len(allCodecs))])
	}
	scen := defaultScenario(codecs...)
	inject := func(max int) []byte {
		var b []byte
		k := 1 + r.Intn(max)
		for i := 0; i < k; i++ {
			b = append(b, unexpected(r)...)
		}
		c.Count("injected", k)
		return b
	}
	var answer func(s *srv, q *request)
	scen.onOther = func(s *srv, q *request) {
		if answer != nil {
			answer(s, q)
			return
		}
		s.write(response{status: 200, reason: "OK", hdr: []kv{{"CSeq", q.one("CSeq")}}}.plain())
	}
	if r.Intn(8) == 0 { // after a failed attempt
		c.Count("after_failure", 1)
		at := []string{"DESCRIBE", "SETUP0", "PLAY"}[r.Intn(3)]
		scen.status[at] = 404
		cl := newClient()
		cc, sc := newPair()
		s, _ := scen.server(sc)
		err := cl.play(cc, testURL)
		if err == nil {
			c.Violate("outcome", "play succeeded although %s was refused", at)
		}
		synctest.Wait()
		c.Desc("refused %s, then unexpected responses", at)
		c.Sig("failed", at, r.Int31())
		for k := r.Intn(5); k >= 0; k-- {
			s.write(inject(10))
			synctest.Wait()
		}
		if r.Intn(2) == 0 {
			sc.Close()
		} else {
			await(longWait, func() error { cl.s.Close(); return nil })
		}
		if !cl.waitEvent(rtspclient.RtspEventDisconnected, 1, endBound) {
			c.Violate("disconnect", "disconnection is not reported after unexpected responses behind a failed attempt (%s)", at)
		}
		cl.end(sc)
		return
	}
	p := startPlaying(c, scen)
	if p == nil {
		return
	}
	gens := make([]*hdrGen, n)
	for i := range gens {
		gens[i] = newHdrGen(r)
	}
	rounds := 1 + r.Intn(5)
	c.Desc("tracks %v, %d rounds", codecs, rounds)
	total := muxed{want: map[int][][]byte{}}
	sig := ""
	for k := 0; k < rounds; k++ {
		var tracks [][]pkt
		var notes []string
		for _, cd := range codecs {
			tracks = append(tracks, trackPackets(r, cd, 1+r.Intn(5), 600, []int{1400, 100}[r.Intn(2)], &notes))
		}
		m := muxTracks(r, tracks, func(t int, k pkt) []byte {
			sig += fmt.Sprint(t)
			return rtpPacket(r, gens[t].next(k), k.payload)
		}, func() []byte {
			if r.Intn(3) == 0 {
				sig += "!"
				return inject(4)
			}
			return nil
		})
		for ch, w := range m.want {
			total.want[ch] = append(total.want[ch], w...)
		}
		c.Count("units", m.total)
		p.feed(m.buf, m.total)
		if r.Intn(4) == 0 {
			p.srv.write(inject(60))
			synctest.Wait()
		}
		if r.Intn(3) == 0 { // bytes that begin no message, arriving on their own
			c.Count("stray", 1)
			sig += "?"
			ch := p.cc.chunk
			p.cc.chunk = chunkAll
			p.srv.write(stray(r))
			for i := 0; i < 20 && (i == 0 || p.cc.pending() > 0); i++ {
				synctest.Wait()
				time.Sleep(time.Second)
			}
			synctest.Wait()
			p.cc.chunk = ch
		}
		if r.Intn(2) == 0 { // a request gets its own answer
			c.Count("controls", 1)
			st := []int{200, 404, 454, 500, 210 + r.Intn(80), 455}[r.Intn(6)]
			behind := r.Intn(2) == 0
			before := r.Intn(2) == 0
			var noise []byte
			ch := p.cc.chunk
			if r.Intn(4) == 0 {
				noise = stray(r)
				p.cc.chunk = chunkAll
				c.Count("stray_waiting", 1)
			}
			answer = func(s *srv, q *request) {
				if noise != nil { // while the answer is waited for
					s.write(noise)
					time.Sleep(500 * time.Millisecond)
				}
				b := response{status: st, reason: "Whatever", hdr: []kv{{"CSeq", q.one("CSeq")}}}.plain()
				if before { // media before the answer, in the same write
					b = append(frame(1, []byte("rtcp")), b...)
				}
				if behind {
					b = append(b, inject(3)...)
				}
				s.write(b)
			}
			name := ""
			switch r.Intn(3) {
			case 0:
				name = "PAUSE"
				p.cl.s.SendPause()
			case 1:
				name = "PLAY"
				p.cl.s.SendPlay(0, 1)
			case 2:
				name = "DESCRIBE"
				p.cl.s.SendDescribe()
			}
			type ans struct {
				st  int
				err error
			}
			var a ans
			if e := await(longWait, func() error {
				rp, e := p.cl.s.WaitRtspResponse()
				if e == nil {
					a.st = rp.Status
				}
				return e
			}); e != nil {
				c.Violate("answer", "%s was answered with %d, WaitRtspResponse returned %v", name, st, e)
			} else if a.st != st {
				c.Violate("answer", "%s was answered with %d, WaitRtspResponse returned %d", name, st, a.st)
			}
			synctest.Wait()
			answer = nil
			p.cc.chunk = ch
		}
	}
	c.Sig(codecs, sig)
	p.compare(total, strings.Join(codecs, ","))
	if r.Intn(2) == 0 {
		if r.Intn(2) == 0 {
			p.srv.write(inject(20))
		}
		p.stop()
		return
	}
	// a local close among unexpected responses
	synctest.Wait()
	stop := make(chan struct{})
	go func() {
		for i := 0; i < 1000; i++ {
			select {
			case <-stop:
				return
			case <-time.After(10 * time.Millisecond):
			}
			if !p.srv.write(unexpected(r)) {
				return
			}
		}
	}()
	if await(longWait, func() error { p.cl.s.Close(); return nil }) != nil {
		c.Violate("hang", "Close did not return among unexpected responses")
	}
	if !p.cl.waitEvent(rtspclient.RtspEventDisconnected, 1, endBound) {
		c.Violate("disconnect", "disconnection is not reported after Close among unexpected responses")
	}
	close(stop)
	p.cl.end(p.sc)
	synctest.Wait()
	if k := p.cl.countEvent(rtspclient.RtspEventDisconnected); k != 1 {
		c.Violate("disconnect", "%d disconnected events", k)
	}
}

// ---- L03 ---------------------------------------------------------------------------------------------------------

// trip is one connection of a session, reproducible from its seed.
type trip struct {
	seed  int64
	note  string
	inH   bool // start it in the disconnected handler of the one before
	quiet bool // ended by the server while no call was in progress
}

type tripLog struct {
	err    string
	reqs   []string
	events []int
	data   []string
	medias map[int]rtspclient.MediaSubsession
	stuck  bool
	took   time.Duration // by the play call
}

func normCSeq(reqs []*request) []string {
	var out []string
	for _, q := range reqs {
		out = append(out, strings.Replace(q.raw, "CSeq: "+q.one("CSeq")+"\r\n", "CSeq: *\r\n", 1))
	}
	return out
}

// runTrip plays one connection on cl. start runs the play call (in a handler or not). It returns when the
// connection's end was reported, or, with hold, before the server ends it (the returned function does that).
func runTrip(c *Ctx, cl *client, seed int64, start func(f func() error) error) (lg *tripLog, end func(), cutMid bool) {
	r := rand.New(rand.NewSource(seed))
	n := 1 + r.Intn(3)
	var codecs []string
	for i := 0; i < n; i++ {
		codecs = append(codecs, allCodecs[r.Intn(len(allCodecs))])
	}
	scen := defaultScenario(codecs...)
	scen.sess = randFrom(r, "abcdefgh0123456789", 8)
	if r.Intn(8) == 0 {
		scen.sess += ";timeout=60"
	}
	for i := range scen.medias {
		if r.Intn(2) == 0 {
			scen.medias[i].attrs = append(scen.medias[i].attrs, fmt.Sprintf("fmtp:%d k%d=v%d", scen.medias[i].pt, r.Intn(10), r.Intn(10)))
		}
		if r.Intn(6) == 0 {
			scen.medias[i].control = fmt.Sprintf("rtsp://10.1.2.3:8554/abs/%d", i)
		}
	}
	u := []string{testURL, "rtsp://10.9.9.9/other?x=1", "rtsp://10.1.2.3:8554/live/ch2"}[r.Intn(3)]
	switch r.Intn(3) {
	case 0:
		u = strings.Replace(u, "rtsp://", "rtsp://"+randFrom(r, "abcd", 4)+":"+randFrom(r, "wxyz", 4)+"@", 1)
	}
	switch r.Intn(4) {
	case 0:
		scen.auth = []kv{{"WWW-Authenticate", `Basic realm="r` + strconv.Itoa(r.Intn(99)) + `"`}}
	case 1:
		scen.auth = []kv{{"WWW-Authenticate", `Digest realm="r` + strconv.Itoa(r.Intn(99)) + `", nonce="` + randFrom(r, "0123456789abcdef", 16) + `"`}}
	}
	if r.Intn(3) == 0 { // something goes wrong
		at := []string{"DESCRIBE", "DESCRIBE2", "SETUP0", "SETUP1", "PLAY"}[r.Intn(5)]
		switch r.Intn(5) {
		case 0, 1:
			scen.status[at] = []int{404, 500, 454, 302}[r.Intn(4)]
		case 2:
			scen.override[at] = func(s *srv, std []byte) []byte { return nil }
		case 3:
			scen.override[at] = func(s *srv, std []byte) []byte { return std[:r.Intn(len(std))] }
		case 4:
			scen.override[at] = func(s *srv, std []byte) []byte { s.c.Close(); return nil }
		}
	}
	noSess := r.Intn(10) == 0 // answers that name no session id
	if noSess {
		scen.layout = func(p response) []byte {
			var h []kv
			for _, x := range p.hdr {
				if x.k != "Session" {
					h = append(h, x)
				}
			}
			p.hdr = h
			return p.plain()
		}
	}
	cc, sc := newPair()
	cc.chunk, _ = pickChunker(r)
	s, _ := scen.server(sc)
	from, disc0, took := 0, 0, time.Duration(0)
	err := start(func() error {
		cl.mu.Lock()
		from = len(cl.log)
		cl.mu.Unlock()
		disc0 = cl.countEvent(rtspclient.RtspEventDisconnected)
		if e := cl.s.ParsingURL(u); e != nil {
			return e
		}
		t0 := time.Now()
		defer func() { took = time.Since(t0) }()
		return cl.s.SetConnection(cc)
	})
	lg = &tripLog{took: took}
	if err == errNoReturn {
		lg.stuck = true
		c.Violate("hang", "a play attempt did not return")
	}
	if err != nil {
		lg.err = "error"
	}
	synctest.Wait()
	want := 0
	if err == nil {
		gens := make([]*hdrGen, n)
		for i := range gens {
			gens[i] = newHdrGen(r)
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			var tracks [][]pkt
			var notes []string
			for _, cd := range codecs {
				tracks = append(tracks, trackPackets(r, cd, 1+r.Intn(3), 300, []int{1400, 60}[r.Intn(2)], &notes))
			}
			m := muxTracks(r, tracks, func(t int, k pkt) []byte { return rtpPacket(r, gens[t].next(k), k.payload) }, nil)
			want += m.total
			go s.write(m.buf)
			cl.waitFor(5*time.Second, func() bool {
				k := 0
				for _, e := range cl.log[from:] {
					if e.event < 0 {
						k++
					}
				}
				return k >= want
			})
			synctest.Wait()
			if r.Intn(2) == 0 {
				cl.s.SendPause()
				await(longWait, func() error { _, e := cl.s.WaitRtspResponse(); return e })
			}
		}
	}
	lg.medias = cl.s.RtpMediaMap
	// half a unit on each track, an extra response or half a message, then the end
	var tail []byte
	if err == nil && r.Intn(2) == 0 {
		for i, cd := range codecs {
			var part []byte
			switch strings.ToUpper(cd) {
			case "H264":
				part = append([]byte{0x7c, 0x85}, randBytes(r, 50)...)
			case "H265", "HEVC":
				part = append([]byte{49 << 1, 1, 0x80 | 19}, randBytes(r, 50)...)
			case "BBW":
				part = randBytes(r, 50)
			default:
				continue
			}
			cutMid = true
			tail = append(tail, frame(2*i, rtpPacket(r, plainHdr(), part))...)
		}
	}
	if r.Intn(3) == 0 {
		tail = append(tail, "RTSP/1.0 200 OK\r\nCSeq: 77\r\nSession: stale\r\n\r\n"...)
	}
	if r.Intn(3) == 0 {
		tail = append(tail, "RTSP/1.0 200 OK\r\nCSe"...)
	}
	how := r.Intn(3)
	end = func() {
		if len(tail) > 0 {
			s.write(tail)
			synctest.Wait()
		}
		if how == 0 && err == nil {
			if await(longWait, func() error { cl.s.Close(); return nil }) != nil {
				lg.stuck = true
				c.Violate("hang", "Close did not return")
			}
			synctest.Wait()
		}
		// afterwards the server side is gone in any case; nothing else of this session is in progress
		if cl.countEvent(rtspclient.RtspEventDisconnected) == disc0 {
			sc.Close()
		}
		if !cl.waitEvent(rtspclient.RtspEventDisconnected, disc0+1, 30*time.Second) {
			c.Violate("disconnect", "the end of a connection was never reported")
			lg.stuck = true
		}
		sc.Close()
	}
	fin := end
	end = func() {
		fin()
		synctest.Wait()
		lg.reqs = normCSeq(s.requests())
		cl.mu.Lock()
		disc := 0
		for _, e := range cl.log[from:] {
			if e.event >= 0 {
				if e.event == rtspclient.RtspEventDisconnected {
					disc++
				}
				lg.events = append(lg.events, e.event)
			} else {
				lg.data = append(lg.data, fmt.Sprintf("%d:%s:%x", e.ch, short(e.data), hash64(e.data)))
			}
			if disc > 0 && lg.err == "" {
				break // what follows belongs to the next connection
			}
		}
		cl.mu.Unlock()
		lg.events = errorFirst(lg.events)
	}
	c.Desc("connection: %v auth %v url %s, outcome %v, end %d, cut mid fragment %v", codecs, scen.auth != nil, u, err, how, cutMid)
	return lg, end, cutMid
}

// errorFirst hides the order of the two reports of an attempt that ends with its connection: they come from
// different goroutines.
func errorFirst(evs []int) []int {
	for i := 1; i < len(evs); i++ {
		if evs[i] == rtspclient.RtspEventRequestError && evs[i-1] == rtspclient.RtspEventDisconnected {
			evs[i], evs[i-1] = evs[i-1], evs[i]
		}
	}
	return evs
}

// idleCalls: calls of the application while the session is not connected.
func idleCalls(c *Ctx, cl *client) {
	r := c.R
	c.Count("idle_calls", 1)
	for n := 1 + r.Intn(4); n > 0; n-- {
		k := r.Intn(7)
		start := time.Now()
		c.guard("a call on an idle session", func() {
			switch k {
			case 0:
				cl.s.SendPause()
			case 1:
				cl.s.SendPlay(r.Intn(3), 1+r.Intn(2))
			case 2:
				cl.s.SendTeardown()
			case 3:
				cl.s.SendDescribe()
			case 4:
				cl.s.SendTcpSetup("rtsp://10.1.2.3/idle", 0, 1)
			case 5:
				cl.s.WaitRtspResponse()
			case 6:
				cl.s.Close()
			}
		})
		if d := time.Since(start); d > 10*time.Second {
			c.Violate("idle", "call %d on an idle session took %v", k, d)
		}
	}
}

func runL03(c *Ctx) {
	r := c.R
	k := 2 + r.Intn(4)
	var seeds []int64
	for i := 0; i < k; i++ {
		seeds = append(seeds, r.Int63())
	}
	c.Sig(seeds)
	direct := func(f func() error) error { return await(longWait, f) }
	cl := newClient()
	var logs []*tripLog
	var ends []func()
	for i := 0; i < k; i++ {
		if i > 0 {
			c.Count("replays", 1)
			if logs[i-1].err == "" {
				c.Count("after_success", 1)
			} else {
				c.Count("after_failure", 1)
			}
		}
		inHandler := i > 0 && r.Intn(3) == 0
		start := direct
		if i > 0 {
			prevEnd := ends[i-1]
			if inHandler && logs[i-1].err == "" {
				c.Count("in_handler", 1)
				start = func(f func() error) error {
					done := make(chan error, 1)
					once := false
					cl.mu.Lock()
					cl.onEvent = func(e *rtspclient.RtspEvent) {
						if e.EventType == rtspclient.RtspEventDisconnected && !once {
							once = true
							done <- f()
						}
					}
					cl.mu.Unlock()
					ended := make(chan struct{})
					go func() { prevEnd(); close(ended) }()
					var err error
					select {
					case err = <-done:
					case <-time.After(longWait):
						err = errNoReturn
					}
					<-ended
					cl.mu.Lock()
					cl.onEvent = nil
					cl.mu.Unlock()
					return err
				}
			} else {
				prevEnd()
			}
		}
		if i > 0 && logs[i-1].stuck {
			return
		}
		if !inHandler && r.Intn(4) == 0 {
			idleCalls(c, cl)
		}
		lg, end, cut := runTrip(c, cl, seeds[i], start)
		if cut {
			c.Count("cut_mid_fragment", 1)
		}
		logs = append(logs, lg)
		ends = append(ends, end)
		if lg.stuck {
			return
		}
	}
	ends[k-1]()
	synctest.Wait()
	for i := 0; i < k; i++ {
		fresh := newClient()
		want, end, _ := runTrip(c, fresh, seeds[i], direct)
		end()
		synctest.Wait()
		got := logs[i]
		what := fmt.Sprintf("connection %d of %d", i+1, k)
		switch {
		case got.err != want.err:
			c.Violate("replay", "%s: outcome %q, on a new session %q", what, got.err, want.err)
		case got.took != want.took:
			c.Violate("replay", "%s: the attempt took %v, on a new session %v", what, got.took, want.took)
		case !reflect.DeepEqual(got.reqs, want.reqs):
			c.Violate("replay", "%s: requests %q, on a new session %q", what, got.reqs, want.reqs)
		case !reflect.DeepEqual(got.medias, want.medias):
			c.Violate("replay", "%s: media table %v, on a new session %v", what, got.medias, want.medias)
		case !reflect.DeepEqual(got.data, want.data):
			c.Violate("replay", "%s: media %v, on a new session %v", what, got.data, want.data)
		case !reflect.DeepEqual(got.events, want.events):
			c.Violate("replay", "%s: events %s, on a new session %s", what, evNames(got.events), evNames(want.events))
		}
	}
	if b := cl.badNotes(); b != "" {
		c.Violate("label", "%s", b)
	}
}
