package vharness

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"github.com/NodeBoy2/rtspclient/sdp"
	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

func init() {
	register(&prop{id: "M01", quick: 84, thorough: 3000, bubble: true, run: runM01,
		rule: "the same traffic in phases on one session, or one kind of work again and again, live heap and goroutines after each phase; every case non-trivial",
		min:  map[string]int64{"phases": 300, "measured": 300, "events": 400000, "units": 30000, "sessions": 500}})
}

// liveHeap is what is still reachable.
func liveHeap() (bytes int64, goroutines int) {
	time.Sleep(20 * time.Second) // timers of the past phase expire
	synctest.Wait()
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), runtime.NumGoroutine()
}

// memSess is a session that is looked at without keeping anything of what it delivers.
type memSess struct {
	s      *rtspclient.RtspClientSession
	data   atomic.Int64
	discon atomic.Int64
	cc, sc *memConn
	srv    *srv
}

func newMemSess() *memSess {
	m := &memSess{}
	m.s = rtspclient.NewRtspClientSession(func(*rtspclient.RtspData) { m.data.Add(1) }, func(e *rtspclient.RtspEvent) {
		if e.EventType == rtspclient.RtspEventDisconnected {
			m.discon.Add(1)
		}
	})
	return m
}

// forget empties the server's own record.
func forget(s *srv) { s.mu.Lock(); s.reqs = nil; s.mu.Unlock() }

func (m *memSess) connect(scen *scenario, u string) error {
	m.cc, m.sc = newPair()
	m.cc.in.limit = 1 << 16
	m.srv, _ = scen.server(m.sc)
	err := await(longWait, func() error {
		if e := m.s.ParsingURL(u); e != nil {
			return e
		}
		return m.s.SetConnection(m.cc)
	})
	forget(m.srv)
	return err
}

// frag264 is a fragment (FU-A) of n bytes; start and end as told.
func frag264(start, end bool, n int) []byte {
	b := make([]byte, 2+n)
	b[0], b[1] = 0x7c, b2b(start)<<7|b2b(end)<<6|5
	return b
}

func frag265(start, end bool, n int) []byte {
	b := make([]byte, 3+n)
	b[0], b[1], b[2] = 49<<1, 1, b2b(start)<<7|b2b(end)<<6|19
	return b
}

// memKinds are the kinds of traffic. Each returns the work of one phase, and how much of what it retains for a while is legitimate.
var memKinds = []string{"media", "media", "unended", "restarted", "rtcp", "stray", "responses", "controls", "refused", "idle",
	"replays", "sessions", "failed", "faults", "connections", "messages", "sdp", "urls", "unanswered", "websocket", "blocked"}

func runM01(c *Ctx) {
	r := c.R
	kind := memKinds[c.Idx%len(memKinds)]
	codec := allCodecs[r.Intn(len(allCodecs))]
	c.Sig(kind, codec, r.Int63())
	c.Count(kind, 1)
	phases := 5
	if c.Tier == "thorough" {
		phases = 10
	}
	var work func()   // one phase
	var finish func() // lets everything go
	slack := int64(256 << 10)
	// the session of those kinds that need one
	var m *memSess
	g := newHdrGen(r)
	session := func(codecs ...string) bool {
		m = newMemSess()
		scen := defaultScenario(codecs...)
		ar := rand.New(rand.NewSource(r.Int63()))
		scen.onOther = func(s *srv, q *request) {
			forget(s)
			if kind != "unanswered" && q.method != "TEARDOWN" {
				s.write(response{status: 200 + ar.Intn(300), reason: "X", hdr: []kv{{"CSeq", q.one("CSeq")}}}.plain())
			}
		}
		if err := m.connect(scen, testURL); err != nil {
			c.Violate("play", "a well behaved handshake failed: %v", err)
			return false
		}
		finish = func() { m.sc.Close() }
		return true
	}
	send := func(b []byte) { m.srv.write(b) }
	switch kind {
	case "media": // units of all kinds
		if !session(codec) {
			return
		}
		work = func() {
			for i := 0; i < 300; i++ {
				var notes []string
				var buf []byte
				for _, p := range trackPackets(r, codec, 30, 200, []int{1400, 60}[r.Intn(2)], &notes) {
					buf = append(buf, frame(0, rtpPacket(r, g.next(p), p.payload))...)
					c.Count("events", 1)
				}
				send(buf)
			}
		}
	case "unended", "restarted": // fragments of units that never end
		name, frag := "H264", frag264
		switch r.Intn(3) {
		case 0:
			name, frag = "H265", frag265
		case 1:
			if kind == "unended" {
				name, frag = "BBW", func(start, end bool, n int) []byte { return make([]byte, n+1) }
			}
		}
		if !session(name) {
			return
		}
		slack = 20 << 20 // one unit of 8 MiB and the room of a growing buffer
		n := 15000 + r.Intn(45000)
		first := true
		work = func() {
			for i := 0; i < 1500; i++ {
				h := g.next(pkt{})
				h.marker = false
				send(frame(0, rtpPacket(r, h, frag(kind == "restarted" || first, false, n))))
				first = false
				c.Count("events", 1)
			}
		}
	case "rtcp":
		if !session(codec) {
			return
		}
		work = func() {
			for i := 0; i < 800; i++ {
				var b []byte
				for j := 0; j < 20; j++ {
					b = append(b, frame(1, randBytes(r, 8+r.Intn(60)))...)
				}
				send(b)
				c.Count("events", 20)
			}
		}
	case "stray":
		if !session(codec) {
			return
		}
		work = func() {
			for i := 0; i < 800; i++ {
				var b []byte
				for j := 0; j < 20; j++ {
					h := g.next(pkt{})
					h.ssrc = r.Uint32()
					b = append(b, frame(2+r.Intn(254), rtpPacket(r, h, randBytes(r, 1+r.Intn(60))))...)
				}
				send(b)
				c.Count("events", 20)
			}
		}
	case "responses":
		if !session(codec) {
			return
		}
		work = func() {
			for i := 0; i < 4000; i++ {
				send(unexpected(r))
				c.Count("events", 1)
			}
		}
	case "controls", "refused", "unanswered":
		if !session(codec) {
			return
		}
		rounds := 4000
		if kind == "unanswered" {
			rounds = 300
		}
		work = func() {
			for i := 0; i < rounds; i++ {
				switch r.Intn(3) {
				case 0:
					m.s.SendPause()
				case 1:
					m.s.SendPlay(r.Intn(3)-1, 1)
				case 2:
					m.s.SendDescribe()
				}
				if kind == "refused" {
					m.s.SendPause()
				}
				if kind != "unanswered" || r.Intn(2) == 0 {
					await(longWait, func() error { _, e := m.s.WaitRtspResponse(); return e })
				}
				c.Count("events", 1)
				if kind == "unanswered" && m.discon.Load() > 0 { // it gave up: the next connection
					m.sc.Close()
					c.Count("sessions", 1)
					if err := m.connect(defaultScenario(codec), testURL); err != nil {
						c.Violate("play", "a well behaved handshake failed: %v", err)
						return
					}
					m.discon.Store(0)
				}
			}
		}
	case "idle": // nothing but time
		if !session(codec) {
			return
		}
		work = func() {
			for i := 0; i < 2000; i++ {
				time.Sleep(time.Duration(1+r.Intn(300)) * time.Second)
				if r.Intn(4) == 0 {
					send(frame(1, randBytes(r, 20)))
				}
				c.Count("events", 1)
			}
		}
	case "replays", "failed", "faults": // one session, many connections
		m = newMemSess()
		finish = func() {}
		work = func() {
			for i := 0; i < 100; i++ {
				scen := defaultScenario(codec, "PCMU")
				memTexture(r, scen)
				scen.sess = randFrom(r, "0123456789", 12)
				good := i == 99 // every phase ends in the same state
				if kind == "failed" && !good {
					scen.status[[]string{"DESCRIBE", "SETUP0", "SETUP1", "PLAY"}[r.Intn(4)]] = 404
				}
				if kind == "faults" && !good {
					scen.override[[]string{"DESCRIBE", "SETUP0", "SETUP1", "PLAY"}[r.Intn(4)]] = func(s *srv, std []byte) []byte {
						if r.Intn(2) == 0 {
							s.c.Close()
						}
						return std[:r.Intn(len(std))]
					}
				}
				d := m.discon.Load()
				err := m.connect(scen, fmt.Sprintf("rtsp://u%d:p@10.1.2.3/%d", r.Int63(), r.Int63()))
				if err == errNoReturn {
					c.Violate("hang", "a play attempt did not return")
					return
				}
				if err == nil {
					var notes []string
					for _, p := range trackPackets(r, codec, 3, 300, 100, &notes) {
						send(frame(0, rtpPacket(r, g.next(p), p.payload)))
					}
					if r.Intn(2) == 0 { // half a unit
						send(frame(0, rtpPacket(r, plainHdr(), frag264(true, false, 1000))))
					}
					synctest.Wait()
					if r.Intn(2) == 0 {
						await(longWait, func() error { m.s.Close(); return nil })
					}
				}
				m.sc.Close()
				for j := 0; j < 100 && m.discon.Load() == d; j++ {
					time.Sleep(100 * time.Millisecond)
				}
				c.Count("sessions", 1)
				c.Count("events", 1)
			}
		}
	case "sessions", "websocket": // many sessions
		finish = func() {}
		work = func() {
			for i := 0; i < 120; i++ {
				x := newMemSess()
				scen := defaultScenario(codec)
				memTexture(r, scen)
				scen.sess = randFrom(r, "0123456789", 12)
				u := fmt.Sprintf("rtsp://u%d:p@10.1.%d.3/%d", r.Int63(), r.Intn(250), r.Int63())
				var err error
				if kind == "sessions" {
					err = x.connect(scen, u)
				} else {
					x.cc, x.sc = newPair()
					up := make(chan *srv, 1)
					go func() {
						w, e := wsUpgrade(x.sc, newWsCut(rand.New(rand.NewSource(1)), func(string, int) {}))
						if e != nil {
							close(up)
							return
						}
						s, _ := scen.server(w)
						up <- s
					}()
					dialWs(x.cc, nil)
					err = await(longWait, func() error {
						return x.s.PlayUseWebsocket(fmt.Sprintf("ws://10.1.%d.3:80/%d", r.Intn(250), r.Int63()), u)
					})
					dialWs(nil, net.ErrClosed)
					if err != nil {
						x.sc.Close()
					}
					x.srv = <-up
				}
				if err != nil {
					c.Violate("play", "a well behaved handshake failed: %v", err)
					return
				}
				x.srv.write(frame(0, rtpPacket(r, plainHdr(), frag264(true, false, 1000))))
				synctest.Wait()
				if r.Intn(2) == 0 {
					await(longWait, func() error { x.s.Close(); return nil })
				}
				x.sc.Close()
				for j := 0; j < 100 && x.discon.Load() == 0; j++ {
					time.Sleep(100 * time.Millisecond)
				}
				c.Count("sessions", 1)
				c.Count("events", 1)
			}
		}
	case "connections": // the layer below, many connections
		finish = func() {}
		work = func() {
			for i := 0; i < 300; i++ {
				x := newPlainConn(r)
				for k := r.Intn(20); k > 0; k-- {
					x.sc.put(frame(r.Intn(4), randBytes(r, 1+r.Intn(100))))
					x.conn.Send(randBytes(r, 1+r.Intn(100)), r.Intn(2) == 0)
				}
				synctest.Wait()
				if r.Intn(2) == 0 {
					x.conn.Close()
				}
				synctest.Wait()
				x.sc.Close()
				<-x.done
				c.Count("events", 1)
			}
		}
	case "messages": // the layer below, many messages
		x := newPlainConn(r)
		finish = func() { x.sc.Close(); <-x.done }
		go func() {
			buf := make([]byte, 4096)
			for {
				if _, err := x.sc.Read(buf); err != nil {
					return
				}
			}
		}()
		work = func() {
			for i := 0; i < 5000; i++ {
				x.sc.put(frame(r.Intn(4), randBytes(r, 1+r.Intn(100))))
				x.conn.Send(randBytes(r, 1+r.Intn(100)), r.Intn(2) == 0)
				if i%50 == 0 {
					synctest.Wait()
				}
				c.Count("events", 1)
			}
		}
	case "sdp": // descriptions, good and bad
		finish = func() {}
		work = func() {
			for i := 0; i < 3000; i++ {
				t := sdpHead + fmt.Sprintf("i=%d\r\na=x%d:%d\r\nm=video %d RTP/AVP 96\r\na=rtpmap:96 C%d/90000\r\na=control:t%d\r\n",
					r.Int63(), r.Int63(), r.Int63(), r.Intn(60000), r.Int63(), r.Int63())
				if r.Intn(4) == 0 {
					t = t[:r.Intn(len(t))]
				}
				if s, err := sdp.DecodeSession([]byte(t), nil); err == nil {
					d := sdp.NewDecoder(s)
					var msg sdp.Message
					if d.Decode(&msg) == nil {
						msg.Append(nil)
					}
				}
				c.Count("events", 1)
			}
		}
	case "blocked": // the application does not take its media: the server is held back instead
		hold := make(chan struct{})
		gate := func() { <-hold }
		var sc *memConn
		closed := make(chan struct{})
		if r.Intn(2) == 0 {
			m = &memSess{}
			m.s = rtspclient.NewRtspClientSession(func(*rtspclient.RtspData) { gate() }, func(*rtspclient.RtspEvent) {})
			if err := m.connect(defaultScenario(codec), testURL); err != nil {
				c.Violate("play", "a well behaved handshake failed: %v", err)
				return
			}
			sc = m.sc
			close(closed)
		} else {
			var cc *memConn
			cc, sc = newPair()
			cc.in.limit = 1 << 16
			conn := tcpnetwork.NewConnection(cc, 1+r.Intn(20), func(e *tcpnetwork.ConnEvent) {
				if e.EventType == tcpnetwork.ConnEventData {
					gate()
				}
				if e.EventType == tcpnetwork.ConnEventDisconnected {
					close(closed)
				}
			})
			conn.SetStreamProtocol(&rtspclient.RTPStreamProtocol{})
			conn.Run()
		}
		finish = func() { sc.Close(); close(hold); <-closed }
		work = func() {
			var done atomic.Bool
			go func() {
				for i := 0; i < 10000 && !done.Load(); i++ {
					h := g.next(pkt{})
					h.marker = true
					if !sc.put(frame(0, rtpPacket(r, h, append([]byte{0x41}, make([]byte, 1300)...)))) {
						return
					}
				}
			}()
			time.Sleep(10 * time.Minute)
			c.Count("events", 1)
			done.Store(true)
		}
	case "urls":
		m = newMemSess()
		finish = func() {}
		work = func() {
			for i := 0; i < 5000; i++ {
				m.s.ParsingURL(fmt.Sprintf("rtsp://u%d:p@10.1.%d.3/%d%s", r.Int63(), r.Intn(250), r.Int63(), strings.Repeat("x", r.Intn(100))))
				c.Count("events", 1)
			}
		}
	}
	var heaps []int64
	var gos []int
	synctest.Wait()
	for i := 0; i < phases; i++ {
		d0 := int64(0)
		if m != nil {
			d0 = m.data.Load()
		}
		work()
		synctest.Wait()
		if m != nil {
			if m.srv != nil {
				forget(m.srv)
			}
			c.Count("units", int(m.data.Load()-d0))
		}
		if c.Violated() {
			break
		}
		h, n := liveHeap()
		heaps, gos = append(heaps, h), append(gos, n)
		c.Count("phases", 1)
		if i > 0 {
			c.Count("measured", 1)
		}
	}
	finish()
	if len(heaps) == phases {
		var kb []int64
		for _, h := range heaps {
			kb = append(kb, h>>10)
		}
		if n := os.Getenv("VH_MEMDBG"); n != "" {
			f, _ := os.OpenFile(n, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			defer f.Close()
			fmt.Fprintln(f, "MEMDBG", kind, kb, (heaps[phases-1]-heaps[0])>>10, (heaps[phases-1]-heaps[phases/2])>>10)
		}
		c.Desc("%s (%s): live KiB %v, goroutines %v", kind, codec, kb, gos)
		// growth that goes on: from the first phase on, and still in the second half
		if g, late := heaps[phases-1]-heaps[0], heaps[phases-1]-heaps[phases/2]; g > slack && late > slack/4 {
			c.Violate("grows", "%s: live heap grows by %d KiB over %d phases of the same traffic (KiB after each: %v)", kind, g>>10, phases-1, kb)
		}
		if d := gos[phases-1] - gos[0]; d >= 2*(phases-1) {
			c.Violate("goroutines", "%s: %d more goroutines after %d phases of the same traffic (%v)", kind, d, phases-1, gos)
		}
	}
	if m != nil {
		runtime.KeepAlive(m.s)
	}
	time.Sleep(10 * time.Second)
	synctest.Wait()
}

// memTexture gives the medias lines that differ from one description to the next.
func memTexture(r *rand.Rand, scen *scenario) {
	for i := range scen.medias {
		m := &scen.medias[i]
		m.attrs = append(m.attrs, fmt.Sprintf("fmtp:%d packetization-mode=1; sprop-parameter-sets=%s", m.pt, randFrom(r, "ABCDEFabcdef0123456789+/", 700)), "x"+randFrom(r, "abcdef", 12)+":"+randFrom(r, "0123456789", 300))
	}
}

// plainConn is a bare connection with its consumer.
type plainConn struct {
	conn *tcpnetwork.Connection
	sc   *memConn
	done chan struct{}
}

func newPlainConn(r *rand.Rand) *plainConn {
	x := &plainConn{done: make(chan struct{})}
	var cc *memConn
	cc, x.sc = newPair()
	cc.in.limit = 1 << 16
	x.conn = tcpnetwork.NewConnection(cc, 1+r.Intn(20), func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventDisconnected {
			close(x.done)
		}
	})
	x.conn.SetStreamProtocol(&rtspclient.RTPStreamProtocol{})
	x.conn.Run()
	return x
}
