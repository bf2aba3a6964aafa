package vharness

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"github.com/NodeBoy2/rtspclient/tcpnetwork"
	"github.com/gorilla/websocket"
)

func init() {
	register(&prop{id: "C01", quick: 320, thorough: 12000, race: true, run: runC01,
		rule: "each case runs several sessions and connections at once on the race-detector build, with random pauses in reads, callbacks and calls; its signature is the observed order of calls and callbacks; non-trivial: every case",
		min: map[string]int64{"sessions": 1000, "trips": 1500, "played": 700, "replay_in_handler": 150, "replay_at_once": 150, "media": 20000, "owned_buffers": 20000, "closes": 500,
			"connections": 200, "conn_sends": 5000, "conn_data": 5000, "conn_concurrent_closes": 50, "tcp": 200, "websocket": 200, "memory": 200}})
}

// rtrace is the record of one session: no lock, no synchronisation the race detector could see.
type rtrace struct {
	seed uint64
	n    atomic.Uint64
	pos  atomic.Int64
	ops  [4096]atomic.Int32
}

func (t *rtrace) note(op int) {
	raceOff()
	if i := t.pos.Add(1) - 1; i < int64(len(t.ops)) {
		t.ops[i].Store(int32(op))
	}
	raceOn()
}

func (t *rtrace) dice(n int) int {
	raceOff()
	x := t.seed + 0x9e3779b97f4a7c15*t.n.Add(1)
	raceOn()
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return int((x ^ x>>31) % uint64(n))
}

func (t *rtrace) pause() {
	switch t.dice(12) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for k := t.dice(300); k > 0; k-- {
			t.dice(2)
		}
	case 3:
		time.Sleep(time.Duration(t.dice(60)) * time.Microsecond)
	case 4:
		time.Sleep(time.Duration(t.dice(400)) * time.Microsecond)
	}
}

func (t *rtrace) sum() (string, int) {
	n := min(int(t.pos.Load()), len(t.ops))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(t.ops[i].Load())
	}
	return string(b), n
}

// tallies is shared by everything in a case; only atomics with the detector looking away.
type tallies struct{ v [16]atomic.Int64 }

const (
	tSessions = iota
	tTrips
	tPlayed
	tReplayHandler
	tReplayAtOnce
	tMedia
	tOwned
	tCloses
	tConns
	tConnSends
	tConnData
	tConnCloses
	tTCP
	tWS
	tMem
	tUnfinished
)

var tNames = []string{"sessions", "trips", "played", "replay_in_handler", "replay_at_once", "media", "owned_buffers", "closes",
	"connections", "conn_sends", "conn_data", "conn_concurrent_closes", "tcp", "websocket", "memory", "unfinished"}

func (t *tallies) add(k, n int) { raceOff(); t.v[k].Add(int64(n)); raceOn() }

// ownBuffer uses a delivered buffer the way its owner may: the name is known to raceKey.
func ownBuffer(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

// ---- loopback WebSocket listener, shared by the whole worker ------------------------------------------------------------------

type loop struct {
	ws   string
	mu   sync.Mutex
	wait map[string]chan net.Conn // by path
}

var theLoop = sync.OnceValues(func() (*loop, error) {
	l := &loop{wait: map[string]chan net.Conn{}}
	wl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	l.ws = wl.Addr().String()
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	go http.Serve(wl, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		l.mu.Lock()
		ch := l.wait[r.URL.Path]
		l.mu.Unlock()
		if ch == nil {
			c.Close()
			return
		}
		ch <- &gwsConn{c: c}
	}))
	return l, nil
})

// gwsConn is the server end of a WebSocket connection as a byte stream.
type gwsConn struct {
	c    *websocket.Conn
	left []byte
	net.Conn
}

func (w *gwsConn) Read(p []byte) (int, error) {
	for len(w.left) == 0 {
		_, m, err := w.c.ReadMessage()
		if err != nil {
			return 0, err
		}
		w.left = m
	}
	n := copy(p, w.left)
	w.left = w.left[n:]
	return n, nil
}
func (w *gwsConn) Write(p []byte) (int, error) {
	if err := w.c.WriteMessage(websocket.BinaryMessage, p); err != nil {
		return 0, err
	}
	return len(p), nil
}
func (w *gwsConn) Close() error { return w.c.UnderlyingConn().Close() }

// ---- sessions -------------------------------------------------------------------------------------------------------

type rsess struct {
	t       *rtrace
	tl      *tallies
	s       *rtspclient.RtspClientSession
	own     chan []byte
	gone    chan struct{} // a disconnection was reported
	handoff chan func()
}

func newRsess(seed int64, tl *tallies) *rsess {
	x := &rsess{t: &rtrace{seed: uint64(seed)}, tl: tl, own: make(chan []byte, 1024), gone: make(chan struct{}, 64), handoff: make(chan func(), 1)}
	x.s = rtspclient.NewRtspClientSession(x.data, x.event)
	return x
}

func (x *rsess) data(d *rtspclient.RtspData) {
	x.t.note(10 + d.ChannelNum&7)
	x.tl.add(tMedia, 1)
	x.t.pause()
	select {
	case x.own <- d.Data:
	default:
		ownBuffer(d.Data)
	}
}

func (x *rsess) event(e *rtspclient.RtspEvent) {
	x.t.note(20 + e.EventType)
	x.t.pause()
	if e.EventType == rtspclient.RtspEventDisconnected {
		select {
		case f := <-x.handoff:
			f()
		default:
			x.gone <- struct{}{}
		}
	}
}

// trip is what the server does on one connection.
type raceTrip struct {
	scen      *scenario
	transport int
	frames    int
	endAfter  bool // the server ends the connection after its frames
	atOnce    bool
	inHandler bool
	controls  int
	doClose   bool
}

func (x *rsess) plan(r *rand.Rand) *raceTrip {
	n := 1 + r.Intn(3)
	codecs := make([]string, n)
	for i := range codecs {
		codecs[i] = allCodecs[r.Intn(len(allCodecs))]
	}
	k := &raceTrip{scen: defaultScenario(codecs...), transport: r.Intn(3), frames: r.Intn(60), endAfter: r.Intn(2) == 0, controls: r.Intn(3), doClose: r.Intn(3) > 0}
	if !k.endAfter {
		k.doClose = true
	}
	switch r.Intn(3) {
	case 0:
		k.atOnce = true
		if k.transport == 2 {
			k.transport = 0
		}
	case 1:
		k.inHandler = true
	}
	steps := []string{"DESCRIBE", "SETUP0", "SETUP1", "PLAY"}
	if r.Intn(4) == 0 {
		k.scen.status[steps[r.Intn(4)]] = 404
	}
	if r.Intn(3) == 0 {
		k.scen.auth = []kv{{"WWW-Authenticate", []string{`Digest realm="r", nonce="n"`, `Basic realm="r"`}[r.Intn(2)]}}
	}
	seed := uint64(r.Int63())
	t := &rtrace{seed: seed}
	media := func(s *srv, m int) {
		rr := rand.New(rand.NewSource(int64(t.dice(1 << 30))))
		var b []byte
		for ; m > 0; m-- {
			i := rr.Intn(n)
			var notes []string
			for _, p := range trackPackets(rr, codecs[i], 1, 60, 40, &notes) {
				b = append(b, frame(2*i, rtpPacket(rr, rtpHdr{pt: 96, ext: -1, marker: p.marker}, p.payload))...)
			}
			if rr.Intn(4) == 0 {
				s.write(b)
				b = nil
				t.pause()
			}
			if rr.Intn(30) == 0 {
				b = append(b, response{status: 200, reason: "OK", hdr: []kv{{"CSeq", "900"}}}.plain()...)
			}
		}
		s.write(b)
	}
	quit := ""
	if r.Intn(6) == 0 {
		quit = steps[r.Intn(4)]
	}
	noise := r.Intn(3)
	k.scen.before = func(s *srv, step string) {
		t.pause()
		if noise == 0 {
			media(s, t.dice(6))
		}
		if step == quit {
			if t.dice(2) == 0 {
				s.write([]byte("RTSP/1.0 200 O"))
			}
			s.c.Close()
		}
	}
	k.scen.after = func(s *srv, step string) {
		if step == "PLAY" {
			go func() {
				media(s, k.frames)
				if k.endAfter {
					t.pause()
					s.c.Close()
				}
			}()
		}
	}
	drop := r.Intn(3)
	k.scen.onOther = func(s *srv, q *request) {
		t.pause()
		if q.method == "TEARDOWN" && drop == 0 {
			s.c.Close()
			return
		}
		s.write(response{status: 200, reason: "OK", hdr: []kv{{"CSeq", q.one("CSeq")}}}.plain())
		if t.dice(6) == 0 {
			s.write(response{status: 200, reason: "OK", hdr: []kv{{"CSeq", q.one("CSeq")}}}.plain())
		}
		if q.method == "TEARDOWN" && drop == 1 {
			t.pause()
			s.c.Close()
		}
	}
	return k
}

var racePath atomic.Int64

// run plays the trips from i on; the caller is the only user of the session.
func (x *rsess) run(trips []*raceTrip, i int, made int, finished chan struct{}) {
	l, lerr := theLoop()
	if lerr != nil {
		close(finished)
		return
	}
	for ; i < len(trips); i++ {
		k := trips[i]
		idle := make(chan struct{})
		handed := false
		last := i == len(trips)-1
		if k.transport == 2 || k.inHandler { // these need the earlier ends to be reported first
			for ; made > 0; made-- {
				<-x.gone
			}
		}
		if k.inHandler && !last {
			handed = true
			j := i + 1
			x.handoff <- func() {
				<-idle
				x.tl.add(tReplayHandler, 1)
				x.run(trips, j, 0, finished)
			}
		}
		x.tl.add(tTrips, 1)
		x.tl.add(tTCP+k.transport, 1)
		x.t.note(1)
		var err error
		try := func(f func() error) {
			for n := 0; n < 20000; n++ {
				if err = f(); err == nil || err.Error() != "session is connected" {
					return
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
		user := ""
		if k.scen.auth != nil {
			user = "us:pw@"
		}
		switch k.transport {
		case 0:
			tcp, e := net.Listen("tcp", "127.0.0.1:0")
			if e != nil {
				close(finished)
				return
			}
			go func() {
				if c, e := tcp.Accept(); e == nil {
					k.scen.server(c)
				}
			}()
			try(func() error { return x.s.Play("rtsp://" + user + tcp.Addr().String() + "/a/b") })
			tcp.Close()
		case 1:
			path := fmt.Sprintf("/ws%d", racePath.Add(1))
			ch := make(chan net.Conn, 1)
			l.mu.Lock()
			l.wait[path] = ch
			l.mu.Unlock()
			stop := make(chan struct{})
			go func() {
				select {
				case c := <-ch:
					k.scen.server(c)
				case <-stop:
				}
			}()
			try(func() error { return x.s.PlayUseWebsocket("ws://"+l.ws+path, "rtsp://"+user+"h/a/b") })
			close(stop)
			l.mu.Lock()
			delete(l.wait, path)
			l.mu.Unlock()
		default:
			cc, sc := newPair()
			sd := uint64(x.t.dice(1 << 30))
			ct := &rtrace{seed: sd}
			cc.chunk = func(want, avail, seg int) int {
				switch ct.dice(4) {
				case 0:
					return 1
				case 1:
					return min(want, seg)
				case 2:
					return min(want, avail, 1+ct.dice(300))
				}
				return min(want, avail)
			}
			k.scen.server(sc)
			if err = x.s.ParsingURL("rtsp://" + user + "10.0.0.1/a/b"); err == nil {
				err = x.s.SetConnection(cc)
			}
		}
		x.t.note(2)
		made++
		if err == nil {
			x.tl.add(tPlayed, 1)
			for ch := range x.s.RtpMediaMap {
				_ = x.s.RtpMediaMap[ch].CodecName
			}
			for c := 0; c < k.controls; c++ {
				x.t.pause()
				if c&1 == 0 {
					x.s.SendPause()
				} else {
					x.s.SendPlay(0, 1)
				}
				x.t.note(3)
				_, e := x.s.WaitRtspResponse()
				x.t.note(4)
				if e != nil {
					break
				}
			}
		}
		x.t.pause()
		if k.doClose || err != nil {
			x.tl.add(tCloses, 1)
			x.t.note(5)
			x.s.Close()
			x.t.note(6)
		}
		if handed {
			close(idle)
			return // the rest is played in the handler, when the end is reported
		}
		if k.atOnce && !last {
			x.tl.add(tReplayAtOnce, 1)
			continue
		}
		for ; made > 0; made-- {
			<-x.gone
		}
	}
	for ; made > 0; made-- {
		<-x.gone
	}
	close(finished)
}

func (x *rsess) consume() {
	for b := range x.own {
		ownBuffer(b)
		x.tl.add(tOwned, 1)
	}
}

// ---- connections ----------------------------------------------------------------------------------------------------

func raceConn(r *rand.Rand, tl *tallies) (*rtrace, func()) {
	t := &rtrace{seed: uint64(r.Int63())}
	cc, sc := newPair()
	cc.chunk = func(want, avail, seg int) int { return min(want, avail, 1+t.dice(200)) }
	gone := make(chan struct{})
	ready := make(chan struct{})
	own := make(chan []byte, 256)
	p := &testProto{hl: 4, marker: []byte("\r\n\r\n")}
	if r.Intn(2) == 0 {
		p.header = func(m []byte) []byte { return binary.BigEndian.AppendUint16([]byte("L"), uint16(len(m))) }
	}
	conn := tcpnetwork.NewConnection(cc, 1+r.Intn(40), func(e *tcpnetwork.ConnEvent) {
		t.note(30 + e.EventType)
		t.pause()
		switch e.EventType {
		case tcpnetwork.ConnEventData:
			tl.add(tConnData, 1)
			if t.dice(20) == 0 {
				e.Conn.Send([]byte("echo"), t.dice(2) == 0)
			}
			own <- e.Data
		case tcpnetwork.ConnEventDisconnected:
			close(gone)
		}
	})
	conn.SetStreamProtocol(p)
	if r.Intn(2) == 0 {
		conn.SetReadTimeoutSec(5)
	}
	senders, closers, frames := 1+r.Intn(4), r.Intn(3), r.Intn(80)
	msgs := 20 + r.Intn(30)
	peerEnd := closers == 0 || r.Intn(3) == 0
	return t, func() {
		tl.add(tConns, 1)
		go func() {
			for b := range own {
				ownBuffer(b)
			}
		}()
		go func() { // peer
			buf := make([]byte, 4096)
			for {
				if _, err := sc.Read(buf); err != nil {
					return
				}
			}
		}()
		conn.Run()
		close(ready)
		var wg sync.WaitGroup
		for i := 0; i < senders; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				buf := make([]byte, 40)
				for k := 0; k < msgs; k++ {
					t.pause()
					tl.add(tConnSends, 1)
					t.note(40)
					if t.dice(2) == 0 {
						ownBuffer(buf)
						conn.Send(buf[:1+t.dice(40)], true)
					} else {
						conn.Send(make([]byte, 1+t.dice(40)), false)
					}
					t.note(41)
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 30; k++ {
				t.pause()
				conn.GetStatus()
			}
		}()
		wg.Add(1)
		go func() { // the peer's messages
			defer wg.Done()
			for k := 0; k < frames; k++ {
				m := []byte{'L', 0, 30, 'x'}
				m = append(m, make([]byte, 30)...)
				if t.dice(4) == 0 {
					m = []byte("E123456\r\n\r\n")
				}
				sc.put(m)
				t.pause()
			}
			if peerEnd {
				sc.Close()
			}
		}()
		for i := 0; i < closers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := t.dice(40); k > 0; k-- {
					t.pause()
				}
				t.note(42)
				tl.add(tConnCloses, 1)
				conn.Close()
				t.note(43)
			}()
		}
		wg.Wait()
		sc.Close()
		<-gone
		close(own)
	}
}

func runC01(c *Ctx) {
	r := c.R
	tl := &tallies{}
	type part struct {
		t    *rtrace
		done chan struct{}
	}
	var parts []part
	runtime.GOMAXPROCS([]int{2, 3, 4, 8}[r.Intn(4)])
	for i := 2 + r.Intn(12); i > 0; i-- {
		x := newRsess(r.Int63(), tl)
		var trips []*raceTrip
		var d []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			q := x.plan(r)
			trips = append(trips, q)
			d = append(d, fmt.Sprintf("{transport %d frames %d serverEnds %v close %v atOnce %v inHandler %v fails %v}", q.transport, q.frames, q.endAfter, q.doClose, q.atOnce, q.inHandler, q.scen.status))
		}
		c.Desc("session %s", strings.Join(d, " "))
		tl.add(tSessions, 1)
		fin := make(chan struct{})
		go x.consume()
		go x.run(trips, 0, 0, fin)
		parts = append(parts, part{x.t, fin})
	}
	for i := r.Intn(6); i > 0; i-- {
		t, f := raceConn(r, tl)
		fin := make(chan struct{})
		go func() { f(); close(fin) }()
		parts = append(parts, part{t, fin})
	}
	limit := time.After(40 * time.Second)
	for _, p := range parts {
		select {
		case <-p.done:
			s, _ := p.t.sum()
			c.Sig(hash64([]byte(s)))
			c.Count("noted_steps", len(s))
		case <-limit:
			tl.add(tUnfinished, 1) // L01 and L03 judge that
			limit = time.After(time.Millisecond)
		}
	}
	c.Sig("case")
	for i, n := range tNames {
		c.Count(n, int(tl.v[i].Load()))
	}
}
