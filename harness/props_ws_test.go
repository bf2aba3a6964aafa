package vharness

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"reflect"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"github.com/gorilla/websocket"
)

func init() {
	register(&prop{id: "W01", quick: 2500, thorough: 60000, bubble: true, run: runW01,
		rule: "the same conversation over TCP and over a hand-written WebSocket server that cuts its stream into random messages; non-trivial: every case",
		min:  map[string]int64{"pairs": 1000, "messages": 20000, "empty_messages": 1000, "empty_runs": 40, "fragmented": 1000, "text": 1000, "pings": 300, "played": 400, "failed": 200, "big_messages": 20, "server_ends": 200, "client_ends": 200, "idle": 500, "ping_checks": 400}})
}

// ---- a WebSocket server written from RFC 6455 ----------------------------------------------------------------------

type wsCut struct {
	r       *rand.Rand
	mode    int
	count   func(string, int)
	noCtl   bool
	maxSize int
}

func newWsCut(r *rand.Rand, count func(string, int)) *wsCut {
	return &wsCut{r: rand.New(rand.NewSource(r.Int63())), mode: r.Intn(5), count: count}
}

type wsConn struct {
	c       *memConn
	cut     *wsCut
	wmu     sync.Mutex
	acc     []byte
	out     []byte // decoded, not read yet
	errs    []string
	pongs   []string // contents of the client's pongs
	rawHead string
	gotEnd  bool // a close frame came in
	mu      sync.Mutex
}

func wsAccept(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

// wsUpgrade reads the client's upgrade request and answers it.
func wsUpgrade(c *memConn, cut *wsCut) (*wsConn, error) {
	w := &wsConn{c: c, cut: cut}
	buf := make([]byte, 4096)
	for !bytes.Contains(w.acc, []byte("\r\n\r\n")) {
		n, err := c.Read(buf)
		w.acc = append(w.acc, buf[:n]...)
		if err != nil {
			return nil, err
		}
	}
	head, rest, _ := strings.Cut(string(w.acc), "\r\n\r\n")
	w.acc = []byte(rest)
	w.rawHead = head
	key := ""
	for _, l := range strings.Split(head, "\r\n")[1:] {
		k, v, _ := strings.Cut(l, ":")
		if strings.EqualFold(k, "Sec-WebSocket-Key") {
			key = strings.TrimSpace(v)
		}
	}
	if key == "" {
		return nil, errors.New("no key")
	}
	c.put([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + wsAccept(key) + "\r\n\r\n"))
	return w, nil
}

func wsFrame(fin bool, op byte, p []byte) []byte {
	b := []byte{op}
	if fin {
		b[0] |= 0x80
	}
	switch {
	case len(p) < 126:
		b = append(b, byte(len(p)))
	case len(p) < 65536:
		b = append(b, 126)
		b = binary.BigEndian.AppendUint16(b, uint16(len(p)))
	default:
		b = append(b, 127)
		b = binary.BigEndian.AppendUint64(b, uint64(len(p)))
	}
	return append(b, p...)
}

// Read returns bytes of the client's data messages.
func (w *wsConn) Read(p []byte) (int, error) {
	for len(w.out) == 0 {
		for {
			n, ok := w.frame()
			if !ok {
				break
			}
			w.acc = w.acc[n:]
		}
		if len(w.out) > 0 {
			break
		}
		w.mu.Lock()
		e := w.gotEnd
		w.mu.Unlock()
		if e {
			return 0, io.EOF
		}
		buf := make([]byte, 65536)
		n, err := w.c.Read(buf)
		w.acc = append(w.acc, buf[:n]...)
		if err != nil && n == 0 {
			return 0, err
		}
	}
	n := copy(p, w.out)
	w.out = w.out[n:]
	return n, nil
}

func (w *wsConn) note(f string, a ...any) {
	w.mu.Lock()
	w.errs = append(w.errs, fmt.Sprintf(f, a...))
	w.mu.Unlock()
}

// frame decodes one client frame from acc; its length and whether there was one.
func (w *wsConn) frame() (int, bool) {
	b := w.acc
	if len(b) < 2 {
		return 0, false
	}
	op, n, k := b[0]&15, int(b[1]&0x7f), 2
	switch n {
	case 126:
		if len(b) < 4 {
			return 0, false
		}
		n, k = int(binary.BigEndian.Uint16(b[2:])), 4
	case 127:
		if len(b) < 10 {
			return 0, false
		}
		n, k = int(binary.BigEndian.Uint64(b[2:])), 10
	}
	if b[1]&0x80 == 0 {
		w.note("unmasked client frame")
	} else {
		k += 4
	}
	if len(b) < k+n {
		return 0, false
	}
	p := append([]byte(nil), b[k:k+n]...)
	if b[1]&0x80 != 0 {
		for i := range p {
			p[i] ^= b[k-4+i%4]
		}
	}
	switch op {
	case 0, 1, 2:
		if op == 1 {
			w.note("client message of type text")
		}
		w.out = append(w.out, p...)
	case 8:
		w.mu.Lock()
		w.gotEnd = true
		w.mu.Unlock()
	case 9:
	case 10:
		w.mu.Lock()
		w.pongs = append(w.pongs, string(p))
		w.mu.Unlock()
	default:
		w.note("client opcode %d", op)
	}
	return k + n, true
}

// Write sends b cut into messages.
func (w *wsConn) Write(b []byte) (int, error) {
	w.wmu.Lock()
	defer w.wmu.Unlock()
	k, r := w.cut, w.cut.r
	n := len(b)
	var out []byte
	msg := func(p []byte) {
		op := byte(2)
		if r.Intn(4) == 0 {
			op = 1
			k.count("text", 1)
		}
		k.count("messages", 1)
		if len(p) == 0 {
			k.count("empty_messages", 1)
		}
		if len(p) > 65535 {
			k.count("big_messages", 1)
		}
		if r.Intn(5) == 0 { // in fragments
			k.count("fragmented", 1)
			first := true
			for {
				c := r.Intn(len(p) + 1)
				out = append(out, wsFrame(false, op*b2b(first), p[:c])...)
				first = false
				p = p[c:]
				if r.Intn(3) == 0 && !k.noCtl {
					k.count("pings", 1)
					out = append(out, wsFrame(true, 9, []byte("hi"))...)
				}
				if r.Intn(2) == 0 {
					break
				}
			}
			out = append(out, wsFrame(true, 0, p)...)
			return
		}
		out = append(out, wsFrame(true, op, p)...)
	}
	for len(b) > 0 {
		c := len(b)
		switch k.mode {
		case 0:
		case 1:
			c = 1 + r.Intn(3)
		case 2:
			c = 1 + r.Intn(50)
		case 3:
			c = 1 + r.Intn(3000)
		case 4:
			c = []int{1, 2, 4, 12, 100, 1000, len(b), 4095, 4096, 4097}[r.Intn(10)]
		}
		c = min(c, len(b))
		for r.Intn(6) == 0 {
			msg(nil)
		}
		if k.mode >= 3 && r.Intn(100) == 0 {
			for i := 100 + r.Intn(200); i > 0; i-- {
				out = append(out, wsFrame(true, 2, nil)...)
			}
			k.count("empty_runs", 1)
		}
		msg(b[:c])
		b = b[c:]
		if !k.noCtl && r.Intn(20) == 0 {
			k.count("pings", 1)
			out = append(out, wsFrame(true, []byte{9, 10}[r.Intn(2)], randBytes(r, r.Intn(125)))...)
		}
	}
	if _, err := w.c.Write(out); err != nil {
		return 0, err
	}
	return n, nil
}

func b2b(v bool) byte {
	if v {
		return 1
	}
	return 0
}

func (w *wsConn) Close() error { return w.c.Close() }

// dialWs makes the library's dialer connect to conn.
func dialWs(conn net.Conn, err error) {
	websocket.HarnessDial = func(network, addr string) (net.Conn, error) {
		if err != nil {
			return nil, err
		}
		return conn, nil
	}
}

// ---- W01 ---------------------------------------------------------------------------------------------------------

type wsRun struct {
	err     string
	reqs    []string
	events  []int
	data    map[int][][]byte
	medias  map[int]rtspclient.MediaSubsession
	closed  bool
	badWs   string
	control string
	note    string
}

func runW01(c *Ctx) {
	seed := c.R.Int63()
	c.Sig(seed)
	c.Count("pairs", 1)
	a := wsOne(c, seed, false)
	b := wsOne(c, seed, true)
	if a.err == "" {
		c.Count("played", 1)
	} else {
		c.Count("failed", 1)
	}
	c.Desc("%s", a.note)
	switch {
	case a.err != b.err:
		c.Violate("outcome", "outcome %q over TCP, %q over WebSocket", a.err, b.err)
	case !reflect.DeepEqual(a.reqs, b.reqs):
		c.Violate("requests", "requests over TCP %q, over WebSocket %q", a.reqs, b.reqs)
	case a.control != b.control:
		c.Violate("control", "control requests: %s over TCP, %s over WebSocket", a.control, b.control)
	case !reflect.DeepEqual(a.events, b.events):
		c.Violate("events", "events over TCP %s, over WebSocket %s", evNames(a.events), evNames(b.events))
	case !reflect.DeepEqual(a.medias, b.medias):
		c.Violate("medias", "media table over TCP %v, over WebSocket %v", a.medias, b.medias)
	}
	for ch := range a.data {
		if d := diffBufs(b.data[ch], a.data[ch]); d != "" {
			c.Violate("media", "channel %d over WebSocket against TCP: %s", ch, d)
		}
	}
	for ch := range b.data {
		if a.data[ch] == nil && len(b.data[ch]) > 0 {
			c.Violate("media", "channel %d only over WebSocket", ch)
		}
	}
	if b.badWs != "" {
		c.Violate("frames", "%s", b.badWs)
	}
	if !b.closed {
		c.Violate("open", "the underlying connection was not closed after the end over WebSocket")
	}
	n := 0
	for _, e := range b.events {
		if e == rtspclient.RtspEventDisconnected {
			n++
		}
	}
	if n != 1 {
		c.Violate("disconnect", "%d disconnected events over WebSocket", n)
	}
}

func wsOne(c *Ctx, seed int64, ws bool) *wsRun {
	r := rand.New(rand.NewSource(seed))
	o := &wsRun{data: map[int][][]byte{}}
	n := 1 + r.Intn(3)
	var codecs []string
	for i := 0; i < n; i++ {
		codecs = append(codecs, allCodecs[r.Intn(len(allCodecs))])
	}
	scen := defaultScenario(codecs...)
	u := testURL
	if r.Intn(3) == 0 {
		u = "rtsp://us:pw@10.1.2.3:8554/live/ch1"
		scen.auth = []kv{{"WWW-Authenticate", `Digest realm="r", nonce="n"`}}
	}
	if r.Intn(5) == 0 { // requests of any length
		u += "/" + strings.Repeat("p", []int{100, 125, 500, 900, 1000, 2000, 4000, 9000, 40000, 65400, 70000}[r.Intn(11)]+r.Intn(150))
	}
	if r.Intn(3) == 0 {
		scen.layout = randLayout(rand.New(rand.NewSource(r.Int63())))
	}
	fault := ""
	if r.Intn(4) == 0 {
		at := []string{"DESCRIBE", "SETUP0", "SETUP1", "PLAY"}[r.Intn(4)]
		switch r.Intn(4) {
		case 0, 1:
			scen.status[at] = []int{404, 500, 454}[r.Intn(3)]
			fault = "status"
		case 2:
			scen.override[at] = func(s *srv, std []byte) []byte { return nil }
			fault = "silence"
		case 3:
			cutAt := r.Float64()
			scen.override[at] = func(s *srv, std []byte) []byte {
				s.write(std[:int(cutAt*float64(len(std)))])
				s.c.Close()
				return nil
			}
			fault = "eof"
		}
		fault += " at " + at
	}
	if r.Intn(6) == 0 { // a long description
		scen.medias[0].attrs = append(scen.medias[0].attrs, "note:"+strings.Repeat("x", 2000+r.Intn(30000)))
	}
	tracks := make([][]pkt, n)
	var notes []string
	for i, cd := range codecs {
		limit := []int{1400, 100, 30000, 65000}[r.Intn(4)]
		tracks[i] = trackPackets(r, cd, 1+r.Intn(8), 2*limit, limit, &notes)
	}
	gens := make([]*hdrGen, n)
	for i := range gens {
		gens[i] = newHdrGen(r)
	}
	m := muxTracks(r, tracks, func(t int, k pkt) []byte { return rtpPacket(r, gens[t].next(k), k.payload) }, func() []byte {
		if r.Intn(6) == 0 {
			return frame(2*r.Intn(n)+1, randBytes(r, r.Intn(40)))
		}
		return nil
	})
	segs := 1 + r.Intn(4)
	controls := r.Intn(3)
	pauseSt := 200 + r.Intn(3)*100
	how := r.Intn(4)
	behind := r.Intn(2) == 0 // media directly behind the PLAY answer
	idle := func() {}        // both servers are silent for the same time at the same places
	if r.Intn(2) == 0 {
		pr := rand.New(rand.NewSource(r.Int63()))
		idle = func() {
			if pr.Intn(2) == 0 {
				d := randIdle(pr)
				if ws {
					c.Count("idle", 1)
				}
				time.Sleep(d)
				synctest.Wait()
			}
		}
	}
	wr := rand.New(rand.NewSource(r.Int63()))
	wsPath := []string{"/ws", "/ws", "/", "/live/a%20b?token=x%2Fy&z=1", "/a//b/", "/ws?u=rtsp://10.1.2.3/x"}[wr.Intn(6)]
	wsHost := []string{"10.1.2.3:80", "10.1.2.3", "media.example.com:8088", "[2001:db8::1]:9000"}[wr.Intn(4)]
	o.note = fmt.Sprintf("%v fault %q auth %v, %d units, %d controls, end %d", codecs, fault, scen.auth != nil, m.total, controls, how)

	scen.onOther = func(s *srv, q *request) {
		s.write(response{status: pauseSt, reason: "X", hdr: []kv{{"CSeq", q.one("CSeq")}}}.plain())
	}
	if behind {
		std := scen.override["PLAY"]
		if std == nil && scen.status["PLAY"] == 0 {
			scen.override["PLAY"] = func(s *srv, std []byte) []byte { return append(std, m.buf...) }
		}
	}
	cl := newClient()
	cc, sc := newPair()
	cc.chunk, _ = pickChunker(wr)
	var s *srv
	var wc *wsConn
	var err error
	if !ws {
		s, _ = scen.server(sc)
		err = cl.play(cc, u)
	} else {
		cut := newWsCut(wr, c.Count)
		ready := make(chan struct{})
		go func() {
			defer close(ready)
			w, e := wsUpgrade(sc, cut)
			if e != nil {
				return
			}
			wc = w
			s, _ = scen.server(w)
		}()
		dialWs(cc, nil)
		err = await(longWait, func() error {
			return cl.s.PlayUseWebsocket("ws://"+wsHost+wsPath, u)
		})
		<-ready
		if wc != nil {
			line, _, _ := strings.Cut(wc.rawHead, "\r\n")
			if line != "GET "+wsPath+" HTTP/1.1" || !strings.Contains(wc.rawHead+"\r\n", "\r\nHost: "+wsHost+"\r\n") {
				c.Violate("upgrade", "upgrade request for ws://%s%s is %q", wsHost, wsPath, clip(wc.rawHead, 400))
			}
		}
		if s == nil {
			c.Violate("upgrade", "no upgrade request was made: %v", err)
			sc.Close()
			return o
		}
	}
	if err == errNoReturn {
		c.Violate("hang", "the attempt did not return (WebSocket %v)", ws)
	}
	if err != nil {
		o.err = "error"
	}
	synctest.Wait()
	o.medias = cl.s.RtpMediaMap
	if err == nil {
		idle()
		if !behind {
			b := m.buf
			for k := segs; k > 0 && len(b) > 0; k-- {
				i := len(b)
				if k > 1 {
					i = wr.Intn(len(b) + 1)
				}
				s.write(b[:i])
				b = b[i:]
				synctest.Wait()
				if k > 1 {
					idle()
				}
			}
		}
		cl.waitData(m.total, 10*time.Second)
		synctest.Wait()
		for i := 0; i < controls; i++ {
			idle()
			cl.s.SendPause()
			var st int
			e := await(longWait, func() error {
				rp, e := cl.s.WaitRtspResponse()
				if e == nil {
					st = rp.Status
				}
				return e
			})
			o.control += fmt.Sprintf("%d/%v ", st, e)
		}
	}
	idle()
	if ws && err == nil && wr.Intn(2) == 0 { // a ping outside or between messages wants its pong
		for k := wr.Intn(3); k >= 0; k-- {
			pl := randBytes(wr, wr.Intn(126))
			wc.wmu.Lock()
			sc.put(wsFrame(true, 9, pl))
			wc.wmu.Unlock()
			time.Sleep(time.Second)
			synctest.Wait()
			wc.mu.Lock()
			ok := len(wc.pongs) > 0 && wc.pongs[len(wc.pongs)-1] == string(pl)
			wc.mu.Unlock()
			c.Count("ping_checks", 1)
			if !ok && cl.countEvent(rtspclient.RtspEventDisconnected) == 0 {
				c.Violate("pong", "a ping of %d bytes on a running session was not answered by its pong within a second", len(pl))
				break
			}
		}
	}
	// the end
	switch {
	case how == 0 && err == nil || how == 1:
		if ws {
			c.Count("client_ends", 1)
		}
		if await(longWait, func() error { cl.s.Close(); return nil }) != nil {
			c.Violate("hang", "Close did not return (WebSocket %v)", ws)
		}
	case ws && how == 2: // a proper WebSocket close
		c.Count("server_ends", 1)
		wc.wmu.Lock()
		sc.put(wsFrame(true, 8, []byte{0x03, 0xe8}))
		wc.wmu.Unlock()
		time.Sleep(time.Second)
		synctest.Wait()
		if cl.countEvent(rtspclient.RtspEventDisconnected) == 0 {
			c.Violate("disconnect", "a WebSocket close by the server is not reported")
		}
		sc.Close()
	default:
		if ws {
			c.Count("server_ends", 1)
		}
		sc.Close()
	}
	if !cl.waitEvent(rtspclient.RtspEventDisconnected, 1, 30*time.Second) {
		c.Violate("disconnect", "the end was not reported (WebSocket %v)", ws)
	}
	time.Sleep(8 * time.Second)
	synctest.Wait()
	o.closed = cc.closeCount() > 0
	sc.Close()
	o.reqs = nil
	for _, q := range s.requests() {
		o.reqs = append(o.reqs, q.raw)
	}
	if how == 1 && err != nil || how != 0 && how != 1 {
		// whether a teardown gets through depends on who was first
		var keep []string
		for _, q := range o.reqs {
			if !strings.HasPrefix(q, "TEARDOWN") {
				keep = append(keep, q)
			}
		}
		o.reqs = keep
	}
	o.events = errorFirst(cl.events())
	for _, e := range cl.entries() {
		if e.event < 0 {
			o.data[e.ch] = append(o.data[e.ch], e.data)
		}
	}
	if err == nil {
		for ch, w := range m.want {
			if d := diffBufs(o.data[ch], w); d != "" {
				c.Violate("media", "channel %d (WebSocket %v): %s", ch, ws, d)
			}
		}
	}
	if b := cl.badNotes(); b != "" {
		c.Violate("label", "%s", b)
	}
	if wc != nil {
		wc.mu.Lock()
		o.badWs = strings.Join(wc.errs, "; ")
		wc.mu.Unlock()
	}
	return o
}
