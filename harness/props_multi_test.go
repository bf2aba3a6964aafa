package vharness

import (
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"github.com/gorilla/websocket"
)

func init() {
	register(&prop{id: "C02", quick: 1200, thorough: 60000, bubble: true, run: runC02,
		rule: "2-6 sessions at the same time, some of them with the same address and content, some of them hostile or blocked, against each of them alone; non-trivial: at least two sessions live at the same time",
		min:  map[string]int64{"compared": 1000, "hostile": 300, "twins": 150, "units": 2000, "requests": 4000, "overlapping": 500, "websocket": 100}})
}

// multiLog is what one session saw and caused, with the time since its start.
type multiLog struct {
	err      string
	requests []string
	media    map[int][]string
	events   []string
	answers  []string
	medias   string
	hang     string
	from, to time.Time
	units    int
}

// multiDial lets the dialer of WebSocket sessions find its connection by address.
type multiDial struct {
	mu sync.Mutex
	m  map[string][]net.Conn
}

func (d *multiDial) install() {
	websocket.HarnessDial = func(network, addr string) (net.Conn, error) {
		d.mu.Lock()
		defer d.mu.Unlock()
		l := d.m[addr]
		if len(l) == 0 {
			return nil, fmt.Errorf("nobody listens at %s", addr)
		}
		d.m[addr] = l[1:]
		return l[0], nil
	}
}

// odd is a random time that hardly ever meets another event of the same session.
func odd(r *rand.Rand, max time.Duration) time.Duration {
	return time.Duration(1 + r.Int63n(int64(max)))
}

// multiRun plays one deterministic session from its seed. Everything it does depends on the seed and the clock only.
func multiRun(seed int64, dial *multiDial) *multiLog {
	r := rand.New(rand.NewSource(seed))
	lg := &multiLog{media: map[int][]string{}}
	ws := r.Intn(5) == 0
	n := 1 + r.Intn(3)
	var codecs []string
	for i := 0; i < n; i++ {
		codecs = append(codecs, allCodecs[r.Intn(len(allCodecs))])
	}
	scen := defaultScenario(codecs...)
	scen.sess = randFrom(r, "abcdefgh0123456789", 8)
	for i := range scen.medias { // format parameters of its own
		m := &scen.medias[i]
		if r.Intn(2) == 0 {
			m.attrs = append(m.attrs, fmt.Sprintf("fmtp:%d packetization-mode=1;k%s=%s", m.pt, randFrom(r, "abc", 1), randFrom(r, "0123456789", 3)))
		}
		if r.Intn(4) == 0 {
			m.attrs = append(m.attrs, "x-dimensions:"+randFrom(r, "123456789", 3)+","+randFrom(r, "123456789", 3), "framerate:"+randFrom(r, "123456789", 2))
		}
	}
	host := fmt.Sprintf("10.1.2.%d", 1+r.Intn(4))
	u := "rtsp://" + host + ":8554/live/" + randFrom(r, "ab", 1)
	if r.Intn(2) == 0 {
		u = strings.Replace(u, "rtsp://", "rtsp://"+randFrom(r, "abcd", 3)+":"+randFrom(r, "wxyz", 3)+"@", 1)
	}
	switch r.Intn(3) {
	case 0:
		scen.auth = []kv{{"WWW-Authenticate", `Basic realm="r` + randFrom(r, "0123", 2) + `"`}}
	case 1:
		scen.auth = []kv{{"WWW-Authenticate", `Digest realm="r` + randFrom(r, "0123", 2) + `", nonce="` + randFrom(r, "0123456789abcdef", 16) + `"`}}
	}
	dr := rand.New(rand.NewSource(r.Int63()))
	scen.delay = func(step string) time.Duration {
		if dr.Intn(2) == 0 {
			return 0
		}
		return odd(dr, 1500*time.Millisecond)
	}
	if r.Intn(6) == 0 {
		at := []string{"DESCRIBE", "DESCRIBE2", "SETUP0", "SETUP1", "PLAY"}[r.Intn(5)]
		if r.Intn(2) == 0 {
			scen.status[at] = []int{404, 500, 454}[r.Intn(3)]
		} else {
			scen.override[at] = func(s *srv, std []byte) []byte { return nil }
		}
	}
	ar := rand.New(rand.NewSource(r.Int63()))
	scen.onOther = func(s *srv, q *request) {
		if q.method != "TEARDOWN" && ar.Intn(3) == 0 {
			time.Sleep(odd(ar, 1900*time.Millisecond))
		}
		if q.method != "TEARDOWN" {
			s.write(response{status: 200 + ar.Intn(300), reason: "X", hdr: []kv{{"CSeq", q.one("CSeq")}, {"Session", scen.sess}}}.plain())
		}
	}
	cl := newClient()
	var slow time.Duration // the data handler takes that long for some of its calls
	if r.Intn(3) == 0 {
		slow = odd(r, 30*time.Millisecond)
	}
	cc, sc := newPair()
	cc.chunk, _ = pickChunker(r)
	var s *srv
	ready := make(chan struct{})
	// the media of the session
	type part struct {
		wait time.Duration
		buf  []byte
	}
	gens := make([]*hdrGen, n)
	for i := range gens {
		gens[i] = newHdrGen(r)
	}
	var parts []part
	want := map[int][][]byte{}
	for k := 1 + r.Intn(6); k > 0; k-- {
		var tracks [][]pkt
		var notes []string
		limit := []int{1400, 60, 20000}[r.Intn(3)]
		for _, cd := range codecs {
			tracks = append(tracks, trackPackets(r, cd, r.Intn(4), 2*limit, limit, &notes))
		}
		m := muxTracks(r, tracks, func(t int, k pkt) []byte { return rtpPacket(r, gens[t].next(k), k.payload) }, nil)
		for ch, w := range m.want {
			want[ch] = append(want[ch], w...)
		}
		lg.units += m.total
		// cut anywhere: what one session has half received is no business of the others
		i := r.Intn(len(m.buf) + 1)
		parts = append(parts, part{odd(r, 2*time.Second), m.buf[:i]}, part{odd(r, 300*time.Millisecond), m.buf[i:]})
	}
	type action struct {
		wait time.Duration
		f    int
	}
	var acts []action
	for k := r.Intn(5); k > 0; k-- {
		acts = append(acts, action{odd(r, 3*time.Second), r.Intn(2)})
	}
	atEnd, ends := odd(r, time.Second), r.Intn(2)
	startAfter := odd(r, 2*time.Second)
	if r.Intn(3) == 0 {
		startAfter = 0
	}
	slowN := 0
	slowR := rand.New(rand.NewSource(r.Int63()))
	cl.onData = func(*rtspclient.RtspData) {
		if slow > 0 && slowN < 20 && slowR.Intn(2) == 0 {
			slowN++
			time.Sleep(slow)
		}
	}

	time.Sleep(startAfter)
	t0 := time.Now()
	lg.from = t0
	stamp := func(t time.Time) string { return t.Sub(t0).String() }
	var err error
	if ws {
		go func() {
			defer close(ready)
			w, e := wsUpgrade(sc, newWsCut(rand.New(rand.NewSource(1)), func(string, int) {}))
			if e == nil {
				s, _ = scen.server(w)
			}
		}()
		dial.mu.Lock()
		// the address is the session's own: a twin has another listener
		addr := fmt.Sprintf("10.77.%d.%d:%d", rand.Intn(250), rand.Intn(250), 1+rand.Intn(60000))
		for dial.m[addr] != nil {
			addr = fmt.Sprintf("10.77.%d.%d:%d", rand.Intn(250), rand.Intn(250), 1+rand.Intn(60000))
		}
		dial.m[addr] = []net.Conn{cc}
		dial.mu.Unlock()
		err = await(longWait, func() error { return cl.s.PlayUseWebsocket("ws://"+addr+"/ws", u) })
		select {
		case <-ready:
		case <-time.After(10 * time.Second):
			sc.Close()
			<-ready
		}
	} else {
		s, _ = scen.server(sc)
		close(ready)
		err = cl.play(cc, u)
	}
	if err == errNoReturn {
		lg.hang = "the play attempt did not return"
	}
	if err != nil {
		lg.err = "error"
	}
	lg.answers = append(lg.answers, stamp(time.Now())+" played")
	if err == nil && s != nil {
		lg.medias = mediaTable(cl.s)
		for _, p := range parts {
			time.Sleep(p.wait)
			s.write(p.buf)
		}
		time.Sleep(25 * slow)
		for _, a := range acts {
			time.Sleep(a.wait)
			if a.f == 0 {
				cl.s.SendPause()
			} else {
				cl.s.SendPlay(-1, 1)
			}
			st := 0
			e := await(longWait, func() error {
				rp, e := cl.s.WaitRtspResponse()
				if e == nil {
					st = rp.Status
				}
				return e
			})
			if e == errNoReturn {
				lg.hang = "WaitRtspResponse did not return"
			}
			lg.answers = append(lg.answers, fmt.Sprintf("%s %d %v", stamp(time.Now()), st, e != nil))
			if e != nil {
				break
			}
		}
	}
	time.Sleep(atEnd)
	if err == nil {
		lg.answers = append(lg.answers, "at the end: "+mediaTable(cl.s))
	}
	if ends == 0 && err == nil {
		if await(longWait, func() error { cl.s.Close(); return nil }) != nil {
			lg.hang = "Close did not return"
		}
		lg.answers = append(lg.answers, stamp(time.Now())+" closed")
	} else {
		sc.Close()
	}
	if !cl.waitEvent(rtspclient.RtspEventDisconnected, 1, 30*time.Second) {
		lg.hang = "the end was never reported"
	}
	time.Sleep(10 * time.Second)
	sc.Close()
	cl.mu.Lock()
	for _, e := range cl.log {
		at := stamp(e.at)
		if e.event >= 0 {
			lg.events = append(lg.events, at+" "+evName(e.event))
		} else {
			lg.media[e.ch] = append(lg.media[e.ch], fmt.Sprintf("%s %s:%x", at, short(e.data), hash64(e.data)))
		}
	}
	sort.Strings(lg.events)
	lg.answers = append(lg.answers, cl.bad...)
	cl.mu.Unlock()
	if err == nil {
		for ch, w := range want {
			if d := diffBufs(cl.channel(ch), w); d != "" {
				lg.answers = append(lg.answers, fmt.Sprintf("channel %d: %s", ch, d))
			}
		}
	}
	prev := 0
	if s != nil {
		for i, q := range s.requests() {
			// only the distance of the sequence numbers counts
			step := "first"
			if i > 0 {
				step = fmt.Sprintf("+%d", q.cseq()-prev)
			}
			prev = q.cseq()
			lg.requests = append(lg.requests, stamp(q.at)+" "+strings.Replace(q.raw, "CSeq: "+q.one("CSeq")+"\r\n", "CSeq: "+step+"\r\n", 1))
		}
	}
	lg.to = time.Now()
	return lg
}

// mediaTable is what the session's media table says now.
func mediaTable(s *rtspclient.RtspClientSession) string {
	return fmt.Sprintf("%d %+v", len(s.RtpMediaMap), s.RtpMediaMap)
}

// aggressor is a session that behaves as badly as it can, for a while. Its own fate does not matter.
func aggressor(seed int64, c *Ctx) {
	r := rand.New(rand.NewSource(seed))
	scen := defaultScenario(allCodecs[r.Intn(len(allCodecs))], allCodecs[r.Intn(len(allCodecs))])
	cl := newClient()
	cc, sc := newPair()
	defer sc.Close()
	how := r.Intn(8)
	c.Desc("hostile session, kind %d", how)
	block := func() { time.Sleep(odd(r, 60*time.Second)) }
	first := true
	switch how {
	case 0: // the data handler blocks
		cl.onData = func(*rtspclient.RtspData) {
			if first {
				first = false
				block()
			}
		}
	case 1: // an event handler blocks
		cl.onEvent = func(e *rtspclient.RtspEvent) {
			if first {
				first = false
				block()
			}
		}
	case 2: // the server never reads
		cc.out.limit = r.Intn(100)
		cc.stall(true)
	case 3: // no answer to one of the requests
		scen.override[[]string{"DESCRIBE", "SETUP0", "SETUP1", "PLAY"}[r.Intn(4)]] = func(s *srv, std []byte) []byte { return nil }
	case 4: // half an answer
		scen.override[[]string{"DESCRIBE", "SETUP0", "SETUP1", "PLAY"}[r.Intn(4)]] = func(s *srv, std []byte) []byte { return std[:r.Intn(len(std))] }
	case 5: // garbage
		scen.override[[]string{"DESCRIBE", "SETUP0", "SETUP1", "PLAY"}[r.Intn(4)]] = func(s *srv, std []byte) []byte { return append(std, garbage(r, 3000)...) }
	}
	time.Sleep(odd(r, 3*time.Second))
	s, _ := scen.server(sc)
	err := cl.play(cc, testURL)
	if err == nil {
		g := newHdrGen(r)
		for k := r.Intn(60); k > 0; k-- {
			var notes []string
			var buf []byte
			for _, p := range trackPackets(r, "H264", 1+r.Intn(3), 30000, 1400, &notes) {
				if how == 6 && r.Intn(4) == 0 {
					continue
				}
				buf = append(buf, frame(2*r.Intn(3), rtpPacket(r, g.next(p), p.payload))...)
			}
			if r.Intn(3) == 0 {
				buf = append(buf, response{status: 200, reason: "OK", hdr: []kv{{"CSeq", "1"}, {"Session", "evil"}}}.plain()...)
			}
			go s.write(buf)
			if r.Intn(2) == 0 {
				time.Sleep(odd(r, 300*time.Millisecond))
			}
			if how == 7 && r.Intn(10) == 0 {
				cl.s.SendPause()
			}
		}
	}
	if how == 2 {
		time.Sleep(odd(r, 40*time.Second))
		cc.stall(false)
	}
	if r.Intn(2) == 0 {
		await(longWait, func() error { cl.s.Close(); return nil })
	}
	sc.Close()
	cl.waitEvent(rtspclient.RtspEventDisconnected, 1, 100*time.Second)
	time.Sleep(10 * time.Second)
}

func runC02(c *Ctx) {
	r := c.R
	dial := &multiDial{m: map[string][]net.Conn{}}
	dial.install()
	k := 1 + r.Intn(4)
	var seeds []int64
	for i := 0; i < k; i++ {
		seeds = append(seeds, r.Int63())
		if r.Intn(4) == 0 {
			seeds = append(seeds, seeds[len(seeds)-1])
			c.Count("twins", 1)
		}
	}
	var hostile []int64
	for j := r.Intn(4); j > 0 || len(seeds)+len(hostile) < 2; j-- {
		hostile = append(hostile, r.Int63())
		c.Count("hostile", 1)
	}
	c.Desc("%d sessions, %d hostile ones", len(seeds), len(hostile))
	together := make([]*multiLog, len(seeds))
	var wg sync.WaitGroup
	for i, sd := range seeds {
		wg.Add(1)
		go func() { defer wg.Done(); together[i] = multiRun(sd, dial) }()
	}
	for _, sd := range hostile {
		wg.Add(1)
		go func() { defer wg.Done(); aggressor(sd, c) }()
	}
	wg.Wait()
	synctest.Wait()
	c.Sig(seeds, hostile)
	for i, a := range together {
		for j, b := range together {
			if i < j && a.from.Before(b.to) && b.from.Before(a.to) {
				c.Count("overlapping", 1)
			}
		}
	}
	for i, sd := range seeds {
		alone := multiRun(sd, dial)
		got := together[i]
		synctest.Wait()
		c.Count("compared", 1)
		c.Count("units", got.units)
		c.Count("requests", len(got.requests))
		what := fmt.Sprintf("session %d of %d (%d hostile ones besides)", i+1, len(seeds), len(hostile))
		if rand.New(rand.NewSource(sd)).Intn(5) == 0 {
			c.Count("websocket", 1)
		}
		switch {
		case got.hang != "":
			c.Violate("hang", "%s: %s", what, got.hang)
		case got.err != alone.err:
			c.Violate("differs", "%s: outcome %q, alone %q", what, got.err, alone.err)
		case !reflect.DeepEqual(got.requests, alone.requests):
			c.Violate("differs", "%s: %s", what, firstDiff("requests", got.requests, alone.requests))
		case !reflect.DeepEqual(got.medias, alone.medias):
			c.Violate("differs", "%s: media table %v, alone %v", what, clip(got.medias, 600), clip(alone.medias, 600))
		case !reflect.DeepEqual(got.events, alone.events):
			c.Violate("differs", "%s: %s", what, firstDiff("events", got.events, alone.events))
		case !reflect.DeepEqual(got.answers, alone.answers):
			c.Violate("differs", "%s: %s", what, firstDiff("results", got.answers, alone.answers))
		default:
			for ch := 0; ch < 8; ch++ {
				if !reflect.DeepEqual(got.media[ch], alone.media[ch]) {
					c.Violate("differs", "%s: %s", what, firstDiff(fmt.Sprintf("media on channel %d", ch), got.media[ch], alone.media[ch]))
					break
				}
			}
		}
	}
}

func firstDiff(what string, a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s: number %d is %q, alone %q", what, i, clip(x, 300), clip(y, 300))
		}
	}
	return ""
}
