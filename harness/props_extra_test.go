package vharness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"github.com/NodeBoy2/rtspclient/sdp"
	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

func init() {
	register(&prop{id: "T04", quick: 6000, thorough: 200000, bubble: true, run: runT04,
		rule: "connections with a read timeout whose peer pauses just below it and falls silent at a random byte, connections without one and sessions (TCP, WebSocket) that pause for up to a month anywhere; virtual clock; non-trivial: every case",
		min:  map[string]int64{"timeouts": 1000, "timeout_inside": 400, "pauses": 20000, "slow_handlers": 1500, "idle_connections": 500, "idle_sessions": 500, "idle_inside": 1000, "controls": 250, "timeout_edge": 150, "changed": 200}})
	register(&prop{id: "R07", quick: 5000, thorough: 150000, bubble: true, run: runR07,
		rule: "random sequences of control requests with random answers (any status, late, unparsable, none, disconnect) among media; second requests before the answer; non-trivial: at least two requests",
		min:  map[string]int64{"requests": 4000, "refused": 4000, "answers": 3000, "errors": 1000, "unparsable": 700, "silence": 150, "cut": 300, "units": 15000, "stray": 800}})
	register(&prop{id: "D07", quick: 5000, thorough: 200000, bubble: true, run: runD07,
		rule: "H.264 and H.265 packet lists from which the last, or all but some, fragments of random units are removed; non-trivial: at least one unit is incomplete",
		min:  map[string]int64{"damaged": 3000, "no_end": 1500, "no_start": 500, "hole": 500, "units": 10000}})
	register(&prop{id: "S08", quick: 60000, thorough: 2000000, run: runS08,
		rule: "random values, deep copies and copies with one changed field for Equal and Blank; random operation sequences on attributes and time descriptions against a list model; non-trivial: every case",
		min:  map[string]int64{"equal": 10000, "different": 10000, "operations": 20000, "flags": 5000, "starts": 2500}})
}

// ---- T04 ---------------------------------------------------------------------------------------------------------

func randIdle(r *rand.Rand) time.Duration {
	return time.Duration(1+r.Int63n([]int64{1000, 60e3, 3600e3, 86400e3, 30 * 86400e3}[r.Intn(5)])) * time.Millisecond
}

func runT04(c *Ctx) {
	r := c.R
	switch r.Intn(4) {
	case 0:
		idleSession(c)
		return
	}
	if r.Intn(6) == 0 {
		changedTimeout(c)
		return
	}
	timed := r.Intn(3) > 0
	n := 1 + r.Intn(12)
	in := genInbound(c, r, true, n)
	cc, sc := newPair()
	cc.chunk, _ = pickChunker(r)
	l := newConnLog(cc, 10)
	l.conn.SetStreamProtocol(in.proto)
	sec := 1 + r.Intn(60)
	if r.Intn(6) == 0 {
		sec = []int{300, 3599, 3601, 7200, 86400, 100000, 2000000, 61 + r.Intn(10000)}[r.Intn(8)]
	}
	limit := time.Duration(sec) * time.Second
	if timed {
		l.conn.SetReadTimeoutSec(sec)
		if g := l.conn.GetReadTimeoutSec(); g != sec {
			c.Violate("setting", "read timeout is %d after it was set to %d", g, sec)
		}
	} else {
		c.Count("idle_connections", 1)
	}
	var handlerEnd time.Time
	handled := 0
	slow := map[int]time.Duration{}
	for i := 0; i < n; i++ {
		if r.Intn(6) == 0 {
			slow[i] = time.Duration(r.Int63n(int64(3 * limit)))
		}
	}
	l.hook = func(l *connLog, e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventData {
			l.mu.Lock()
			k := len(l.data) - 1
			l.mu.Unlock()
			if d := slow[k]; d > 0 {
				c.Count("slow_handlers", 1)
				time.Sleep(d)
			}
		}
		l.mu.Lock()
		handlerEnd = time.Now()
		if e.EventType == tcpnetwork.ConnEventData {
			handled++
		}
		l.cond.Broadcast()
		l.mu.Unlock()
	}
	l.conn.Run()
	synctest.Wait()
	pause := func(total time.Duration) { // within one message
		if total <= 0 {
			return
		}
		c.Count("pauses", 1)
		time.Sleep(total)
	}
	sig := ""
	// give sleeps about total before message i is complete, spread over its bytes
	give := func(b []byte, total time.Duration) {
		parts := 1 + r.Intn(4)
		for k := parts; k > 0; k-- {
			d := total
			if k > 1 {
				d = time.Duration(r.Int63n(int64(total) + 1))
			}
			total -= d
			pause(d)
			i := len(b)
			if k > 1 {
				i = r.Intn(len(b)) // the last byte comes with the last part
			}
			sig += fmt.Sprint(i, d, " ")
			sc.put(b[:i])
			b = b[i:]
			synctest.Wait()
		}
	}
	for i, m := range in.msgs {
		d := randIdle(r)
		if timed {
			d = time.Duration(r.Int63n(int64(limit)))
			if r.Intn(3) == 0 {
				d = limit - time.Millisecond
			}
		}
		give(m, d)
		if s := slow[i]; s > 0 && r.Intn(2) == 0 { // let it finish, or go on meanwhile
			l.wait(longWait, func() bool { return handled > i || l.ended() })
		}
	}
	c.Desc("%s, %d messages, read timeout %v (%v), slow handlers %v", in.kind, n, timed, limit, slow)
	c.Sig(in.kind, timed, sec, sig)
	// all of it is handled
	l.wait(3*limit*time.Duration(n)+time.Second, func() bool { return handled >= n || l.ended() })
	synctest.Wait()
	l.mu.Lock()
	got := append([][]byte(nil), l.data...)
	ended := l.ended()
	l.mu.Unlock()
	if d := diffBufs(got, in.msgs); d != "" {
		c.Violate("silence", "pauses below the read timeout (%v, set %v): %s", limit, timed, d)
	}
	if ended {
		c.Violate("silence", "the connection ended although every message came in time (read timeout %v, set %v)", limit, timed)
		sc.Close()
		return
	}
	if !timed { // a last, endless silence, then the peer speaks once more
		inside := r.Intn(2) == 0
		m := frameOf(r, in)
		if inside {
			c.Count("idle_inside", 1)
			i := r.Intn(len(m))
			sc.put(m[:i])
			synctest.Wait()
			time.Sleep(randIdle(r))
			sc.put(m[i:])
		} else {
			time.Sleep(randIdle(r))
			sc.put(m)
		}
		l.wait(time.Second, func() bool { return len(l.data) > n })
		l.mu.Lock()
		k := len(l.data)
		ended := l.ended()
		l.mu.Unlock()
		if k != n+1 || ended {
			c.Violate("silence", "a connection without read timeout lost a message after silence (%d of %d messages, ended %v)", k, n+1, ended)
		}
		l.conn.Send([]byte("ping"), true)
		synctest.Wait()
		if sc.pending() == 0 {
			c.Violate("silence", "a connection without read timeout does not send after silence")
		}
		sc.Close()
		l.wait(30*time.Second, l.ended)
		return
	}
	// silence for good
	time.Sleep(time.Duration(r.Int63n(int64(limit))))
	synctest.Wait()
	l.mu.Lock()
	from := handlerEnd // reading of the next message started here
	l.mu.Unlock()
	last := from
	if r.Intn(2) == 0 {
		m := frameOf(r, in)
		i, edge := -1, false
		if r.Intn(2) == 0 { // all of the header and nothing else, or all but the content
			tp, test := in.proto.(*testProto)
			if !test && r.Intn(2) == 0 {
				m = response{status: 200, reason: "OK", body: "content"}.plain()
			} else if test && r.Intn(2) == 0 {
				m = tp.message(r, 1+r.Intn(20), "CF"[r.Intn(2)])
			}
			at := []int{in.hl}
			switch {
			case !test && m[0] == 'R':
				at = append(at, bytes.Index(m, []byte("\r\n\r\n"))+4)
			case test && m[0] == 'C':
				at = append(at, in.hl+int(binary.BigEndian.Uint16(m[1:])))
			case test && m[0] == 'F':
				at = append(at, in.hl+bytes.Index(m[in.hl:], tp.marker)+len(tp.marker))
			}
			if k := at[r.Intn(len(at))]; k < len(m) {
				i, edge = k, true
			}
		}
		if i < 0 {
			i = r.Intn(len(m))
		}
		if i > 0 {
			c.Count("timeout_inside", 1)
			b := m[:i]
			if edge && i > in.hl && r.Intn(3) > 0 {
				sc.put(b[:in.hl])
				synctest.Wait()
				time.Sleep(time.Duration(r.Int63n(int64(limit))))
				b = b[in.hl:]
			}
			sc.put(b)
			synctest.Wait()
			last = time.Now()
			if edge {
				c.Count("timeout_edge", 1)
				from = last
			}
		}
	}
	c.Count("timeouts", 1)
	ok := l.wait(4*limit+time.Minute, l.ended)
	at := time.Now()
	switch {
	case !ok:
		c.Violate("timeout", "read timeout %v: the connection is still there %v after the peer fell silent", limit, at.Sub(last))
	case at.Sub(last) > limit+50*time.Millisecond:
		c.Violate("timeout", "read timeout %v: the connection ended only %v after the peer fell silent", limit, at.Sub(last))
	case at.Sub(from) < limit-50*time.Millisecond:
		c.Violate("timeout", "read timeout %v: the connection ended %v after the last message was handled", limit, at.Sub(from))
	}
	if m := l.lifecycle(true); m != "" && ok {
		c.Violate("events", "%s", m)
	}
	l.mu.Lock()
	k := len(l.data)
	l.mu.Unlock()
	if k != n {
		c.Violate("timeout", "%d messages delivered, %d were complete", k, n)
	}
	sc.Close()
}

// frameOf is one more message for the protocol of in.
// changedTimeout: the application sets another read timeout, or none, while it handles a message.
func changedTimeout(c *Ctx) {
	r := c.R
	c.Count("changed", 1)
	cc, sc := newPair()
	cc.chunk, _ = pickChunker(r)
	in := genInbound(c, r, true, 1)
	l := newConnLog(cc, 10)
	l.conn.SetStreamProtocol(in.proto)
	pick := func() int { return []int{0, 0, 1, 2, 10, 1 + r.Intn(60), 1 + r.Intn(4000)}[r.Intn(7)] }
	first := pick()
	if first > 0 || r.Intn(2) == 0 {
		l.conn.SetReadTimeoutSec(first)
	}
	set := []int{first}
	for k := 2 + r.Intn(4); k > 0; k-- {
		set = append(set, pick())
	}
	handled := 0
	l.hook = func(l *connLog, e *tcpnetwork.ConnEvent) {
		if e.EventType != tcpnetwork.ConnEventData {
			return
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Int63n(int64(time.Minute))))
		}
		e.Conn.SetReadTimeoutSec(set[handled+1])
		l.mu.Lock()
		handled++
		l.cond.Broadcast()
		l.mu.Unlock()
	}
	c.Desc("%s, read timeouts set one after the other: %v", in.kind, set)
	c.Sig(in.kind, set)
	l.conn.Run()
	synctest.Wait()
	end := func() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.ended() }
	for i := 0; i+1 < len(set); i++ {
		limit := time.Duration(set[i]) * time.Second
		d := randIdle(r)
		if set[i] > 0 {
			d = limit - time.Millisecond
			if r.Intn(2) == 0 {
				d = time.Duration(r.Int63n(int64(limit)))
			}
		}
		time.Sleep(d)
		synctest.Wait()
		if end() {
			c.Violate("changed", "read timeout %v in force since the last message was handled, ended after %v of silence", limit, d)
			sc.Close()
			return
		}
		sc.put(frameOf(r, in))
		if !l.wait(2*time.Minute, func() bool { return handled > i }) {
			c.Violate("changed", "read timeout %v: the message after %v of silence is not delivered (ended %v)", limit, d, end())
			sc.Close()
			return
		}
		synctest.Wait()
	}
	t0 := time.Now()
	limit := time.Duration(set[len(set)-1]) * time.Second
	if limit == 0 {
		time.Sleep(randIdle(r))
		synctest.Wait()
		if end() {
			c.Violate("changed", "no read timeout in force, ended after %v of silence", time.Since(t0))
		}
		sc.Close()
		l.wait(time.Minute, l.ended)
		return
	}
	ok := l.wait(4*limit+time.Minute, l.ended)
	if d := time.Since(t0); !ok || d > limit+50*time.Millisecond || d < limit-50*time.Millisecond {
		c.Violate("changed", "read timeout %v in force: ended %v after %v of silence", limit, ok, d)
	}
	sc.Close()
}

func frameOf(r *rand.Rand, in *inbound) []byte {
	if p, ok := in.proto.(*testProto); ok {
		return p.message(r, r.Intn(20), "LECF"[r.Intn(4)])
	}
	return frame(r.Intn(256), randBytes(r, 1+r.Intn(20)))
}

func idleSession(c *Ctx) {
	r := c.R
	c.Count("idle_sessions", 1)
	codecs := []string{allCodecs[r.Intn(len(allCodecs))], allCodecs[r.Intn(len(allCodecs))]}
	scen := defaultScenario(codecs...)
	cl := newClient()
	cc, sc := newPair()
	cc.chunk, _ = pickChunker(r)
	ws := r.Intn(3) == 0
	var s *srv
	var err error
	if !ws {
		s, _ = scen.server(sc)
		err = cl.play(cc, testURL)
	} else {
		cut := newWsCut(r, func(string, int) {})
		ready := make(chan struct{})
		go func() {
			defer close(ready)
			w, e := wsUpgrade(sc, cut)
			if e != nil {
				return
			}
			s, _ = scen.server(w)
		}()
		dialWs(cc, nil)
		err = await(longWait, func() error { return cl.s.PlayUseWebsocket("ws://10.1.2.3:80/ws", testURL) })
		<-ready
	}
	if err != nil {
		c.Violate("play", "a well behaved handshake failed: %v", err)
		cl.end(sc)
		return
	}
	var tracks [][]pkt
	var notes []string
	for _, k := range codecs {
		tracks = append(tracks, trackPackets(r, k, 1+r.Intn(5), 500, 100, &notes))
	}
	gens := []*hdrGen{newHdrGen(r), newHdrGen(r)}
	m := muxTracks(r, tracks, func(t int, k pkt) []byte { return rtpPacket(r, gens[t].next(k), k.payload) }, nil)
	c.Desc("session over WebSocket %v, tracks %v, %d units", ws, codecs, m.total)
	c.Sig("session", ws, codecs, r.Int63())
	b := m.buf
	for k := 1 + r.Intn(5); k > 0; k-- {
		i := len(b)
		if k > 1 {
			i = r.Intn(len(b) + 1)
		}
		d := randIdle(r)
		c.Count("pauses", 1)
		time.Sleep(d)
		if len(b) < len(m.buf) {
			c.Count("idle_inside", 1)
		}
		s.write(b[:i])
		b = b[i:]
		synctest.Wait()
		// a request has an answer of its own: not while a frame is half sent
		if len(b) == 0 && r.Intn(2) == 0 {
			c.Count("controls", 1)
			time.Sleep(randIdle(r))
			cl.s.SendPause()
			if e := await(longWait, func() error { _, e := cl.s.WaitRtspResponse(); return e }); e != nil {
				c.Violate("silence", "PAUSE after %v of silence: %v", d, e)
			}
		}
	}
	cl.waitData(m.total, time.Minute)
	if n := cl.countEvent(rtspclient.RtspEventDisconnected); n != 0 {
		c.Violate("silence", "the session was disconnected although its server never went away")
	}
	for ch, w := range m.want {
		if d := diffBufs(cl.channel(ch), w); d != "" {
			c.Violate("silence", "channel %d after silence: %s", ch, d)
		}
	}
	cl.end(sc)
}

// ---- R07 ---------------------------------------------------------------------------------------------------------

func runR07(c *Ctx) {
	r := c.R
	n := 1 + r.Intn(3)
	var codecs []string
	for i := 0; i < n; i++ {
		codecs = append(codecs, allCodecs[r.Intn(len(allCodecs))])
	}
	scen := defaultScenario(codecs...)
	var answer func(s *srv, q *request)
	scen.onOther = func(s *srv, q *request) { answer(s, q) }
	p := startPlaying(c, scen)
	if p == nil {
		return
	}
	gens := make([]*hdrGen, n)
	for i := range gens {
		gens[i] = newHdrGen(r)
	}
	total := muxed{want: map[int][][]byte{}}
	media := func() []byte {
		var tracks [][]pkt
		var notes []string
		for _, cd := range codecs {
			tracks = append(tracks, trackPackets(r, cd, r.Intn(3), 300, 100, &notes))
		}
		m := muxTracks(r, tracks, func(t int, k pkt) []byte { return rtpPacket(r, gens[t].next(k), k.payload) }, nil)
		for ch, w := range m.want {
			total.want[ch] = append(total.want[ch], w...)
		}
		total.total += m.total
		c.Count("units", m.total)
		return m.buf
	}
	type op struct {
		name string
		f    func() error
	}
	ops := []op{{"PAUSE", p.cl.s.SendPause}, {"TEARDOWN", p.cl.s.SendTeardown}, {"DESCRIBE", p.cl.s.SendDescribe},
		{"PLAY", func() error { return p.cl.s.SendPlay(r.Intn(3), 1+r.Intn(2)) }},
		{"SETUP", func() error { return p.cl.s.SendTcpSetup(testURL+"/more", 2*n, 2*n+1) }}}
	base := len(p.srv.requests())
	sent := 0
	k := 1 + r.Intn(6)
	sig := ""
	ended := false
	if k > 1 {
		defer func() { c.Sig(codecs, sig) }()
	}
	for i := 0; i < k && !ended; i++ {
		o := ops[r.Intn(len(ops))]
		st := []int{200, 200, 200, 404, 454, 455, 500, 551, 100 + r.Intn(500), 100 + r.Intn(900), []int{100, 199, 201, 204, 250, 300, 302, 401, 403, 503, 505, 551, 999}[r.Intn(13)]}[r.Intn(11)]
		fate := []string{"answer", "answer", "answer", "answer", "answer", "answer", "answer", "unparsable", "unparsable", "silence", "cut"}[r.Intn(11)]
		if fate == "silence" && r.Intn(2) == 0 {
			fate = "answer"
		}
		delay := time.Duration(0)
		if r.Intn(2) == 0 {
			delay = time.Duration(r.Intn(1900)) * time.Millisecond
		}
		var buf []byte
		before, behind := media(), media()
		rest := plainOrRandom(r)
		answer = func(s *srv, q *request) {
			time.Sleep(delay)
			switch fate {
			case "answer":
				buf = rest(response{status: st, reason: reasonFor(st), hdr: []kv{{"CSeq", q.one("CSeq")}}})
				if q.method == "DESCRIBE" && st == 200 {
					buf = rest(response{status: st, reason: "OK", hdr: []kv{{"CSeq", q.one("CSeq")}}, body: sdpFor(scen.medias)})
				}
			case "unparsable":
				buf = []byte([]string{"RTSP/1.0\r\n\r\n", "rtsp/\r\n\r\n", "RTSP/1.0 \r\n\r\n"}[i%3])
			case "cut":
				s.write(before)
				synctest.Wait()
				s.c.Close()
				return
			}
			s.write(append(append(append([]byte(nil), before...), buf...), behind...))
		}
		if fate == "cut" { // what is behind never comes
			total.total, behind = 0, nil
		}
		sig += fmt.Sprint(o.name, fate, st, delay, " ")
		c.Count("requests", 1)
		if r.Intn(4) == 0 { // an answer nobody asked for is not the answer to the next request
			c.Count("stray", 1)
			for j := 1 + r.Intn(3); j > 0; j-- {
				p.srv.write(rest(response{status: []int{200, 404, 999, 100 + r.Intn(800)}[r.Intn(4)], reason: "Stray", hdr: []kv{{"CSeq", strconv.Itoa(r.Intn(20))}}}))
				synctest.Wait()
			}
			for p.sc.pending() > 0 || p.cc.pending() > 0 {
				time.Sleep(time.Millisecond)
			}
			synctest.Wait()
			sig += "stray "
		}
		t0 := time.Now()
		if err := o.f(); err != nil {
			c.Violate("send", "request %d (%s) after the previous one was answered: %v", i, o.name, err)
		}
		sent++
		// until its answer was fetched nothing else goes out
		for j := r.Intn(3); j > 0; j-- {
			o2 := ops[r.Intn(len(ops))]
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
			}
			c.Count("refused", 1)
			if err := o2.f(); err == nil {
				c.Violate("refuse", "%s was accepted although the answer to %s was not fetched", o2.name, o.name)
			}
		}
		t1 := time.Now()
		var rp *rtspclient.RtspResponseContext
		err := await(longWait, func() error {
			var e error
			rp, e = p.cl.s.WaitRtspResponse()
			return e
		})
		took := time.Since(t1)
		switch {
		case err == errNoReturn:
			c.Violate("hang", "WaitRtspResponse did not return (%s)", fate)
			ended = true
		case fate == "answer":
			c.Count("answers", 1)
			if err != nil {
				c.Violate("answer", "%s was answered %d after %v, WaitRtspResponse returned %v", o.name, st, delay, err)
			} else if rp == nil || rp.Status != st {
				c.Violate("answer", "%s was answered %d, WaitRtspResponse returned %+v", o.name, st, rp)
			} else if took > 0 && time.Since(t0) > delay+time.Millisecond {
				c.Violate("answer", "%s was answered after %v, WaitRtspResponse took until %v", o.name, delay, time.Since(t0))
			}
		default:
			c.Count("errors", 1)
			c.Count(fate, 1)
			if err == nil {
				c.Violate("answer", "%s had no usable answer (%s), WaitRtspResponse returned %+v", o.name, fate, rp)
			}
			if fate == "cut" && took > 0 && time.Since(t0) > delay+500*time.Millisecond {
				c.Violate("answer", "the connection was lost %v after %s, WaitRtspResponse took until %v", delay, o.name, time.Since(t0))
			}
			if fate != "unparsable" {
				ended = true
				if !p.cl.waitEvent(rtspclient.RtspEventDisconnected, 1, 15*time.Second) {
					c.Violate("disconnect", "%s: disconnection is not reported", fate)
				}
			}
		}
		synctest.Wait()
	}
	c.Desc("tracks %v: %s", codecs, sig)
	time.Sleep(time.Second)
	synctest.Wait()
	reqs := p.srv.requests()[base:]
	if len(reqs) != sent {
		c.Violate("sent", "%d requests on the wire, %d were accepted", len(reqs), sent)
	}
	if e := checkCSeq(p.srv.requests()); e != "" {
		c.Violate("cseq", "%s", e)
	}
	if !ended {
		p.cl.waitData(total.total, 10*time.Second)
		p.compare(total, "media around control requests")
		if m := p.cl.countEvent(rtspclient.RtspEventDisconnected); m != 0 {
			c.Violate("disconnect", "the session was disconnected by answered requests")
		}
		if m := p.cl.countEvent(rtspclient.RtspEventRequestError) + p.cl.countEvent(rtspclient.RtspEventRequestSuccess); m != 1 {
			c.Violate("events", "events %s after one play", evNames(p.cl.events()))
		}
	}
	if r.Intn(3) == 0 { // calls on a session that has ended return, with an error where they can
		p.cl.end(p.sc)
		synctest.Wait()
		o := ops[r.Intn(len(ops))]
		o.f()
		if err := await(longWait, func() error { _, e := p.cl.s.WaitRtspResponse(); return e }); err == nil || err == errNoReturn {
			c.Violate("ended", "%s on an ended session: WaitRtspResponse returned %v", o.name, err)
		}
		return
	}
	p.cl.end(p.sc)
}

// ---- D07 ---------------------------------------------------------------------------------------------------------

func runD07(c *Ctx) {
	r := c.R
	codec := []string{"H264", "H265"}[r.Intn(2)]
	limit := []int{1400, 300, 20, 1 + 5 + r.Intn(100)}[r.Intn(4)]
	var notes []string
	pkts := trackPackets(r, codec, 2+r.Intn(15), 12*limit, limit, &notes)
	large := c.Idx%40 == 11
	if large {
		pkts = hugeUnits(r, codec, 3+r.Intn(4), &notes)
		c.Count("large", 1)
	}
	// units: runs of packets up to the one that completes something
	var units [][]pkt
	var cur []pkt
	for _, k := range pkts {
		cur = append(cur, k)
		if k.done != nil {
			units = append(units, cur)
			cur = nil
		}
	}
	type item struct {
		want    []byte
		damaged bool // may lead to one delivery
	}
	var items []item
	var send []pkt
	lost := map[int]int{}      // packets lost before send[i]
	numbered := r.Intn(3) != 0 // the sequence numbers show the loss
	note := ""
	prevOpen := false
	for _, u := range units {
		if len(u) < 2 || r.Intn(2) == 0 {
			send = append(send, u...)
			for _, w := range u[len(u)-1].done {
				items = append(items, item{want: w})
			}
			prevOpen = false
			continue
		}
		n := len(u)
		c.Count("damaged", 1)
		kind := r.Intn(4)
		if kind == 2 && n < 3 {
			kind = 0
		}
		if prevOpen && kind == 1 {
			kind = 0 // a continuation would join the unit before
		}
		switch kind {
		case 0, 3: // the end is missing
			k := 1 + r.Intn(n-1)
			send = append(send, u[:k]...)
			lost[len(send)] += n - k
			c.Count("no_end", 1)
			prevOpen = true
			note += fmt.Sprintf("%d/%d ", k, n)
			continue // and nothing is delivered for it
		case 1: // the start is missing
			k := 1 + r.Intn(n-1)
			lost[len(send)] += k
			send = append(send, u[k:]...)
			c.Count("no_start", 1)
			prevOpen = false
			note += fmt.Sprintf("-%d/%d ", k, n)
		case 2: // one in the middle is missing
			k := 1 + r.Intn(n-2)
			send = append(send, u[:k]...)
			lost[len(send)]++
			send = append(send, u[k+1:]...)
			c.Count("hole", 1)
			prevOpen = false
			note += fmt.Sprintf("%d out of %d ", k, n)
		}
		items = append(items, item{damaged: true})
	}
	c.Desc("%s: %s; incomplete: %s", codec, clip(strings.Join(notes, " "), 600), note)
	if note != "" {
		c.Sig(codec, note, len(send), strings.Join(notes, " "))
	}
	other := r.Intn(2) == 0
	codecs := []string{codec}
	if other {
		codecs = append(codecs, "VP8")
	}
	p := startPlaying(c, defaultScenario(codecs...))
	if p == nil {
		return
	}
	if large {
		p.cc.chunk = chunkAll
	}
	g, g2 := newHdrGen(r), newHdrGen(r)
	var buf []byte
	var want2 [][]byte
	whole := 0
	for _, it := range items {
		if !it.damaged {
			whole++
		}
	}
	for i, k := range send {
		for n := 0; numbered && n < lost[i]; n++ {
			g.next(pkt{})
			c.Count("gaps", 1)
		}
		buf = append(buf, frame(0, rtpPacket(r, g.next(k), k.payload))...)
		if other && r.Intn(3) == 0 {
			b := randBytes(r, 1+r.Intn(50))
			want2 = append(want2, b)
			buf = append(buf, frame(2, rtpPacket(r, g2.next(pkt{}), b))...)
		}
	}
	c.Count("units", whole)
	p.feed(buf, whole+len(want2))
	time.Sleep(time.Second)
	synctest.Wait()
	got := p.cl.channel(0)
	// ok[j]: the items so far can account for the first j deliveries
	ok := make([]bool, len(got)+1)
	ok[0] = true
	for _, it := range items {
		next := make([]bool, len(got)+1)
		for j, v := range ok {
			if !v {
				continue
			}
			if it.damaged {
				next[j] = true
				if j < len(got) {
					next[j+1] = true
				}
			} else if j < len(got) && bytes.Equal(got[j], it.want) {
				next[j+1] = true
			}
		}
		ok = next
	}
	if !ok[len(got)] {
		var w []string
		for _, it := range items {
			if it.damaged {
				w = append(w, "?")
			} else {
				w = append(w, short(it.want))
			}
		}
		var h []string
		for _, b := range got {
			h = append(h, short(b))
		}
		c.Violate("delivery", "%s: delivered %s, the complete units are %s (? incomplete)", codec, clip(strings.Join(h, " "), 1500), clip(strings.Join(w, " "), 1500))
	}
	if other {
		if d := diffBufs(p.cl.channel(2), want2); d != "" {
			c.Violate("delivery", "other track: %s", d)
		}
	}
	p.stop()
}

// ---- S08 ---------------------------------------------------------------------------------------------------------

func runS08(c *Ctx) {
	r := c.R
	c.guard("equality and accessors", func() {
		switch r.Intn(6) {
		case 0:
			eqConnCase(c)
		case 1:
			eqOriginCase(c)
		case 2:
			eqEncCase(c)
		case 3:
			eqSessionCase(c)
		case 4:
			attrCase(c)
		case 5:
			startCase(c)
		}
	})
}

func (c *Ctx) judgeEq(what string, want, ab, ba bool, a, b any) {
	if want {
		c.Count("equal", 1)
	} else {
		c.Count("different", 1)
	}
	c.Sig(what, a, b)
	if ab != want || ba != want {
		c.Violate("equal", "%s: Equal is %v / %v (other way round), want %v for %+v and %+v", what, ab, ba, want, a, b)
	}
}

func eqConnCase(c *Ctx) {
	r := c.R
	a := genConn(r)
	if r.Intn(5) == 0 {
		a = sdp.ConnectionData{}
	}
	if r.Intn(8) == 0 {
		a.IP = nil
	}
	b := a
	if a.IP != nil {
		b.IP = append(net.IP(nil), a.IP...)
		if v4 := a.IP.To4(); v4 != nil { // both forms mean the same
			if len(a.IP) == 4 {
				b.IP = a.IP.To16()
			} else {
				b.IP = append(net.IP(nil), v4...)
			}
		}
	}
	c.judgeEq("connection data", true, a.Equal(b), b.Equal(a), a, b)
	// a field left out is not the same value as its default written out
	if r.Intn(4) == 0 {
		b = a
		if r.Intn(2) == 0 {
			a.NetworkType, b.NetworkType = "", "IN"
		} else {
			a.IP = genIP(r, r.Intn(2) == 0)
			b.IP = a.IP
			a.AddressType, b.AddressType = "", []string{"IP4", "IP6"}[r.Intn(2)]
		}
		c.Count("defaults", 1)
		c.judgeEq("connection data", false, a.Equal(b), b.Equal(a), a, b)
		return
	}
	switch r.Intn(5) {
	case 0:
		b.NetworkType += genToken(r)
	case 1:
		b.AddressType = map[string]string{"IP4": "IP6", "IP6": "IP4", "": "IP4"}[b.AddressType]
	case 2:
		if len(b.IP) == 0 {
			b.IP = genIP(r, r.Intn(2) == 0)
		} else {
			b.IP[len(b.IP)-1-r.Intn(min(4, len(b.IP)))] ^= 1 << r.Intn(8)
		}
	case 3:
		b.TTL ^= 1 << r.Intn(8)
	case 4:
		b.Addresses ^= 1 << r.Intn(8)
	}
	c.judgeEq("connection data", false, a.Equal(b), b.Equal(a), a, b)
	for _, v := range []sdp.ConnectionData{a, b, {}} {
		blank := v.NetworkType == "" && v.AddressType == "" && len(v.IP) == 0 && v.TTL == 0 && v.Addresses == 0
		if v.Blank() != blank {
			c.Violate("blank", "Blank is %v for %+v", v.Blank(), v)
		}
	}
}

func eqOriginCase(c *Ctx) {
	r := c.R
	a := genOrigin(r)
	b := a
	c.judgeEq("origin", true, a.Equal(b), b.Equal(a), a, b)
	if r.Intn(4) == 0 {
		b = a
		if r.Intn(2) == 0 {
			a.NetworkType, b.NetworkType = "", "IN"
		} else {
			a.Address = genIP(r, r.Intn(2) == 0).String()
			b.Address = a.Address
			a.AddressType, b.AddressType = "", []string{"IP4", "IP6"}[r.Intn(2)]
		}
		c.Count("defaults", 1)
		c.judgeEq("origin", false, a.Equal(b), b.Equal(a), a, b)
		return
	}
	switch r.Intn(6) {
	case 0:
		b.Username += genToken(r)
	case 1:
		b.SessionID ^= 1 << r.Intn(62)
	case 2:
		b.SessionVersion ^= 1 << r.Intn(62)
	case 3:
		b.NetworkType = genToken(r) + b.NetworkType
	case 4:
		b.AddressType = map[string]string{"IP4": "IP6", "IP6": "IP4", "": "IP4"}[b.AddressType]
	case 5:
		b.Address += []string{".", "1", "x"}[r.Intn(3)]
	}
	c.judgeEq("origin", false, a.Equal(b), b.Equal(a), a, b)
}

func eqEncCase(c *Ctx) {
	r := c.R
	a := genEnc(r)
	b := a
	c.judgeEq("encryption", true, a.Equal(b), b.Equal(a), a, b)
	if r.Intn(2) == 0 {
		b.Method += genToken(r)
	} else {
		b.Key += genToken(r)
	}
	c.judgeEq("encryption", false, a.Equal(b), b.Equal(a), a, b)
	if b.Blank() || a.Blank() != (a.Method == "" && a.Key == "") || !(sdp.Encryption{}).Blank() {
		c.Violate("blank", "Blank is %v for %+v and %v for %+v", a.Blank(), a, b.Blank(), b)
	}
}

func eqSessionCase(c *Ctx) {
	r := c.R
	types := []rune("vosiuepcbtrzkam")
	var a, b sdp.Session
	for k := r.Intn(10); k > 0; k-- {
		t, v := types[r.Intn(len(types))], genText(r)
		a = append(a, sdp.Line{Type: sdp.Type(t), Value: []byte(v)})
		b = append(b, sdp.Line{Type: sdp.Type(t), Value: []byte(v)})
	}
	c.judgeEq("session", true, a.Equal(b), b.Equal(a), len(a), string(a.AppendTo(nil)))
	for i := range a {
		if !a[i].Equal(b[i]) {
			c.Violate("equal", "line %d: Equal is false for equal lines", i)
		}
	}
	if len(a) == 0 || r.Intn(4) == 0 {
		b = append(b, sdp.Line{Type: 'a', Value: []byte(genText(r))})
		if i := r.Intn(len(b)); len(a) > 0 && r.Intn(2) == 0 && !b[len(b)-1].Equal(b[i]) {
			b[i], b[len(b)-1] = b[len(b)-1], b[i]
		}
	} else {
		i := r.Intn(len(b))
		v := b[i].Value
		switch r.Intn(5) {
		case 0:
			b[i].Type ^= 1
		case 1:
			b[i].Value = append(append([]byte(nil), v...), 'x')
		case 2:
			b[i].Value = append([]byte(nil), v[:len(v)-1]...)
		case 3:
			b[i].Value = append([]byte(nil), v...)
			b[i].Value[r.Intn(len(v))] ^= 1 << r.Intn(8)
		case 4:
			j := r.Intn(len(b))
			if b[i].Type == b[j].Type && bytes.Equal(b[i].Value, b[j].Value) {
				b[i].Type ^= 2
			} else {
				b[i], b[j] = b[j], b[i]
			}
		}
		if a[i].Equal(b[i]) && a[i].Type == b[i].Type && !bytes.Equal(a[i].Value, b[i].Value) {
			c.Violate("equal", "line Equal is true for %q and %q", a[i].Value, b[i].Value)
		}
	}
	c.judgeEq("session", false, a.Equal(b), b.Equal(a), string(a.AppendTo(nil)), string(b.AppendTo(nil)))
}

func attrCase(c *Ctx) {
	r := c.R
	names := []string{genToken(r), genToken(r), "control", "sendrecv", "Control", "rtpmap"}
	for j := 0; j < 3; j++ {
		names = append(names, attrNames[r.Intn(len(attrNames))])
	}
	model := map[string][]string{}
	var msg sdp.Message
	var med sdp.Media
	onMedia := r.Intn(2) == 0
	if r.Intn(3) == 0 {
		msg.Attributes, med.Attributes = sdp.Attributes{}, sdp.Attributes{}
	}
	log := ""
	for k := 1 + r.Intn(12); k > 0; k-- {
		nm := names[r.Intn(len(names))]
		c.Count("operations", 1)
		if r.Intn(4) == 0 {
			c.Count("flags", 1)
			log += "flag " + nm + "; "
			if onMedia {
				med.AddFlag(nm)
			} else {
				msg.AddFlag(nm)
			}
			model[nm] = append(model[nm], "")
		} else if onMedia {
			var vs []string
			for j := 1 + r.Intn(3); j > 0; j-- {
				vs = append(vs, genWord(r))
			}
			log += fmt.Sprintf("%s=%q; ", nm, vs)
			med.AddAttribute(nm, vs...)
			model[nm] = append(model[nm], strings.Join(vs, " "))
		} else {
			v := genText(r)
			log += fmt.Sprintf("%s=%q; ", nm, v)
			msg.AddAttribute(nm, v)
			model[nm] = append(model[nm], v)
		}
		for _, nm := range append(names, "absent") {
			var first string
			var has bool
			var all []string
			if onMedia {
				first, has, all = med.Attribute(nm), med.Flag(nm), med.Attributes.Values(nm)
			} else {
				first, has, all = msg.Attribute(nm), msg.Flag(nm), msg.Attributes.Values(nm)
			}
			w := model[nm]
			wf := ""
			if len(w) > 0 {
				wf = w[0]
			}
			if first != wf || has != (len(w) > 0) || len(all) != len(w) || len(w) > 0 && !reflect.DeepEqual(all, w) {
				c.Violate("attributes", "after %s: %q has first value %q, flag %v, values %q; want %q", clip(log, 600), nm, first, has, all, w)
				return
			}
		}
	}
	c.Desc("attributes %s", clip(log, 300))
	c.Sig(log)
	// and the same after a trip through text
	m := &sdp.Message{Origin: sdp.Origin{Username: "-", NetworkType: "IN", AddressType: "IP4", Address: "h"}, Name: "n", Attributes: msg.Attributes,
		Timing: []sdp.Timing{{}}}
	if onMedia {
		med.Description = sdp.MediaDescription{Type: "video", Port: 1, Protocol: "RTP/AVP", Format: "96"}
		m.Medias = sdp.Medias{med}
	}
	got, err := decodeText(m.Append(nil).AppendTo(nil))
	if err != nil {
		c.Violate("attributes", "%s: %v", log, err)
		return
	}
	for nm, w := range model {
		g := got.Attributes.Values(nm)
		if onMedia {
			g = got.Medias[0].Attributes.Values(nm)
		}
		if !reflect.DeepEqual(g, w) {
			c.Violate("attributes", "after %s and a trip through text: %q has values %q, want %q", clip(log, 600), nm, g, w)
		}
	}
}

func startCase(c *Ctx) {
	r := c.R
	m := sdp.Message{}
	for k := r.Intn(4); k > 0; k-- {
		m.Timing = append(m.Timing, genTiming(r))
	}
	var s, e time.Time
	if len(m.Timing) > 0 {
		s, e = m.Timing[0].Start, m.Timing[0].End
	}
	c.Count("starts", 1)
	c.Sig("start", s, e, len(m.Timing))
	if !m.Start().Equal(s) || !m.End().Equal(e) {
		c.Violate("start", "Start %v, End %v of %+v", m.Start(), m.End(), m.Timing)
	}
}
