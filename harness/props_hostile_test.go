package vharness

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func init() {
	register(&prop{id: "H01", quick: 5000, thorough: 200000, bubble: true, run: runH01,
		rule: "mutated and random server bytes at every stage, over TCP and WebSocket, hostile RTP on every codec, random inputs to the exported parsers; the monitor is the process itself plus recovered panics; non-trivial: every case",
		min:  map[string]int64{"sessions_tcp": 1000, "no_handlers": 100, "sessions_ws": 200, "hostile_answers": 2000, "hostile_packets": 10000, "reached_play": 500, "parser_calls": 20000, "url_calls": 500}})
}

var rtspTokens = []string{"RTSP/1.0 200 OK\r\n", "RTSP", "rtsp", "\r\n\r\n", "\r\n", "Content-Length: ", "Content-length: -1\r\n", "Content-Length: 99999999999999999999\r\n",
	"Content-Length: 65535\r\n", "Content-Length: 65536\r\n", "Content-Length: 2147483648\r\n", "Content-Length: 0x10\r\n", "Content-Length:\r\n", "Content-Length: 5\r\n", "WWW-Authenticate: ", "WWW-Authenticate: Digest\r\n",
	"WWW-Authenticate: Digest realm=\r\n", "WWW-Authenticate: Digest realm=\"\r\n", "WWW-Authenticate: Digest realm=\"a\\\"\r\n", "WWW-Authenticate: Digest =\"x\",,,\r\n", "WWW-Authenticate: Basic\r\n", "WWW-Authenticate: \r\n",
	"WWW-Authenticate: Digest nonce=\"%s%d%n\", realm=\"%!s\"\r\n", "Session: \r\n", "Session: ;\r\n", "Session: ;;timeout\r\n", "Session:", ":\r\n", "::::\r\n", "CSeq: \r\n", "Transport: RTP/AVP/TCP;interleaved=999999999-\r\n", "Transport: RTP/AVP/TCP;interleaved=0\r\n", "Transport: RTP/AVP/TCP;interleaved=\r\n", "Transport: RTP/AVP/TCP;interleaved=-\r\n", "Transport: interleaved=9-8;ssrc=\r\n", "RTP-Info: url=;seq=;rtptime=\r\n", "RTP-Info: ,\r\n",
	"Range: npt=\r\n", "Range: -\r\n", "Session: a;timeout=\r\n", "Session: a;timeout=0\r\n", "Session: a;timeout=-5\r\n", "Session: a;=\r\n", "Content-Base: \r\n", "Content-Base: /\r\n", "Content-Type: \r\n", "CSeq: -1\r\n", "Public: ,\r\n", "Location: \r\n", "Speed: 0\r\n", "Scale: \r\n",
	"Transport: ;;;\r\n", "$", "$\x00\x00\x00", "$\x00\xff\xff", "$\x00\x00\x01\x80", "\x00", "\xff\xff\xff\xff", "RTSP/1.0 401 Unauthorized\r\n", "RTSP/1.0 -1\r\n", "RTSP/1.0\r\n\r\n", " 200", "%s%n%x", "\t", " "}

var sdpTokens = []string{"m=video 0 RTP/AVP 96\r\n", "m=audio 0 RTP/AVP\r\n", "m=\r\n", "m=video 99999999999999999999 RTP/AVP 96\r\n", "m=video 0/0 RTP/AVP 96 97\r\n", "m=video -1 RTP/AVP -5\r\n", "m=video 0 RTP/AVP abc\r\n",
	"a=rtpmap:96 H264/90000\r\n", "a=rtpmap:96\r\n", "a=rtpmap:\r\n", "a=rtpmap:96 /\r\n", "a=rtpmap:96 H265\r\n", "a=rtpmap:96 bbw/99999999999999999999/x\r\n", "a=rtpmap\r\n", "a=control:\r\n", "a=control\r\n", "a=control:rts\r\n",
	"a=control:rtsp\r\n", "a=fmtp:96 ;;;=;=\r\n", "a=fmtp:\r\n", "a=fmtp:96\r\n", "a=framerate:\r\n", "a=framerate:NaN\r\n", "a=framerate:1e400\r\n", "a=framerate:-Inf\r\n", "a=x-framerate:x\r\n", "a=x-dimensions:,\r\n",
	"a=framerate:30000/1001\r\n", "a=framerate:30/0\r\n", "a=framerate:0\r\n", "a=framerate:/\r\n", "a=framesize:96 0-0\r\n", "a=cliprect:0,0,0\r\n", "a=range:npt=-\r\n", "a=range:\r\n", "a=ptime:0\r\n",
	"a=rtpmap:200 H264/90000\r\n", "a=rtpmap:-1 H264/90000\r\n", "a=rtpmap:0\r\n", "a=rtpmap:96 H264/0/0\r\n", "a=rtpmap:96 L16/44100/\r\n", "m=audio 0 RTP/AVP 200\r\n", "m=audio 0 RTP/AVP 34\r\n", "a=x-dimensions:\r\n", "a=x-dimensions:0,0\r\n", "a=x-framerate:1/0\r\n",
	"a=fmtp:96 packetization-mode\r\n", "a=fmtp:96 =\r\n", "a=fmtp:96 sprop-parameter-sets=\r\n", "a=fmtp:96 sprop-parameter-sets=Z0IA,\r\n", "a=fmtp:96 sizelength=0;indexlength=-1\r\n", "a=control:*\r\n", "a=control:/\r\n", "a=control:rtsp://\r\n",
	"a=x-dimensions:99999999999999999999,1\r\n", "a=x-dimensions:1\r\n", "c=IN IP4\r\n", "c=IN IP4 0.0.0.0/999/999\r\n", "t=\r\n", "t=0 99999999999999999999999\r\n", "r=\r\n", "r= \r\n", "r=7d 1h\r\n", "r=7d 1h 0 d\r\n", "z=\r\n", "z=0\r\n",
	"z=0 -\r\n", "b=\r\n", "b=AS:\r\n", "b=:1\r\n", "k=\r\n", "k=:\r\n", "o=\r\n", "o=- - - - - -\r\n", "v=\r\n", "=\r\n", "=", "a=:\r\n", "a=::\r\n", "i=\r\n", "s=\r\n", "\x00", "é", "\r", "\n"}

// damage damages b in a few places.
func damage(r *rand.Rand, b []byte, tokens []string) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		switch r.Intn(12) {
		case 9: // a number becomes another one, or none
			for j := i; j < len(b); j++ {
				if b[j] >= '0' && b[j] <= '9' {
					e := j
					for e < len(b) && b[e] >= '0' && b[e] <= '9' {
						e++
					}
					v := []string{"0", "", "-1", "00", "1/0", "0/0", "30000/0", "65536", "4294967296", "9223372036854775808", "1-", "-", "x"}[r.Intn(13)]
					b = append(b[:j:j], append([]byte(v), b[e:]...)...)
					break
				}
			}
		case 10: // a separator is lost or doubled
			for j := i; j < len(b); j++ {
				if bytes.IndexByte([]byte("-/;=:, \""), b[j]) >= 0 {
					if r.Intn(3) == 0 {
						b = append(b[:j+1:j+1], b[j:]...)
					} else {
						b = append(b[:j:j], b[j+1:]...)
					}
					break
				}
			}
		case 11: // what stands between two separators is lost, or the rest of the line
			seps := []string{"-/;=:, \"", "\r\n"}[r.Intn(2)]
			for j := i; j < len(b); j++ {
				if bytes.IndexByte([]byte("-/;=:, \""), b[j]) >= 0 {
					e := j + 1
					for e < len(b) && bytes.IndexByte([]byte(seps+"\r\n"), b[e]) < 0 {
						e++
					}
					b = append(b[:j+1:j+1], b[e:]...)
					break
				}
			}
		case 0:
			if len(b) > 0 {
				b[i] = byte(r.Intn(256))
			}
		case 1:
			if len(b) > 0 {
				b[i] ^= 1 << r.Intn(8)
			}
		case 2:
			b = b[:i]
		case 3:
			j := min(len(b), i+r.Intn(20))
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := min(len(b), i+r.Intn(40))
			b = append(b[:j:j], b[i:]...)
		case 5, 6:
			t := tokens[r.Intn(len(tokens))]
			b = append(b[:i:i], append([]byte(t), b[i:]...)...)
		case 7: // at a line start
			if p := bytes.IndexByte(b[i:], '\n'); p >= 0 {
				t := tokens[r.Intn(len(tokens))]
				b = append(b[:i+p+1:i+p+1], append([]byte(t), b[i+p+1:]...)...)
			}
		case 8:
			b = append(b[:i:i], append(randBytes(r, r.Intn(10)), b[i:]...)...)
		}
	}
	return b
}

// hostileRTP is a well framed packet with hostile content.
func hostileRTP(r *rand.Rand, medias int) []byte {
	ch := 2 * r.Intn(medias)
	if r.Intn(6) == 0 {
		ch = r.Intn(256)
	}
	var p []byte
	switch r.Intn(10) {
	case 8, 9: // RTCP, cut anywhere, with any lengths
		if r.Intn(4) > 0 {
			ch |= 1
		}
		p = hostileRTCP(r)
	case 0:
		p = randBytes(r, r.Intn(40))
	case 1:
		p = truncatedRTP(r, allCodecs[r.Intn(len(allCodecs))])
	case 2: // every NAL type with a short rest
		h := plainHdr()
		h.marker = r.Intn(2) == 0
		p = rtpPacket(r, h, append([]byte{byte(r.Intn(256))}, randBytes(r, r.Intn(6))...))
	case 3: // aggregation with wild sizes
		pl := []byte{byte(24 + r.Intn(4))}
		if r.Intn(2) == 0 {
			pl = []byte{48 << 1, byte(r.Intn(256))}
		}
		for k := r.Intn(5); k >= 0; k-- {
			sz := []int{0, 1, 2, 3, 10, 255, 256, 65535, r.Intn(65536)}[r.Intn(9)]
			pl = binary.BigEndian.AppendUint16(pl, uint16(sz))
			pl = append(pl, randBytes(r, min(sz, r.Intn(30)))...)
		}
		p = rtpPacket(r, plainHdr(), pl)
	case 4: // fragments in any order, empty ones included
		pl := []byte{byte(28 + r.Intn(2)), byte(r.Intn(256))}
		if r.Intn(2) == 0 {
			pl = []byte{49 << 1, byte(r.Intn(256)), byte(r.Intn(256))}
		}
		pl = append(pl, randBytes(r, r.Intn(100))...)
		p = rtpPacket(r, plainHdr(), pl[:1+r.Intn(len(pl))])
	case 5:
		h := rtpHdr{pt: byte(r.Intn(128)), cc: r.Intn(16), ext: r.Intn(5) - 1, pad: r.Intn(4), marker: r.Intn(2) == 0}
		p = damage(r, rtpPacket(r, h, randBytes(r, r.Intn(60))), rtspTokens)
	case 6:
		p = rtpPacket(r, plainHdr(), nil)
	case 7:
		p = rtpPacket(r, plainHdr(), randBytes(r, 60000+r.Intn(5000)))
	}
	return frame(ch, p)
}

// hostileRTCP is a compound RTCP packet, most of the time a broken one.
func hostileRTCP(r *rand.Rand) []byte {
	var b []byte
	for k := r.Intn(3); k >= 0; k-- {
		t := byte(200 + r.Intn(8))
		if r.Intn(2) == 0 {
			t = byte(200 + r.Intn(4))
		}
		body := randBytes(r, []int{0, 4, 8, 20, 24, 4 * r.Intn(20)}[r.Intn(6)])
		words := len(body) / 4
		if r.Intn(3) == 0 {
			words = r.Intn(65536)
		}
		n := r.Intn(32)
		if r.Intn(2) == 0 {
			n = 1
		}
		h := []byte{0x80 | byte(n), t, 0, 0}
		if r.Intn(8) == 0 {
			h[0] |= 0x20
		}
		binary.BigEndian.PutUint16(h[2:], uint16(words))
		b = append(append(b, h...), body...)
	}
	if r.Intn(2) == 0 {
		b = b[:r.Intn(len(b)+1)]
	}
	return b
}

func corpusBytes(r *rand.Rand) []byte {
	d := os.Getenv("VH_CORPUS")
	fs, _ := filepath.Glob(filepath.Join(d, "*"))
	if len(fs) == 0 {
		return []byte(sdpHead)
	}
	b, err := os.ReadFile(fs[r.Intn(len(fs))])
	if err != nil {
		return []byte(sdpHead)
	}
	return b
}

func countMedias(b []byte) int {
	n := 0
	for _, l := range bytes.Split(b, []byte("\n")) {
		if bytes.HasPrefix(bytes.TrimSpace(l), []byte("m")) {
			n++
		}
	}
	return n
}

func runH01(c *Ctx) {
	r := c.R
	if r.Intn(4) == 0 {
		hostileParsers(c)
		return
	}
	n := 1 + r.Intn(3)
	var codecs []string
	for i := 0; i < n; i++ {
		codecs = append(codecs, allCodecs[r.Intn(len(allCodecs))])
	}
	scen := defaultScenario(codecs...)
	if r.Intn(20) == 0 {
		noHandlers(c, scen, n)
		return
	}
	u := testURL
	if r.Intn(2) == 0 {
		u = "rtsp://us:pw@10.1.2.3:8554/live/ch1"
		if r.Intn(2) == 0 {
			scen.auth = []kv{{"WWW-Authenticate", []string{`Digest realm="r", nonce="n"`, `Basic realm="r"`, `Digest`, `Digest realm="`, `=`, `Digest realm="a`, `Digest nonce=,realm=`, "Basic x=y=z"}[r.Intn(8)]}}
		}
	}
	hr := rand.New(rand.NewSource(r.Int63())) // used by the server goroutine
	var sent []byte
	hostile := 0
	// each answer may be hostile; the SDP may be hostile inside a proper answer
	if r.Intn(2) == 0 {
		for try := 0; ; try++ {
			ms := append([]mediaSpec(nil), scen.medias...)
			for i := range ms {
				ms[i].attrs = append([]string(nil), ms[i].attrs...)
				for k := r.Intn(4); k > 0; k-- {
					ms[i].attrs = append(ms[i].attrs, []string{"framerate:25", "framerate:30000/1001", "x-framerate:12", "x-dimensions:640,480", "fmtp:96 packetization-mode=1; sprop-parameter-sets=Z0IAKQ==,aM4=", "cliprect:0,0,480,640", "framesize:96 640-480", "range:npt=0-12.5", "ptime:20", "recvonly"}[r.Intn(10)])
				}
			}
			body := []byte(sdpFor(ms))
			switch r.Intn(4) {
			case 0:
				body = corpusBytes(r)
			}
			body = damage(r, body, sdpTokens)
			if r.Intn(3) == 0 {
				body = damage(r, body, sdpTokens)
			}
			if countMedias(body) <= 12 || try > 20 {
				if countMedias(body) <= 12 {
					scen.sdp = string(body)
				}
				break
			}
		}
	}
	steps := []string{"DESCRIBE", "DESCRIBE2", "SETUP0", "SETUP1", "SETUP2", "PLAY"}
	for _, st := range steps {
		if r.Intn(4) != 0 {
			continue
		}
		mode := r.Intn(6)
		scen.override[st] = func(s *srv, std []byte) []byte {
			hostile++
			var b []byte
			switch mode {
			case 0, 1:
				b = damage(hr, std, rtspTokens)
			case 2: // an odd header in an otherwise proper answer, before or instead of the others
				for k := 50; k > 0; k-- {
					t := rtspTokens[hr.Intn(len(rtspTokens))]
					name, _, ok := strings.Cut(t, ":")
					if !ok || !strings.HasSuffix(t, "\r\n") || strings.HasPrefix(t, "Content-") {
						continue
					}
					ls := strings.SplitAfter(string(std), "\r\n")
					var out []string
					for i, l := range ls {
						if hn, _, ok := strings.Cut(l, ":"); i > 0 && ok && strings.EqualFold(hn, name) && hr.Intn(2) == 0 {
							continue
						}
						out = append(out, l)
						if i == 0 {
							out = append(out, t)
						}
					}
					b = []byte(strings.Join(out, ""))
					break
				}
			case 3:
				b = randBytes(hr, 1+hr.Intn(300))
			case 4:
				for k := 1 + hr.Intn(8); k > 0; k-- {
					b = append(b, rtspTokens[hr.Intn(len(rtspTokens))]...)
				}
			case 5:
				for k := hr.Intn(4); k >= 0; k-- {
					b = append(b, hostileRTP(hr, n)...)
				}
				b = append(b, std...)
			}
			if countMedias(b) > 14 {
				return std
			}
			sent = append(append(sent, '|'), b...)
			return b
		}
	}
	ws := r.Intn(5) == 0
	cl := newClient()
	cc, sc := newPair()
	cc.chunk, _ = pickChunker(r)
	var s *srv
	var err error
	start := time.Now()
	c.Desc("%v ws %v auth %v sdp %s", codecs, ws, scen.auth, clip(strconv.Quote(scen.sdp), 1200))
	c.Sig(r.Int63())
	if !ws {
		c.Count("sessions_tcp", 1)
		s, _ = scen.server(sc)
		err = cl.play(cc, u)
	} else {
		c.Count("sessions_ws", 1)
		ready := make(chan struct{})
		raw := r.Intn(4)
		go func() {
			defer close(ready)
			if raw == 0 { // the upgrade itself is hostile
				b := damage(hr, []byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: x\r\n\r\n"), rtspTokens)
				sc.Read(make([]byte, 4096))
				sc.put(b)
				time.Sleep(time.Duration(hr.Intn(3)) * time.Second)
				sc.Close()
				return
			}
			w, e := wsUpgrade(sc, newWsCut(hr, func(string, int) {}))
			if e != nil {
				return
			}
			if raw == 1 { // raw garbage below the message layer after a few messages
				go func() {
					time.Sleep(time.Duration(hr.Intn(20)) * time.Millisecond)
					w.wmu.Lock()
					sc.put(randBytes(hr, 1+hr.Intn(40)))
					w.wmu.Unlock()
				}()
			}
			s, _ = scen.server(w)
		}()
		dialWs(cc, nil)
		err = await(longWait, func() error { return cl.s.PlayUseWebsocket("ws://10.1.2.3/ws", u) })
		select {
		case <-ready:
		case <-time.After(time.Minute):
			sc.Close()
			<-ready
		}
	}
	c.Count("hostile_answers", hostile)
	if len(sent) > 0 {
		c.Desc("answers %s", clip(strconv.Quote(string(sent)), 1400))
	}
	if err == errNoReturn {
		c.Violate("hang", "the attempt did not return")
	}
	_ = start
	if err == nil {
		c.Count("reached_play", 1)
	}
	if s != nil && cl.countEvent(rtspclient.RtspEventDisconnected) == 0 {
		var b []byte
		for k := r.Intn(40); k >= 0; k-- {
			if r.Intn(25) == 0 {
				b = append(b, damage(r, []byte("RTSP/1.0 200 OK\r\nCSeq: 7\r\nContent-Length: 4\r\n\r\nabcd"), rtspTokens)...)
				continue
			}
			if r.Intn(60) == 0 {
				b = append(b, randBytes(r, 1+r.Intn(30))...)
				continue
			}
			b = append(b, hostileRTP(r, n)...)
			c.Count("hostile_packets", 1)
		}
		c.Desc("then %s", clip(strconv.Quote(string(b)), 1000))
		go s.write(b)
		synctest.Wait()
		if r.Intn(2) == 0 {
			cl.s.SendPause()
			await(longWait, func() error { _, e := cl.s.WaitRtspResponse(); return e })
		}
		if r.Intn(2) == 0 {
			await(longWait, func() error { cl.s.Close(); return nil })
		}
	}
	synctest.Wait()
	cl.end(sc)
	synctest.Wait()
	if b := cl.badNotes(); b != "" {
		c.Violate("label", "%s", b)
	}
}

// noHandlers: an application that wants no data, no events or neither.
func noHandlers(c *Ctx, scen *scenario, n int) {
	r := c.R
	c.Count("no_handlers", 1)
	cl := newClient()
	data, event := cl.data, cl.event
	switch r.Intn(3) {
	case 0:
		data = nil
	case 1:
		event = nil
	case 2:
		data, event = nil, nil
	}
	cl.s = rtspclient.NewRtspClientSession(data, event)
	cc, sc := newPair()
	cc.chunk, _ = pickChunker(r)
	if r.Intn(5) == 0 {
		scen.status["PLAY"] = 404
	}
	c.Desc("no data handler %v, no event handler %v, status %v", data == nil, event == nil, scen.status)
	c.Sig("nohandlers", r.Int63())
	s, _ := scen.server(sc)
	if err := cl.play(cc, testURL); (err == nil) != (len(scen.status) == 0) {
		c.Violate("nil-handler", "play returned %v", err)
	} else if err == nil {
		var b []byte
		for k := r.Intn(20); k >= 0; k-- {
			b = append(b, hostileRTP(r, n)...)
			b = append(b, frame(r.Intn(2*n), rtpPacket(r, rtpHdr{pt: 96, marker: true}, randBytes(r, r.Intn(50))))...)
		}
		go s.write(b)
		synctest.Wait()
	}
	await(longWait, func() error { cl.s.Close(); return nil })
	cl.end(sc)
	synctest.Wait()
}

// guard runs f and reports a panic of the library.
func guard(c *Ctx, what string, in []byte, f func()) {
	defer func() {
		if e := recover(); e != nil {
			c.Violate("panic", "%s panics on %d bytes %s: %v\n%s", what, len(in), clip(strconv.Quote(string(in)), 1500), e, clip(string(debug.Stack()), 2500))
		}
	}()
	c.Count("parser_calls", 1)
	f()
}

func hostileParsers(c *Ctx) {
	r := c.R
	c.Sig("parsers", r.Int63())
	c.Desc("exported parsers on random input")
	exact := func(b []byte) []byte { // no spare capacity: reading past the end shows
		return append(make([]byte, 0, len(b)), b...)[:len(b):len(b)]
	}
	for k := 0; k < 30; k++ {
		var b []byte
		switch r.Intn(4) {
		case 0:
			b = randBytes(r, r.Intn(60))
		case 1:
			b = damage(r, response{status: 200, reason: "OK", hdr: []kv{{"CSeq", "1"}, {"Session", "5;timeout=3"}, {"WWW-Authenticate", `Digest realm="a", nonce="b", stale=FALSE`}}, body: "abc"}.plain(), rtspTokens)
		case 2:
			for i := r.Intn(8); i >= 0; i-- {
				b = append(b, rtspTokens[r.Intn(len(rtspTokens))]...)
			}
		case 3:
			b = append([]byte("RTSP/1.0 200 OK"), randBytes(r, r.Intn(30))...)
			b = append(b, "\r\n\r\n"...)
			b = b[:r.Intn(len(b)+1)]
		}
		b = exact(b)
		guard(c, "ParserRtspResponse", b, func() {
			var ctx rtspclient.RtspResponseContext
			rtspclient.ParserRtspResponse(b, &ctx)
		})
		guard(c, "RTPStreamProtocol", b, func() {
			p := &rtspclient.RTPStreamProtocol{}
			p.Init()
			if n := p.GetHeaderLength(); len(b) >= n {
				p.UnserializeHeader(b[:n])
				p.GetContentLength(b)
			}
		})
		switch r.Intn(4) {
		case 0:
			b = randBytes(r, r.Intn(40))
		case 1:
			b = truncatedRTP(r, allCodecs[r.Intn(len(allCodecs))])
		default:
			b = hostileRTP(r, 1)[4:]
			b = b[:min(len(b), r.Intn(100))]
		}
		for name, p := range map[string]rtspclient.IRtpParseInterface{"H264RtpParser": &rtspclient.H264RtpParser{}, "HevcRtpParser": &rtspclient.HevcRtpParser{}, "MarkRtpParser": &rtspclient.MarkRtpParser{}, "SimpleRtpParser": &rtspclient.SimpleRtpParser{}} {
			var h, pl []byte
			in := exact(b)
			guard(c, name+".SplitHeader", in, func() { _, h, pl = p.SplitHeader(in) })
			guard(c, name+".ParsingRtp", in, func() { p.ParsingRtp(h, pl) })
		}
		c.Count("url_calls", 1)
		us := string(damage(r, []byte([]string{"rtsp://u:p@h:554/x?y=%20#f", "rtsp://[::1]:8554/a/b", "rtsp://", "", "//x", "rtsp://h/%zz", "http://a b/"}[r.Intn(7)]), []string{"@", ":", "[", "]", "%", "%00", "/", "?", "#", "//", " "}))
		guard(c, "ParsingURL", []byte(us), func() {
			newClient().s.ParsingURL(us)
		})
	}
}
