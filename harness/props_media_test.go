package vharness

import (
	"fmt"
	"math/rand"
	"strings"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func init() {
	register(&prop{id: "D01", quick: 5000, thorough: 200000, bubble: true, run: func(c *Ctx) { runDepack(c, "H264") },
		rule: "random NAL unit lists, packetized at random as single/FU-A/FU-B/STAP-A/STAP-B/MTAP16/MTAP24, written in random segments; non-trivial: at least one other than single",
		min:  map[string]int64{"FU-A": 200, "FU-B": 50, "STAP-A": 200, "STAP-B": 100, "MTAP16": 100, "MTAP24": 100, "single": 200, "units": 2000}})
	register(&prop{id: "D02", quick: 5000, thorough: 200000, bubble: true, run: func(c *Ctx) { runDepack(c, "H265") },
		rule: "random NAL unit lists, packetized at random as single/FU/AP, written in random segments; non-trivial: at least one FU or AP",
		min:  map[string]int64{"FU": 200, "AP": 200, "single": 200, "units": 2000}})
	register(&prop{id: "D03", quick: 6000, thorough: 200000, bubble: true, run: runD03,
		rule: "random packet lists for other codecs and marker-framed 'bbw'; every case non-trivial",
		min:  map[string]int64{"units": 2000, "bbw_cases": 100}})
	register(&prop{id: "D04", quick: 4000, thorough: 150000, bubble: true, run: runD04,
		rule: "1-5 tracks of different codecs, packets interleaved at random with RTCP and stray channels, frames on channels that are set up later; non-trivial: at least two tracks",
		min:  map[string]int64{"units": 2000, "rtcp": 500, "stray": 300, "same_control": 100, "early": 500}})
	register(&prop{id: "D05", quick: 5000, thorough: 200000, bubble: true, run: runD05,
		rule: "random CSRC/extension/padding/header fields per packet on every codec, truncated packets in between; every case non-trivial",
		min:  map[string]int64{"csrc": 500, "ext": 500, "pad": 500, "truncated": 300, "units": 2000}})
	register(&prop{id: "D06", quick: 3000, thorough: 120000, bubble: true, run: runD06,
		rule: "delivered buffers are retained and hashed, half of them scribbled on in the handler; every case non-trivial",
		min:  map[string]int64{"retained": 1000, "scribbled": 1000}})
}

// playing is a session in play over an in-memory connection.
type playing struct {
	c        *Ctx
	cl       *client
	cc, sc   *memConn
	srv      *srv
	scen     *scenario
	expected int // deliveries expected so far
}

// startPlaying plays a scenario; nil (and a violation) if that fails.
func startPlaying(c *Ctx, scen *scenario) *playing {
	p := &playing{c: c, cl: newClient(), scen: scen}
	p.cc, p.sc = newPair()
	ch, _ := pickChunker(c.R)
	p.cc.chunk = ch
	p.srv, _ = scen.server(p.sc)
	if c.Prop[0] == 'D' && c.R.Intn(3) == 0 { // an application that is slow now and then
		hr, n := rand.New(rand.NewSource(c.R.Int63())), 0
		c.Count("slow_handler", 1)
		p.cl.onData = func(*rtspclient.RtspData) {
			if n < 40 && hr.Intn(3) == 0 {
				n++
				time.Sleep(time.Duration(1 + hr.Int63n(int64(200*time.Millisecond))))
			}
		}
	}
	if err := p.cl.play(p.cc, testURL); err != nil {
		c.Violate("play", "a well behaved handshake failed: %v (requests %s)", err, p.srv.methods())
		p.cl.end(p.sc)
		return nil
	}
	return p
}

func (p *playing) stop() {
	p.cl.end(p.sc)
	if n := p.cl.countEvent(rtspclient.RtspEventDisconnected); n != 1 {
		p.c.Violate("disconnect", "%d disconnected events after the server closed the connection", n)
	}
}

// feed writes the bytes as the server, waits until n more deliveries were seen, and lets everything settle.
func (p *playing) feed(b []byte, n int) {
	p.expected += n
	go p.srv.write(b)
	p.cl.waitData(p.expected, 20*time.Second)
	synctest.Wait()
	if k := p.cc.pending(); k > 0 && p.cl.countEvent(rtspclient.RtspEventDisconnected) == 0 {
		// delays in the transport: let the rest be read
		time.Sleep(5 * time.Second)
		synctest.Wait()
	}
}

func kindCount(c *Ctx, notes []string) {
	for _, n := range notes {
		k, _, _ := strings.Cut(n, "(")
		c.Count(k, 1)
	}
}

// hugeUnits packetizes n NAL units of up to 8 MiB.
func hugeUnits(r *rand.Rand, codec string, n int, notes *[]string) []pkt {
	var ns [][]byte
	for i := 0; i < n; i++ {
		sz := []int{8 << 20, 8<<20 - 1, 1 << 20, 70000 + r.Intn(3<<20), 10 + r.Intn(100)}[r.Intn(5)]
		if codec == "H264" {
			ns = append(ns, nal264(r, sz))
		} else {
			ns = append(ns, nal265(r, sz))
		}
	}
	if codec == "H264" {
		return pack264(r, ns, maxPayload, notes)
	}
	return pack265(r, ns, maxPayload, notes)
}

func runDepack(c *Ctx, codec string) {
	r := c.R
	name := codec
	switch {
	case codec == "H265" && r.Intn(2) == 0:
		name = "HEVC"
	}
	if r.Intn(5) == 0 {
		name = strings.ToLower(name)
	}
	maxSize, n := 70000, 1+r.Intn(20)
	huge := c.Idx%50 == 7
	if huge {
		maxSize, n = 8<<20, 1+r.Intn(3)
	}
	var notes []string
	var pkts []pkt
	if huge {
		pkts = hugeUnits(r, codec, n, &notes)
		c.Count("huge", 1)
	} else {
		limit := []int{maxPayload, 1400, 1400, 1 + 5 + r.Intn(200)}[r.Intn(4)]
		pkts = trackPackets(r, codec, n, min(maxSize, 12*limit), limit, &notes)
	}
	c.Desc("%s: %s", name, clip(strings.Join(notes, " "), 800))
	kindCount(c, notes)
	for _, k := range notes {
		if !strings.HasPrefix(k, "single") {
			c.Sig(strings.Join(notes, " "), len(pkts))
			break
		}
	}
	p := startPlaying(c, defaultScenario(name))
	if p == nil {
		return
	}
	if huge {
		p.cc.chunk = chunkAll
	}
	g := newHdrGen(r)
	var want [][]byte
	var buf []byte
	for _, k := range pkts {
		buf = append(buf, frame(0, rtpPacket(r, g.next(k), k.payload))...)
		if r.Intn(6) == 0 {
			buf = append(buf, frame(1, randBytes(r, 8+r.Intn(40)))...)
		}
		want = append(want, k.done...)
	}
	c.Count("units", len(want))
	c.Count("packets", len(pkts))
	p.feed(buf, len(want))
	if d := diffBufs(p.cl.channel(0), want); d != "" {
		c.Violate("delivery", "%s: %s", name, d)
	}
	if b := p.cl.badNotes(); b != "" {
		c.Violate("label", "%s", b)
	}
	p.stop()
}

var otherCodecs = []string{"PCMU", "PCMA", "MPEG4-GENERIC", "L16", "VP8", "VP9", "AV1", "opus", "JPEG", "H263", "H26", "H2645", "vnd.onvif.metadata", "BBW2", "SIMPLE",
	"MPA", "MPV", "MP2T", "GSM", "G723", "DVI4", "LPC", "G722", "QCELP", "CN", "G728", "G729", "CelB", "nv", "H261", "MP4V-ES", "MP4A-LATM", "mpa-robust", "H263-1998", "H263-2000", "AC3", "iLBC", "AMR", "AMR-WB", "speex", "vorbis", "theora", "BMPEG", "MP1S", "raw", "DV", "telephone-event", "G726-32", "BB", "W", "H264-SVC", "H266", "SMPTE336M", "X"}

func runD03(c *Ctx) {
	r := c.R
	codec := otherCodecs[r.Intn(len(otherCodecs))]
	if r.Intn(3) == 0 {
		codec = "bbw"
		c.Count("bbw_cases", 1)
	}
	var notes []string
	limit := []int{maxPayload, 1400, 200}[r.Intn(3)]
	pkts := trackPackets(r, codec, 1+r.Intn(25), limit, limit, &notes)
	c.Desc("%s: %d packets %s", codec, len(pkts), clip(strings.Join(notes, " "), 500))
	name := codec
	if codec == "bbw" {
		name = []string{"bbw", "BBW", "Bbw", "bbW", "bBw"}[r.Intn(5)]
	}
	scen := defaultScenario(name)
	if r.Intn(3) == 0 {
		m := &scen.medias[0]
		m.typ = []string{"video", "audio", "application", "text", "data"}[r.Intn(5)]
		for k := r.Intn(3); k >= 0; k-- {
			m.attrs = append(m.attrs, fmt.Sprintf("fmtp:%d %s", m.pt, []string{"mode=AAC-hbr; sizelength=13; indexlength=3; indexdeltalength=3; config=1190", "packetization-mode=1", "profile-level-id=1", "cpresent=0", "streamtype=5"}[r.Intn(5)]))
		}
	}
	if codec != "bbw" && r.Intn(4) == 0 && scen.medias[0].rtpmap != "" { // any case, any clock, channels
		cs := codec
		if r.Intn(2) == 0 {
			cs = strings.ToLower(codec)
		}
		scen.medias[0].rtpmap = cs + []string{"/90000", "/8000", "/44100/2", "/48000/6", ""}[r.Intn(5)]
	}
	p := startPlaying(c, scen)
	if p == nil {
		return
	}
	g := newHdrGen(r)
	var want [][]byte
	var buf []byte
	sig := ""
	for _, k := range pkts {
		buf = append(buf, frame(0, rtpPacket(r, g.next(k), k.payload))...)
		want = append(want, k.done...)
		sig += fmt.Sprint(len(k.payload), k.marker, " ")
	}
	c.Sig(codec, sig)
	c.Count("units", len(want))
	p.feed(buf, len(want))
	if d := diffBufs(p.cl.channel(0), want); d != "" {
		c.Violate("delivery", "%s: %s", codec, d)
	}
	p.stop()
}

var allCodecs = []string{"H264", "H265", "HEVC", "bbw", "PCMU", "MPEG4-GENERIC", "PCMA", "VP8"}

// muxed is a random interleaving of several tracks' packets.
type muxed struct {
	buf   []byte
	want  map[int][][]byte // by channel
	total int
}

func muxTracks(r *rand.Rand, tracks [][]pkt, hdr func(t int, k pkt) []byte, extra func() []byte) muxed {
	m := muxed{want: map[int][][]byte{}}
	pos := make([]int, len(tracks))
	left := 0
	for _, t := range tracks {
		left += len(t)
	}
	for left > 0 {
		t := r.Intn(len(tracks))
		if pos[t] == len(tracks[t]) {
			continue
		}
		burst := 1
		if r.Intn(4) == 0 {
			burst = 1 + r.Intn(5)
		}
		for ; burst > 0 && pos[t] < len(tracks[t]); burst-- {
			k := tracks[t][pos[t]]
			pos[t]++
			left--
			m.buf = append(m.buf, frame(2*t, hdr(t, k))...)
			m.want[2*t] = append(m.want[2*t], k.done...)
			m.total += len(k.done)
		}
		if extra != nil {
			m.buf = append(m.buf, extra()...)
		}
	}
	return m
}

func (p *playing) compare(m muxed, what string) {
	for _, e := range p.cl.entries() {
		if e.event < 0 && m.want[e.ch] == nil {
			p.c.Violate("stray", "%s: delivery labelled with channel %d, which is no media channel", what, e.ch)
			break
		}
	}
	for ch, w := range m.want {
		if d := diffBufs(p.cl.channel(ch), w); d != "" {
			p.c.Violate("delivery", "%s: channel %d: %s", what, ch, d)
		}
	}
	if b := p.cl.badNotes(); b != "" {
		p.c.Violate("label", "%s", b)
	}
}

func runD04(c *Ctx) {
	r := c.R
	n := 1 + r.Intn(5)
	if c.Idx%40 == 3 {
		n = 6 + r.Intn(8)
	}
	if c.Idx%500 == 7 { // channel numbers up to 255
		n = 65 + r.Intn(64)
		c.Count("many", 1)
	}
	var codecs []string
	for i := 0; i < n; i++ {
		codecs = append(codecs, allCodecs[r.Intn(len(allCodecs))])
	}
	var tracks [][]pkt
	var notes []string
	for _, k := range codecs {
		limit := []int{1400, 100, 3000}[r.Intn(3)]
		tracks = append(tracks, trackPackets(r, k, 1+r.Intn(10), 3*limit, limit, &notes))
	}
	c.Desc("tracks %v: %s", codecs, clip(strings.Join(notes, " "), 600))
	scen := defaultScenario(codecs...)
	if n > 1 && r.Intn(4) == 0 { // control URLs that do not tell the medias apart
		c.Count("same_control", 1)
		u := []string{"", "*", "trackID=0", testURL + "/trackID=0"}[r.Intn(4)]
		for i := range scen.medias {
			if r.Intn(3) != 0 {
				scen.medias[i].control = u
			}
		}
	}
	if r.Intn(4) == 0 { // what the answers to SETUP say of the transport
		c.Count("transports", 1)
		for i := range scen.medias {
			tr := []string{"RTP/AVP/TCP;unicast;interleaved=%d-%d;ssrc=0A0B0C0D;mode=\"PLAY\"", "RTP/AVP/TCP;interleaved=%d-%d", "RTP/AVP/TCP;unicast;destination=1.2.3.4;source=4.3.2.1;interleaved=%d-%d", "RTP/AVP/TCP;unicast;interleaved= %d-%d", "rtp/avp/tcp;UNICAST;INTERLEAVED=%d-%d"}[r.Intn(5)]
			first := 2 * i
			if r.Intn(3) == 0 {
				first = 2 * r.Intn(n+1)
			}
			p := response{status: 200, reason: "OK", hdr: []kv{{"CSeq", "3"}, {"Session", "1"}, {"Transport", fmt.Sprintf(tr, first, first+1)}}}
			scen.override[fmt.Sprint("SETUP", i)] = func(s *srv, std []byte) []byte { return p.plain() }
		}
	}
	if r.Intn(3) == 0 { // frames on channels nothing was set up for yet
		scen.before = func(s *srv, step string) {
			k := -1
			fmt.Sscanf(step, "SETUP%d", &k)
			if step != "PLAY" && k+1 < n && r.Intn(2) == 0 {
				c.Count("early", 1)
				s.write(frame(2*(k+1+r.Intn(n-k-1)), rtpPacket(r, plainHdr(), randBytes(r, 1+r.Intn(50)))))
			}
		}
	}
	p := startPlaying(c, scen)
	if p == nil {
		return
	}
	gens := make([]*hdrGen, n)
	same := r.Intn(4) == 0 // numbering that only the channel tells apart
	for i := range gens {
		gens[i] = newHdrGen(r)
		if i > 0 && same {
			*gens[i] = *gens[0]
		}
	}
	sig := ""
	m := muxTracks(r, tracks, func(t int, k pkt) []byte {
		sig += fmt.Sprint(t)
		return rtpPacket(r, gens[t].next(k), k.payload)
	}, func() []byte {
		switch r.Intn(8) {
		case 0: // RTCP, or RTP look-alike on an RTCP channel
			c.Count("rtcp", 1)
			ch := 2*r.Intn(n) + 1
			if r.Intn(2) == 0 {
				return frame(ch, rtpPacket(r, plainHdr(), randBytes(r, 1+r.Intn(50))))
			}
			return frame(ch, randBytes(r, r.Intn(60)))
		case 1: // never set up
			c.Count("stray", 1)
			if n > 127 {
				return nil
			}
			ch := 2*n + r.Intn(256-2*n)
			return frame(ch, rtpPacket(r, plainHdr(), randBytes(r, 1+r.Intn(50))))
		}
		return nil
	})
	if n > 1 {
		c.Sig(codecs, sig)
	}
	c.Count("units", m.total)
	p.feed(m.buf, m.total)
	p.compare(m, strings.Join(codecs, ","))
	p.stop()
}

func randHdrOptions(r *rand.Rand, c *Ctx, h rtpHdr, room int) rtpHdr {
	count := func(k string, n int) {
		if c != nil {
			c.Count(k, n)
		}
	}
	if r.Intn(2) == 0 && room > 60 {
		h.cc = 1 + r.Intn(15)
		room -= 4 * h.cc
		count("csrc", 1)
	}
	if r.Intn(2) == 0 && room > 4 {
		h.ext = []int{0, 1, 2, 3, 10, 63, 64, 255, 256}[r.Intn(9)]
		if r.Intn(60) == 0 {
			h.ext = 3000 + r.Intn(9000)
		}
		for 4+4*h.ext > room {
			h.ext /= 2
		}
		room -= 4 + 4*h.ext
		count("ext", 1)
	}
	if r.Intn(2) == 0 && room > 0 {
		h.pad = min(room, 1+r.Intn([]int{4, 40, 255}[r.Intn(3)]))
		count("pad", 1)
	}
	h.pt = byte(r.Intn(128))
	if r.Intn(4) == 0 {
		h.seq = uint16(r.Intn(65536))
		h.ts = r.Uint32()
		h.ssrc = r.Uint32()
	}
	return h
}

// truncatedRTP is a packet whose header (or padding) does not fit its length.
func truncatedRTP(r *rand.Rand, codec string) []byte {
	switch r.Intn(10) {
	case 7: // nothing but a header, a keep-alive
		h := randHdrOptions(r, nil, plainHdr(), 1000)
		h.marker = false
		return rtpPacket(r, h, nil)
	case 8, 9: // the header of a fragment or an aggregation cut
		h := plainHdr()
		h.marker = false
		switch strings.ToUpper(codec) {
		case "H264":
			t := byte(25 + r.Intn(5))
			n := 1
			if t < 28 {
				n += r.Intn(2)
			}
			if t == 29 && r.Intn(2) == 0 {
				return rtpPacket(r, h, append([]byte{0x60 | t, 0x80 | byte(r.Intn(128))}, randBytes(r, r.Intn(2))...))
			}
			return rtpPacket(r, h, append([]byte{0x60 | t}, randBytes(r, n-1)...))
		case "H265", "HEVC":
			return rtpPacket(r, h, []byte{49 << 1, 1})
		}
	case 0: // shorter than the fixed header
		b := rtpPacket(r, plainHdr(), nil)
		return b[:r.Intn(12)]
	case 1: // CSRC list cut
		h := plainHdr()
		h.cc = 1 + r.Intn(15)
		b := rtpPacket(r, h, nil)
		return b[:12+r.Intn(4*h.cc)]
	case 2: // extension header cut
		h := plainHdr()
		h.ext = 1 + r.Intn(20)
		b := rtpPacket(r, h, nil)
		return b[:12+r.Intn(4)]
	case 3: // extension body cut
		h := plainHdr()
		h.ext = 1 + r.Intn(20)
		b := rtpPacket(r, h, nil)
		return b[:16+r.Intn(4*h.ext)]
	case 4: // both
		h := plainHdr()
		h.cc, h.ext = 3, 4
		b := rtpPacket(r, h, nil)
		return b[:24+r.Intn(20)]
	case 5: // padding longer than the packet
		h := plainHdr()
		h.pad = 1
		b := rtpPacket(r, h, randBytes(r, r.Intn(20)))
		b[len(b)-1] = byte(len(b) - 12 + 1 + r.Intn(100))
		return b
	}
	return randBytes(r, r.Intn(12))
}

func runD05(c *Ctx) {
	r := c.R
	n := 1 + r.Intn(2)
	var codecs []string
	var tracks [][]pkt
	var notes []string
	for i := 0; i < n; i++ {
		k := allCodecs[r.Intn(len(allCodecs))]
		codecs = append(codecs, k)
		limit := []int{1400, 60, 30000}[r.Intn(3)]
		tracks = append(tracks, trackPackets(r, k, 1+r.Intn(12), min(2*limit, 20000), limit, &notes))
	}
	c.Desc("tracks %v: %s", codecs, clip(strings.Join(notes, " "), 600))
	p := startPlaying(c, defaultScenario(codecs...))
	if p == nil {
		return
	}
	gens := make([]*hdrGen, n)
	for i := range gens {
		gens[i] = newHdrGen(r)
	}
	sig := ""
	m := muxTracks(r, tracks, func(t int, k pkt) []byte {
		h := randHdrOptions(r, c, gens[t].next(k), maxPayload-len(k.payload))
		sig += fmt.Sprint(t, h.cc, h.ext, h.pad, " ")
		return rtpPacket(r, h, k.payload)
	}, func() []byte {
		if r.Intn(4) == 0 {
			c.Count("truncated", 1)
			t := r.Intn(n)
			return frame(2*t, truncatedRTP(r, codecs[t]))
		}
		return nil
	})
	c.Sig(codecs, sig)
	c.Count("units", m.total)
	p.feed(m.buf, m.total)
	p.compare(m, strings.Join(codecs, ","))
	p.stop()
}

func runD06(c *Ctx) {
	r := c.R
	n := 1 + r.Intn(3)
	var codecs []string
	var tracks [][]pkt
	var notes []string
	long := r.Intn(10) == 0
	if long {
		c.Count("long_sessions", 1)
	}
	for i := 0; i < n; i++ {
		k := allCodecs[r.Intn(len(allCodecs))]
		codecs = append(codecs, k)
		limit := []int{1400, 60, 30000}[r.Intn(3)]
		units, size := 2+r.Intn(12), min(2*limit, 20000)
		if long { // units of much the same size
			units, size = 50+r.Intn(450), 8+r.Intn(60)
			limit = min(limit, 1400)
		}
		tracks = append(tracks, trackPackets(r, k, units, size, limit, &notes))
	}
	large := c.Idx%40 == 13
	if large {
		codecs[0] = []string{"H264", "H265"}[r.Intn(2)]
		tracks[0] = hugeUnits(r, codecs[0], 2+r.Intn(3), &notes)
		c.Count("large", 1)
	}
	c.Desc("tracks %v: %s", codecs, clip(strings.Join(notes, " "), 600))
	scribble := rand.New(rand.NewSource(r.Int63()))
	type kept struct {
		b    []byte
		hash uint64
		ch   int
	}
	var retained []kept
	scen := defaultScenario(codecs...)
	p := startPlaying(c, scen)
	if p == nil {
		return
	}
	if large {
		p.cc.chunk = chunkAll
	}
	p.cl.mu.Lock()
	p.cl.onData = func(d *rtspclient.RtspData) { // runs in the delivering goroutine, before the next delivery
		if scribble.Intn(2) == 0 {
			b := d.Data[:cap(d.Data)]
			for i := range b {
				b[i] = 0xEE
			}
			c.Count("scribbled", 1)
		}
		p.cl.mu.Lock()
		retained = append(retained, kept{d.Data, hash64(d.Data), d.ChannelNum})
		p.cl.mu.Unlock()
		c.Count("retained", 1)
	}
	p.cl.mu.Unlock()
	gens := make([]*hdrGen, n)
	for i := range gens {
		gens[i] = newHdrGen(r)
	}
	sig := ""
	m := muxTracks(r, tracks, func(t int, k pkt) []byte {
		sig += fmt.Sprint(t, len(k.payload), " ")
		return rtpPacket(r, gens[t].next(k), k.payload)
	}, nil)
	c.Sig(codecs, sig)
	p.feed(m.buf, m.total)
	// further traffic, responses included
	p.srv.write([]byte("RTSP/1.0 200 OK\r\nCSeq: 99\r\n\r\n"))
	p.compare(m, strings.Join(codecs, ","))
	if large && r.Intn(2) == 0 { // longer than what is promised to be delivered whole, what is delivered belongs to the application nevertheless
		u, later := nal264(r, 8<<20+r.Intn(4<<20)), nal264(r, 20000)
		pack := pack264
		if codecs[0] == "H265" {
			u, later, pack = nal265(r, len(u)), nal265(r, 20000), pack265
		}
		for _, k := range pack(r, [][]byte{u, later, later, u, later}, maxPayload, &notes) {
			if !p.srv.write(frame(0, rtpPacket(r, gens[0].next(k), k.payload))) {
				break
			}
		}
		c.Count("oversized", 1)
		time.Sleep(time.Second)
		synctest.Wait()
	}
	p.cl.mu.Lock()
	ret := append([]kept(nil), retained...)
	p.cl.mu.Unlock()
	for i, k := range ret {
		if hash64(k.b) != k.hash {
			c.Violate("alias", "delivery %d (channel %d, %d bytes) changed after it was handed over", i, k.ch, len(k.b))
			break
		}
	}
	// what the application writes into a buffer, or appends to it, reaches no other one
	for _, i := range scribble.Perm(len(ret))[:min(len(ret), 50)] {
		k := &ret[i]
		_ = append(k.b, make([]byte, min(cap(k.b)-len(k.b), 1<<16))...)
		for _, j := range []int{i - 1, i, i + 1} {
			if j >= 0 && j < len(ret) && hash64(ret[j].b) != ret[j].hash {
				c.Violate("alias", "delivery %d changed when something was appended to delivery %d", j, i)
			}
		}
		for j := range k.b {
			k.b[j] ^= 0x5A
		}
		k.hash = hash64(k.b)
		c.Count("appended", 1)
	}
	for i, k := range ret {
		if hash64(k.b) != k.hash {
			c.Violate("alias", "delivery %d changed when another one was written to", i)
			break
		}
	}
	p.stop()
}
