package vharness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

func init() {
	register(&prop{id: "T01", quick: 9000, thorough: 300000, bubble: true, run: runT01,
		rule: "random message lists in a random framing (interleaved RTP/RTSP, length prefix, end marker, trailing content, no framing), cut by a random read scheduler; non-trivial: at least two messages or no framing",
		min:  map[string]int64{"messages": 10000, "empty": 500, "max_size": 50, "responses_with_body": 500, "raw_streams": 100, "zero_reads": 400, "max_response": 100}})
	register(&prop{id: "T02", level: "fault_enumeration", quick: 600, thorough: 16000, bubble: true, run: runT02,
		rule: "every cut point of a short stream (sampled ones of a long stream) times the way the connection ends; non-trivial: every case",
		min:  map[string]int64{"connections": 20000, "cut_inside_message": 5000, "local_close": 2000, "read_error": 2000, "write_error": 300}})
	register(&prop{id: "T03", quick: 16000, thorough: 500000, bubble: true, run: runT03,
		rule: "1-8 goroutines sending random messages with and without copy over random queue sizes, protocol headers and peer speeds, then a local close, a racing close or the peer's end; non-trivial: at least two messages",
		min:  map[string]int64{"messages": 20000, "copied": 2000, "immediate": 300, "racing_close": 100, "sends_after_end": 1000, "headers": 3000, "empty": 5000}})
}

// ---- a configurable stream protocol ------------------------------------------------------------------------------

// testProto frames messages by their first byte:
// 'L' length prefix, 'E' end marker, 'C' length prefix then content, 'F' end marker then content, 'R' unknown length.
type testProto struct {
	hl     int
	marker []byte
	header func(msg []byte) []byte
	inits  int
}

func (p *testProto) Init()                { p.inits++ }
func (p *testProto) GetHeaderLength() int { return p.hl }
func (p *testProto) UnserializeHeader(h []byte) (int, []byte) {
	switch h[0] {
	case 'L', 'C':
		return int(binary.BigEndian.Uint16(h[1:])), nil
	case 'E', 'F':
		return 0, p.marker
	}
	return -1, nil
}
func (p *testProto) SerializeHeader(m []byte) []byte {
	if p.header == nil {
		return nil
	}
	return p.header(m)
}
func (p *testProto) GetContentLength(b []byte) int {
	if b[0] == 'C' || b[0] == 'F' {
		return int(binary.BigEndian.Uint16(b[p.hl:]))
	}
	return 0
}

func (p *testProto) message(r *rand.Rand, size int, kind byte) []byte {
	h := randBytes(r, p.hl)
	h[0] = kind
	switch kind {
	case 'L':
		binary.BigEndian.PutUint16(h[1:], uint16(size))
		return append(h, randBytes(r, size)...)
	case 'C':
		n := r.Intn(size + 1)
		b := 2 + r.Intn(20)
		binary.BigEndian.PutUint16(h[1:], uint16(b))
		body := randBytes(r, b)
		binary.BigEndian.PutUint16(body, uint16(n))
		return append(append(h, body...), randBytes(r, n)...)
	}
	// end marker: the body holds the marker exactly once, at its end
	for {
		b := min(size, 3000)
		body := randBytes(r, 2+b)
		if kind == 'E' && r.Intn(4) == 0 {
			body = body[:r.Intn(3)]
		}
		n := 0
		if kind == 'F' {
			n = r.Intn(200)
			binary.BigEndian.PutUint16(body, uint16(n))
		}
		full := append(append([]byte(nil), body...), p.marker...)
		if bytes.Index(full, p.marker) != len(body) {
			if len(p.marker) == 1 { // remove it from the body
				for i := range body {
					if body[i] == p.marker[0] {
						body[i]++
					}
				}
				if kind == 'F' {
					n = int(binary.BigEndian.Uint16(body))
					if n > 3000 {
						continue
					}
				}
				full = append(append([]byte(nil), body...), p.marker...)
				if bytes.Index(full, p.marker) != len(body) {
					continue
				}
			} else {
				continue
			}
		}
		return append(append(h, full...), randBytes(r, n)...)
	}
}

func frameSize(r *rand.Rand, small bool) int {
	if small {
		return r.Intn(24)
	}
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return []int{65535, 65534, 65533, 65532, 65531, 65530, 32768, 256, 255}[r.Intn(9)]
	case 2:
		return r.Intn(65536)
	case 3:
		return 1 + r.Intn(3)
	}
	return r.Intn(2000)
}

// rtspMessage is a response with or without body; the body may hold anything.
func rtspMessage(c *Ctx, r *rand.Rand, small bool) []byte {
	st := []int{200, 401, 404, 500, 302}[r.Intn(5)]
	p := response{status: st, reason: reasonFor(st), hdr: []kv{{"CSeq", fmt.Sprint(r.Intn(100))}}}
	if r.Intn(2) == 0 {
		p.hdr = append(p.hdr, kv{"Session", "abc;timeout=60"})
	}
	if r.Intn(2) == 0 {
		n := 1 + r.Intn(300)
		if small {
			n = 1 + r.Intn(12)
		} else if r.Intn(8) == 0 {
			n = 1 + r.Intn(60000)
		}
		body := randBytes(r, n)
		if r.Intn(3) == 0 {
			copy(body, "\r\n\r\nRTSP/1.0 200 OK\r\n\r\n$\x00\x00\x05")
		}
		p.body = string(body)
		c.Count("responses_with_body", 1)
	}
	if small {
		return p.plain()
	}
	b := randLayout(r)(p)
	if p.body != "" && r.Intn(12) == 0 { // as large as a response may be
		want := []int{65536, 65536, 65535, 65534, 65532, 65531, 65530}[r.Intn(7)]
		p.body = strings.Repeat("x", 50000)
		p.body += string(randBytes(r, want-len(p.plain())))
		c.Count("max_response", 1)
		b = p.plain()
	}
	return b
}

// inbound is a list of messages and the protocol that frames them.
type inbound struct {
	proto tcpnetwork.IStreamProtocol
	kind  string
	msgs  [][]byte
	raw   bool
	hl    int
}

func genInbound(c *Ctx, r *rand.Rand, small bool, n int) *inbound {
	in := &inbound{}
	switch k := r.Intn(10); {
	case k < 6:
		in.kind, in.hl = "rtp/rtsp", 4
		in.proto = &rtspclient.RTPStreamProtocol{}
		for i := 0; i < n; i++ {
			if r.Intn(3) == 0 {
				in.msgs = append(in.msgs, rtspMessage(c, r, small))
				continue
			}
			sz := frameSize(r, small)
			if sz == 0 {
				c.Count("empty", 1)
			}
			if sz >= 65530 {
				c.Count("max_size", 1)
			}
			in.msgs = append(in.msgs, frame(r.Intn(256), randBytes(r, sz)))
		}
	case k < 9 || small:
		p := &testProto{hl: 3 + r.Intn(6), marker: [][]byte{[]byte("eof"), []byte("\r\n\r\n"), []byte("\x00"), []byte("aab"), []byte("--end--")}[r.Intn(5)]}
		in.kind, in.proto, in.hl = fmt.Sprintf("test hl=%d marker=%q", p.hl, p.marker), p, p.hl
		for i := 0; i < n; i++ {
			kind := "LECF"[r.Intn(4)]
			sz := frameSize(r, small)
			if kind != 'L' {
				sz = min(sz, 60000)
			} else {
				if sz == 0 {
					c.Count("empty", 1)
				}
				if sz >= 65530 {
					c.Count("max_size", 1)
				}
			}
			in.msgs = append(in.msgs, p.message(r, sz, kind))
		}
	default:
		p := &testProto{hl: 1 + r.Intn(5)}
		in.kind, in.proto, in.raw, in.hl = "no framing", p, true, p.hl
		if r.Intn(2) == 0 { // neither frames nor responses
			in.kind, in.proto, in.hl = "rtp/rtsp, unknown content", &rtspclient.RTPStreamProtocol{}, 4
		}
		for i := 0; i < n; i++ {
			b := randBytes(r, 1+frameSize(r, false))
			for j := range b {
				b[j] &= 0x1f // never a type byte
			}
			in.msgs = append(in.msgs, b)
		}
		c.Count("raw_streams", 1)
	}
	return in
}

// connLog records what one connection reports.
type connLog struct {
	mu     sync.Mutex
	cond   *sync.Cond
	conn   *tcpnetwork.Connection
	cc     *memConn
	types  []int
	data   [][]byte
	hashes []uint64
	bad    []string
	status []int // status seen in each callback
	closed []int // transport close count seen in each callback
	hook   func(l *connLog, e *tcpnetwork.ConnEvent)
}

func newConnLog(cc *memConn, queue int) *connLog {
	l := &connLog{cc: cc}
	l.cond = sync.NewCond(&l.mu)
	l.conn = tcpnetwork.NewConnection(cc, queue, l.handle)
	return l
}

func (l *connLog) handle(e *tcpnetwork.ConnEvent) {
	st := e.Conn.GetStatus()
	n := l.cc.closeCount()
	l.mu.Lock()
	if e.Conn != l.conn {
		l.bad = append(l.bad, "event carries another connection")
	}
	l.types = append(l.types, e.EventType)
	l.status = append(l.status, st)
	l.closed = append(l.closed, n)
	if e.EventType == tcpnetwork.ConnEventData {
		l.data = append(l.data, e.Data)
		l.hashes = append(l.hashes, hash64(e.Data))
	}
	h := l.hook
	l.cond.Broadcast()
	l.mu.Unlock()
	if h != nil {
		h(l, e)
	}
}

func (l *connLog) wait(d time.Duration, f func() bool) bool {
	expired := false
	t := time.AfterFunc(d, func() { l.mu.Lock(); expired = true; l.cond.Broadcast(); l.mu.Unlock() })
	defer t.Stop()
	l.mu.Lock()
	defer l.mu.Unlock()
	for !f() {
		if expired {
			return false
		}
		l.cond.Wait()
	}
	return true
}

func (l *connLog) ended() bool {
	return len(l.types) > 0 && l.types[len(l.types)-1] == tcpnetwork.ConnEventDisconnected
}

func evTypes(ts []int) string {
	var b strings.Builder
	for _, t := range ts {
		switch t {
		case tcpnetwork.ConnEventConnected:
			b.WriteByte('C')
		case tcpnetwork.ConnEventDisconnected:
			b.WriteByte('D')
		case tcpnetwork.ConnEventData:
			b.WriteByte('.')
		default:
			fmt.Fprintf(&b, "?%d", t)
		}
	}
	return b.String()
}

// lifecycle judges the recorded events; atData: also judge the status seen during data events.
func (l *connLog) lifecycle(atData bool) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.bad) > 0 {
		return l.bad[0]
	}
	s := evTypes(l.types)
	if s != "C"+strings.Repeat(".", len(l.data))+"D" {
		return fmt.Sprintf("events were %s (C connected, . data, D disconnected)", clip(s, 200))
	}
	for i, t := range l.types {
		switch t {
		case tcpnetwork.ConnEventDisconnected:
			if l.status[i] != tcpnetwork.ConnStatusDisconnected {
				return fmt.Sprintf("status is %d when disconnection is reported", l.status[i])
			}
			if l.closed[i] == 0 {
				return "the transport is not closed when disconnection is reported"
			}
		default:
			if atData && l.status[i] != tcpnetwork.ConnStatusConnected {
				return fmt.Sprintf("status is %d in event %d (%s) of a live connection", l.status[i], i, s[i:i+1])
			}
		}
	}
	return ""
}

func (l *connLog) buffersIntact() string {
	for i, d := range l.data {
		if hash64(d) != l.hashes[i] {
			return fmt.Sprintf("the buffer of message %d (%d bytes) changed after delivery", i, len(d))
		}
	}
	return ""
}

// splitWrite writes the stream in segments of random sizes.
func splitWrite(r *rand.Rand, s *memConn, b []byte, mode int) {
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 0:
		case 1:
			n = min(n, 1+r.Intn(8))
		case 2:
			n = min(n, 1+r.Intn(3000))
		case 3:
			n = min(n, 1+r.Intn(70000))
		}
		if !s.put(b[:n]) {
			return
		}
		b = b[n:]
	}
}

func runT01(c *Ctx) {
	r := c.R
	many := 1 + r.Intn(20)
	if c.Idx%40 == 3 { // more than any queue holds
		many = 500 + r.Intn(5000)
	}
	in := genInbound(c, r, r.Intn(6) == 0 || many > 20, many)
	cc, sc := newPair()
	ch, chn := pickChunker(r)
	total := 0
	for _, m := range in.msgs {
		total += len(m)
	}
	if total > 200000 && chn == "one" {
		ch, chn = chunkRand(r, 3000), "rand3000"
	}
	cc.chunk = ch
	mode := r.Intn(4)
	if total > 200000 {
		mode = 3
	}
	if r.Intn(8) == 0 && total < 5000 {
		cc.delay = func() time.Duration { return time.Duration(r.Intn(3)) * time.Second }
	}
	if r.Intn(5) == 0 {
		zr := rand.New(rand.NewSource(r.Int63()))
		cc.zero = func() bool { return zr.Intn(6) == 0 }
		c.Count("zero_reads", 1)
	}
	l := newConnLog(cc, 10)
	l.conn.SetStreamProtocol(in.proto)
	rt := 0
	if cc.delay == nil && r.Intn(4) == 0 {
		rt = 1 + r.Intn(5)
		l.conn.SetReadTimeoutSec(rt)
		if l.conn.GetReadTimeoutSec() != rt {
			c.Violate("timeout", "read timeout %d reads back as %d", rt, l.conn.GetReadTimeoutSec())
		}
	}
	c.Desc("%s, %d messages, %d bytes, reads %s, writes mode %d, read timeout %d", in.kind, len(in.msgs), total, chn, mode, rt)
	if len(in.msgs) > 1 || in.raw {
		c.Sig(in.kind, len(in.msgs), total, chn, mode)
	}
	c.Count("messages", len(in.msgs))
	if r.Intn(3) == 0 { // a handler that takes its time
		hr, most := rand.New(rand.NewSource(r.Int63())), []time.Duration{time.Millisecond, time.Second, 30 * time.Second}[r.Intn(3)]
		n := 0
		l.hook = func(*connLog, *tcpnetwork.ConnEvent) {
			if n < 100 && hr.Intn(2) == 0 {
				n++
				time.Sleep(time.Duration(1 + hr.Int63n(int64(most))))
			}
		}
		c.Count("slow_handler", 1)
	}
	var stream []byte
	for _, m := range in.msgs {
		stream = append(stream, m...)
	}
	r2 := rand.New(rand.NewSource(r.Int63()))
	l.conn.Run()
	go func() {
		splitWrite(r2, sc, stream, mode)
		sc.closeWrite()
	}()
	ok := l.wait(time.Hour*24, l.ended)
	sc.Close()
	if !ok {
		c.Violate("hang", "no disconnection reported after the end of the stream; events %s", clip(evTypes(l.types), 200))
		return
	}
	synctest.Wait()
	if s := l.lifecycle(true); s != "" {
		c.Violate("events", "%s", s)
	}
	if s := l.buffersIntact(); s != "" {
		c.Violate("buffer", "%s", s)
	}
	if in.raw {
		got := bytes.Join(l.data, nil)
		if len(got) > len(stream) || len(stream)-len(got) >= in.hl || !bytes.Equal(got, stream[:len(got)]) {
			c.Violate("raw", "unframed stream: %d bytes delivered of %d, equal prefix %v", len(got), len(stream), len(got) <= len(stream) && bytes.Equal(got, stream[:len(got)]))
		}
		return
	}
	if d := diffBufs(l.data, in.msgs); d != "" {
		c.Violate("framing", "%s (%s, reads %s)", d, in.kind, chn)
	}
}

// ---- T02 ---------------------------------------------------------------------------------------------------------

func runT02(c *Ctx) {
	r := c.R
	long := r.Intn(4) == 0
	n := 1 + r.Intn(4)
	in := genInbound(c, r, !long, n)
	if in.raw {
		in = genInbound(c, r, true, n)
	}
	var stream []byte
	var ends []int
	for _, m := range in.msgs {
		stream = append(stream, m...)
		ends = append(ends, len(stream))
	}
	var cuts []int
	if len(stream) <= 260 {
		for i := 0; i <= len(stream); i++ {
			cuts = append(cuts, i)
		}
	} else {
		cuts = append(cuts, 0, len(stream), len(stream)-1)
		for _, e := range ends {
			cuts = append(cuts, e, e-1)
			if e < len(stream) {
				cuts = append(cuts, e+1, min(e+in.hl, len(stream)))
			}
		}
		for i := 0; i < 20; i++ {
			cuts = append(cuts, r.Intn(len(stream)+1))
		}
	}
	c.Desc("%s, %d messages, %d bytes, %d cut points", in.kind, len(in.msgs), len(stream), len(cuts))
	c.Sig(in.kind, len(in.msgs), len(stream), hash64(stream))
	for _, cut := range cuts {
		complete := 0
		boundary := cut == 0
		for _, e := range ends {
			if e <= cut {
				complete++
			}
			boundary = boundary || e == cut
		}
		if !boundary {
			c.Count("cut_inside_message", 1)
		}
		for _, how := range []string{"eof", "error", "close", "write-error"} {
			if how == "write-error" && r.Intn(4) > 0 {
				continue
			}
			if !t02One(c, in, stream[:cut], complete, how) {
				return
			}
		}
	}
}

func t02One(c *Ctx, in *inbound, stream []byte, complete int, how string) bool {
	r := c.R
	c.Count("connections", 1)
	cc, sc := newPair()
	ch, chn := pickChunker(r)
	if len(stream) > 100000 && chn == "one" {
		ch = chunkAll
	}
	cc.chunk = ch
	l := newConnLog(cc, r.Intn(4))
	proto := in.proto
	if tp, ok := proto.(*testProto); ok {
		cp := *tp
		proto = &cp
	}
	l.conn.SetStreamProtocol(proto)
	fail := func(kind, f string, a ...any) bool {
		c.Violate(kind, "%s; %s, %d bytes sent (%d complete messages), ended by %s", fmt.Sprintf(f, a...), in.kind, len(stream), complete, how)
		return false
	}
	if st := l.conn.GetStatus(); st != tcpnetwork.ConnStatusNone {
		return fail("status", "status %d before Run", st)
	}
	variant := ""
	switch how {
	case "eof":
		l.conn.Run()
		go func() {
			sc.put(stream)
			if r.Intn(2) == 0 {
				sc.closeWrite()
			} else {
				sc.Close()
			}
		}()
	case "error":
		c.Count("read_error", 1)
		l.conn.Run()
		go func() {
			sc.put(stream)
			sc.failPeerRead(errInjected)
		}()
	case "close":
		c.Count("local_close", 1)
		k := r.Intn(6)
		variant = fmt.Sprint("variant ", k)
		switch k {
		case 0: // at once
			l.conn.Run()
			l.conn.Close()
			sc.put(stream)
		case 1: // when everything sent was seen
			l.conn.Run()
			sc.put(stream)
			l.wait(time.Hour, func() bool { return len(l.data) >= complete })
			l.conn.Close()
		case 2: // from the connected callback
			l.hook = func(l *connLog, e *tcpnetwork.ConnEvent) {
				if e.EventType == tcpnetwork.ConnEventConnected {
					e.Conn.Close()
				}
			}
			l.conn.Run()
			sc.put(stream)
		case 3: // from the first data callback, or outside
			l.hook = func(l *connLog, e *tcpnetwork.ConnEvent) {
				if e.EventType == tcpnetwork.ConnEventData {
					e.Conn.Close()
				}
			}
			l.conn.Run()
			sc.put(stream)
			if complete == 0 {
				l.conn.Close()
			}
		case 4: // by many at once
			l.conn.Run()
			sc.put(stream)
			for i := 0; i < 4; i++ {
				go l.conn.Close()
			}
		case 5: // by both sides at once
			l.conn.Run()
			go l.conn.Close()
			sc.put(stream)
			sc.Close()
		}
	case "write-error":
		c.Count("write_error", 1)
		cc.wErrAfter = r.Intn(3)
		l.conn.Run()
		sc.put(stream)
		for i := 0; i < 3; i++ {
			l.conn.Send([]byte("some message"), false)
		}
		if r.Intn(2) == 0 {
			go l.conn.Close()
		}
	}
	if !l.wait(20*time.Second, l.ended) {
		synctest.Wait()
		return fail("hang", "%s: no disconnection reported within 20 s; events %s", variant, evTypes(l.types))
	}
	// nothing may follow
	if r.Intn(3) == 0 {
		l.conn.Send([]byte("late"), r.Intn(2) == 0)
		l.conn.Close()
		time.Sleep(10 * time.Second)
	}
	synctest.Wait()
	if s := l.lifecycle(how == "eof" || how == "error"); s != "" {
		return fail("events", "%s %s", s, variant)
	}
	if st := l.conn.GetStatus(); st != tcpnetwork.ConnStatusDisconnected {
		return fail("status", "status %d after disconnection", st)
	}
	want := in.msgs[:complete]
	if how == "eof" || how == "error" {
		if d := diffBufs(l.data, want); d != "" {
			return fail("delivery", "%s", d)
		}
	} else {
		if len(l.data) > len(want) {
			return fail("delivery", "%d messages delivered of %d complete ones", len(l.data), len(want))
		}
		if d := diffBufs(l.data, want[:len(l.data)]); d != "" {
			return fail("delivery", "%s", d)
		}
		if how == "close" && variant == "variant 1" && len(l.data) != complete {
			return fail("delivery", "%d messages delivered of %d complete ones", len(l.data), len(want))
		}
	}
	// the peer sees the end
	b := make([]byte, 64)
	for {
		_, err := sc.Read(b)
		if err != nil {
			break
		}
	}
	sc.Close()
	return true
}

// ---- T03 ---------------------------------------------------------------------------------------------------------

const sendMagic = 0x5a17c0de

// outMsg is self-describing: magic, sender, sequence, length, checksum of the payload, payload.
func outMsg(r *rand.Rand, sender, seq, size int) []byte {
	b := make([]byte, 18+size)
	binary.BigEndian.PutUint32(b, sendMagic)
	binary.BigEndian.PutUint16(b[4:], uint16(sender))
	binary.BigEndian.PutUint32(b[6:], uint32(seq))
	binary.BigEndian.PutUint32(b[10:], uint32(size))
	r.Read(b[18:])
	binary.BigEndian.PutUint32(b[14:], crc32.ChecksumIEEE(b[18:]))
	return b
}

// protoHeader depends on the message, also in its length: none, empty, or starting with its own length.
func protoHeader(m []byte) []byte {
	x := crc32.ChecksumIEEE(m)
	n := []int{8, 8, 1, 1, 2, 5, 200, 0, 0, -1}[x%10]
	if n < 0 {
		return nil
	}
	h := make([]byte, n)
	for i := range h {
		h[i] = byte(x>>(i%4*8)) + byte(i)
	}
	if n > 0 {
		h[0] = byte(n)
	}
	return h
}

type sentID struct{ sender, seq int }

// parseOut parses what the peer received. partial: the last message may be cut.
func parseOut(b []byte, header bool, partial bool) ([]sentID, string) {
	var out []sentID
	for len(b) > 0 {
		var h []byte
		if header {
			n := int(b[0]) // 0x5a is the first byte of a message without header
			if n == sendMagic>>24 {
				n = 0
			}
			if len(b) < n {
				if partial {
					return out, ""
				}
				return out, "cut protocol header"
			}
			h, b = b[:n], b[n:]
		}
		if len(b) < 18 {
			if partial {
				return out, ""
			}
			return out, "cut message"
		}
		if binary.BigEndian.Uint32(b) != sendMagic {
			return out, fmt.Sprintf("no message starts after %d messages: %s", len(out), short(b))
		}
		n := int(binary.BigEndian.Uint32(b[10:]))
		if len(b) < 18+n {
			if partial {
				return out, ""
			}
			return out, fmt.Sprintf("message cut: %d of %d bytes", len(b), 18+n)
		}
		m := b[:18+n]
		b = b[18+n:]
		id := sentID{int(binary.BigEndian.Uint16(m[4:])), int(binary.BigEndian.Uint32(m[6:]))}
		if crc32.ChecksumIEEE(m[18:]) != binary.BigEndian.Uint32(m[14:]) {
			return out, fmt.Sprintf("payload of message %v is not what was sent", id)
		}
		if header && !bytes.Equal(h, protoHeader(m)) {
			return out, fmt.Sprintf("message %v is not preceded by its header", id)
		}
		out = append(out, id)
	}
	return out, ""
}

func runT03(c *Ctx) {
	r := c.R
	cc, sc := newPair()
	queue := []int{0, 1, 2, 10, 4095}[r.Intn(5)]
	withHeader := r.Intn(2) == 0
	p := &testProto{hl: 3}
	if withHeader {
		p.header = protoHeader
	}
	sc.chunk, _ = pickChunker(r)
	if r.Intn(3) == 0 {
		cc.out.limit = 1 + r.Intn(5000)
	}
	how := []string{"close", "close", "close", "racing", "peer"}[r.Intn(5)]
	senders, per := 1+r.Intn(8), 1+r.Intn(12)
	big := r.Intn(10) == 0
	if big {
		senders, per = 1+r.Intn(3), 1+r.Intn(4)
	} else if r.Intn(3) == 0 {
		sc.chunk = chunkAll
		sc.delay = func() time.Duration { return time.Duration(r.Intn(2)) * time.Millisecond }
		if cc.out.limit > 0 {
			cc.out.limit += 2000
		}
	}
	immediate := r.Intn(3) > 0
	c.Desc("%d senders x %d messages, queue %d, header %v, end by %s, socket buffer %d, immediate %v, big %v", senders, per, queue, withHeader, how, cc.out.limit, immediate, big)
	if senders*per > 1 {
		c.Sig(senders, per, queue, withHeader, how, cc.out.limit, immediate, big)
	}
	l := newConnLog(cc, queue)
	l.conn.SetStreamProtocol(p)

	var got []byte
	var gmu sync.Mutex
	peerDone := make(chan struct{})
	stopAfter := -1
	if how == "peer" {
		stopAfter = r.Intn(3000)
	}
	go func() {
		defer close(peerDone)
		buf := make([]byte, 70000)
		for {
			n, err := sc.Read(buf)
			gmu.Lock()
			got = append(got, buf[:n]...)
			k := len(got)
			gmu.Unlock()
			if stopAfter >= 0 && k >= stopAfter {
				sc.Close()
				return
			}
			if err != nil {
				if err != io.EOF {
					c.Violate("peer", "peer read: %v", err)
				}
				return
			}
		}
	}()

	var amu sync.Mutex
	accepted := map[sentID]bool{} // Send returned before a close was called
	closing := false
	var wg sync.WaitGroup
	sendAll := func(s int, rr *rand.Rand) {
		defer wg.Done()
		for q := 0; q < per; q++ {
			size := rr.Intn(400)
			switch {
			case big:
				size = 60000 + rr.Intn(12000)
				if rr.Intn(4) == 0 {
					size = rr.Intn(400000)
				}
			case rr.Intn(8) == 0:
				size = rr.Intn(4000)
			}
			if !withHeader && rr.Intn(8) == 0 { // nothing to send is nothing sent
				l.conn.Send([]byte{}, rr.Intn(2) == 0)
				c.Count("empty", 1)
			}
			m := outMsg(rr, s, q, size)
			copyIt := rr.Intn(2) == 0
			l.conn.Send(m, copyIt)
			if copyIt { // the caller reuses its buffer at once
				for i := range m {
					m[i] = 0xEE
				}
				c.Count("copied", 1)
			}
			c.Count("messages", 1)
			amu.Lock()
			if !closing {
				accepted[sentID{s, q}] = true
			}
			amu.Unlock()
		}
	}
	if withHeader {
		c.Count("headers", senders*per)
	}
	l.conn.Run()
	if immediate {
		c.Count("immediate", 1)
	} else {
		l.wait(time.Hour, func() bool { return len(l.types) > 0 })
	}
	for s := 0; s < senders; s++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		if s == 0 && immediate {
			sendAll(s, rr) // on this goroutine, right after Run
		} else {
			go sendAll(s, rr)
		}
	}
	doClose := func() {
		amu.Lock()
		closing = true
		amu.Unlock()
		l.conn.Close()
	}
	switch how {
	case "close":
		wg.Wait()
		doClose()
	case "racing":
		c.Count("racing_close", 1)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
		doClose()
		wg.Wait()
	case "peer":
		wg.Wait()
		doClose()
	}
	if !l.wait(30*time.Second, l.ended) {
		synctest.Wait()
		c.Violate("hang", "no disconnection reported within 30 s of Close; events %s", evTypes(l.types))
		sc.Close()
		return
	}
	// sending on an ended connection: no panic, no write
	synctest.Wait()
	w := func() int { return int(cc.writes.Load()) }
	w0 := w()
	for i := 0; i < 3; i++ {
		l.conn.Send([]byte("after the end"), i == 1)
		c.Count("sends_after_end", 1)
	}
	l.conn.Close()
	if r.Intn(3) == 0 {
		time.Sleep(8 * time.Second)
	}
	synctest.Wait()
	if w() != w0 {
		c.Violate("late-write", "%d writes after disconnection was reported", w()-w0)
	}
	<-peerDone
	sc.Close()
	if s := l.lifecycle(false); s != "" {
		c.Violate("events", "%s", s)
	}
	ids, bad := parseOut(got, withHeader, how == "peer")
	if bad != "" {
		c.Violate("stream", "%s", bad)
		return
	}
	next := map[int]int{}
	seen := map[sentID]bool{}
	for _, id := range ids {
		if id.seq != next[id.sender] {
			c.Violate("order", "message %v arrived where message %d of that sender was due", id, next[id.sender])
			return
		}
		next[id.sender] = id.seq + 1
		seen[id] = true
	}
	if how != "peer" {
		for id := range accepted {
			if !seen[id] {
				c.Violate("lost", "message %v was accepted before Close and never reached the peer (%d of %d did)", id, len(ids), senders*per)
				return
			}
		}
	}
}
