package main

// helper.go: what the demonstrations share: a scripted RTSP server on the
// loopback network and a recorder for a session.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func init() {
	log.SetOutput(io.Discard)
	go func() {
		time.Sleep(120 * time.Second)
		fail("the demonstration hangs")
	}()
}

func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func check(cond bool, format string, args ...interface{}) {
	if !cond {
		fail(format, args...)
	}
}

type request struct {
	method, url, raw string
	names            []string
	header           map[string]string
}

// peer is the server's end of one connection.
type peer struct {
	net.Conn
	r    *bufio.Reader
	seen []*request
}

func newPeer(c net.Conn) *peer { return &peer{Conn: c, r: bufio.NewReader(c)} }

func (p *peer) request() *request {
	p.SetReadDeadline(time.Now().Add(20 * time.Second))
	q := &request{header: map[string]string{}}
	for i := 0; ; i++ {
		line, err := p.r.ReadString('\n')
		if err != nil {
			return nil
		}
		q.raw += line
		line = strings.TrimRight(line, "\r\n")
		if line == "" {
			break
		}
		if i == 0 {
			f := strings.SplitN(line, " ", 3)
			q.method = f[0]
			if len(f) > 1 {
				q.url = f[1]
			}
			continue
		}
		kv := strings.SplitN(line, ":", 2)
		if len(kv) == 2 {
			k := strings.ToLower(strings.TrimSpace(kv[0]))
			q.names = append(q.names, k)
			q.header[k] = strings.TrimSpace(kv[1])
		}
	}
	p.seen = append(p.seen, q)
	return q
}

func (p *peer) send(b []byte) error {
	p.SetWriteDeadline(time.Now().Add(20 * time.Second))
	_, err := p.Write(b)
	return err
}

func answer(q *request, status int, headers string, body string) []byte {
	s := fmt.Sprintf("RTSP/1.0 %d X\r\nCSeq: %s\r\n%s", status, q.header["cseq"], headers)
	if body != "" {
		s += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
	}
	return []byte(s + "\r\n" + body)
}

func (p *peer) reply(q *request, status int, headers, body string) {
	p.send(answer(q, status, headers, body))
}

// accept answers requests with 200 up to and including PLAY; false if the client left before.
func (p *peer) accept(sdp, session string) bool {
	for {
		q := p.request()
		if q == nil {
			return false
		}
		switch q.method {
		case "DESCRIBE":
			p.reply(q, 200, "Content-Type: application/sdp\r\n", sdp)
		case "SETUP":
			p.reply(q, 200, "Session: "+session+"\r\n", "")
		case "PLAY":
			p.reply(q, 200, "", "")
			return true
		default:
			p.reply(q, 200, "", "")
		}
	}
}

func (p *peer) until(method string) *request {
	for {
		q := p.request()
		if q == nil || q.method == method {
			return q
		}
	}
}

func listen() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("listen: %v", err)
	}
	return l
}

// serve runs h for every connection; the URL it returns leads there.
func serve(h func(p *peer)) (string, net.Listener) {
	l := listen()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				h(newPeer(c))
				c.Close()
			}()
		}
	}()
	return "rtsp://" + l.Addr().String(), l
}

func sdpOf(medias ...string) string {
	s := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\n"
	for i, codec := range medias {
		pt := 96 + i
		s += fmt.Sprintf("m=video 0 RTP/AVP %d\r\na=rtpmap:%d %s/90000\r\na=control:track%d\r\n", pt, pt, codec, i)
	}
	return s
}

func frame(channel int, data []byte) []byte {
	b := []byte{'$', byte(channel), 0, 0}
	binary.BigEndian.PutUint16(b[2:], uint16(len(data)))
	return append(b, data...)
}

func rtp(seq int, marker bool, payload []byte) []byte {
	h := make([]byte, 12)
	h[0], h[1] = 0x80, 96
	if marker {
		h[1] |= 0x80
	}
	binary.BigEndian.PutUint16(h[2:], uint16(seq))
	binary.BigEndian.PutUint32(h[4:], uint32(seq)*3600)
	binary.BigEndian.PutUint32(h[8:], 0x11223344)
	return append(h, payload...)
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7) + seed
	}
	return b
}

// player records what a session does.
type player struct {
	*rtspclient.RtspClientSession
	mu     sync.Mutex
	data   []*rtspclient.RtspData
	events []int
	onEvt  func(e int)
}

func newPlayer() *player {
	p := &player{}
	p.RtspClientSession = rtspclient.NewRtspClientSession(func(d *rtspclient.RtspData) {
		p.mu.Lock()
		p.data = append(p.data, d)
		p.mu.Unlock()
	}, func(e *rtspclient.RtspEvent) {
		p.mu.Lock()
		p.events = append(p.events, e.EventType)
		f := p.onEvt
		p.mu.Unlock()
		if f != nil {
			f(e.EventType)
		}
	})
	return p
}

func (p *player) frames() [][]byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	var r [][]byte
	for _, d := range p.data {
		r = append(r, d.Data)
	}
	return r
}

func (p *player) count(event int) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for _, e := range p.events {
		if e == event {
			n++
		}
	}
	return n
}

func wait(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

func same(got, want [][]byte) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			return false
		}
	}
	return true
}

func sizes(b [][]byte) string {
	s := []string{}
	for _, x := range b {
		if len(x) > 8 {
			s = append(s, fmt.Sprintf("%d:%x..", len(x), x[:8]))
		} else {
			s = append(s, fmt.Sprintf("%d:%x", len(x), x))
		}
	}
	return strings.Join(s, " ")
}

// media plays a description with the given codecs, sends the packets and
// returns what was delivered once want deliveries were there (or 3 s passed).
func media(codecs []string, frames [][]byte, want int) *player {
	done := make(chan bool)
	url, l := serve(func(p *peer) {
		if p.accept(sdpOf(codecs...), "1") {
			for _, f := range frames {
				p.send(f)
			}
		}
		<-done
	})
	p := newPlayer()
	if err := p.Play(url + "/x"); err != nil {
		fail("play: %v", err)
	}
	wait(3*time.Second, func() bool { return len(p.frames()) >= want })
	time.Sleep(50 * time.Millisecond)
	close(done)
	wait(3*time.Second, func() bool { return p.count(rtspclient.RtspEventDisconnected) > 0 })
	l.Close()
	return p
}
