package vharness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- requests as seen on the wire -------------------------------------------------------------------------------

type kv struct{ k, v string }

type request struct {
	raw    string
	method string
	url    string
	proto  string
	hdr    []kv
	errs   []string // form errors found by the strict parser
	at     time.Time
	idx    int
}

func (r *request) get(name string) []string {
	var out []string
	for _, h := range r.hdr {
		if strings.EqualFold(h.k, name) {
			out = append(out, h.v)
		}
	}
	return out
}

func (r *request) one(name string) string {
	v := r.get(name)
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

func (r *request) cseq() int {
	n, err := strconv.Atoi(r.one("CSeq"))
	if err != nil {
		return -1
	}
	return n
}

const tokenChars = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

func isToken(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !strings.ContainsRune(tokenChars, c) {
			return false
		}
	}
	return true
}

// parseRequest is a strict parser: every deviation from the grammar is noted in errs.
func parseRequest(raw string) *request {
	r := &request{raw: raw}
	bad := func(f string, a ...any) { r.errs = append(r.errs, fmt.Sprintf(f, a...)) }
	body := strings.TrimSuffix(raw, "\r\n\r\n")
	if strings.Contains(strings.ReplaceAll(raw, "\r\n", ""), "\n") || strings.Contains(strings.ReplaceAll(raw, "\r\n", ""), "\r") {
		bad("bare CR or LF")
	}
	lines := strings.Split(body, "\r\n")
	f := strings.Split(lines[0], " ")
	if len(f) != 3 {
		bad("request line %q does not have three parts", lines[0])
	}
	if len(f) > 0 {
		r.method = f[0]
	}
	if len(f) > 1 {
		r.url = f[1]
	}
	if len(f) > 2 {
		r.proto = f[2]
	}
	if r.proto != "RTSP/1.0" {
		bad("protocol %q", r.proto)
	}
	if !isToken(r.method) {
		bad("method %q", r.method)
	}
	if r.url == "" {
		bad("empty request URL")
	}
	for _, l := range lines[1:] {
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			bad("header line %q has no colon", l)
			continue
		}
		if !isToken(k) {
			bad("header name %q", k)
		}
		if v != "" && !strings.HasPrefix(v, " ") {
			// optional white space; fine
			v = " " + v
		}
		r.hdr = append(r.hdr, kv{k, strings.Trim(v, " \t")})
	}
	if n := len(r.get("CSeq")); n != 1 {
		bad("%d CSeq headers", n)
	} else if r.cseq() < 0 {
		bad("CSeq %q is not a number", r.one("CSeq"))
	}
	return r
}

// ---- scripted server --------------------------------------------------------------------------------------------

type rwc interface {
	io.Reader
	io.Writer
	io.Closer
}

type srv struct {
	c     rwc
	mu    sync.Mutex
	reqs  []*request
	left  []byte // bytes that do not form a request
	onReq func(s *srv, r *request)
	done  chan struct{}
	wmu   sync.Mutex
}

func newSrv(c rwc, onReq func(s *srv, r *request)) *srv {
	s := &srv{c: c, onReq: onReq, done: make(chan struct{})}
	go s.loop()
	return s
}

func (s *srv) loop() {
	defer close(s.done)
	var acc []byte
	buf := make([]byte, 65536)
	for {
		n, err := s.c.Read(buf)
		acc = append(acc, buf[:n]...)
		for {
			i := bytes.Index(acc, []byte("\r\n\r\n"))
			if i < 0 {
				break
			}
			r := parseRequest(string(acc[:i+4]))
			r.at = time.Now()
			acc = acc[i+4:]
			s.mu.Lock()
			r.idx = len(s.reqs)
			s.reqs = append(s.reqs, r)
			s.left = acc
			s.mu.Unlock()
			if s.onReq != nil {
				s.onReq(s, r)
			}
		}
		s.mu.Lock()
		s.left = acc
		s.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (s *srv) requests() []*request {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*request(nil), s.reqs...)
}

func (s *srv) leftover() string { s.mu.Lock(); defer s.mu.Unlock(); return string(s.left) }

func (s *srv) write(b []byte) bool {
	s.wmu.Lock()
	defer s.wmu.Unlock()
	_, err := s.c.Write(b)
	return err == nil
}

func (s *srv) methods() string {
	var m []string
	for _, r := range s.requests() {
		m = append(m, r.method)
	}
	return strings.Join(m, ",")
}

// ---- responses --------------------------------------------------------------------------------------------------

type response struct {
	status int
	reason string
	hdr    []kv
	body   string
}

func (p response) plain() []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "RTSP/1.0 %d %s\r\n", p.status, p.reason)
	for _, h := range p.hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", h.k, h.v)
	}
	if p.body != "" {
		fmt.Fprintf(&b, "Content-Type: application/sdp\r\nContent-Length: %d\r\n", len(p.body))
	}
	b.WriteString("\r\n")
	b.WriteString(p.body)
	return []byte(b.String())
}

func reasonFor(st int) string {
	switch st {
	case 200:
		return "OK"
	case 401:
		return "Unauthorized"
	case 404:
		return "Not Found"
	case 454:
		return "Session Not Found"
	}
	return "Some Reason"
}

// ---- scenarios --------------------------------------------------------------------------------------------------

type mediaSpec struct {
	typ     string
	pt      int
	rtpmap  string // after "<pt> ", e.g. H264/90000; empty: no rtpmap line
	control string
	attrs   []string // further a= lines
	fmts    string   // m= format list, default pt
	port    string   // default 0
	proto   string   // default RTP/AVP
}

func (m mediaSpec) lines() string {
	f := m.fmts
	if f == "" {
		f = strconv.Itoa(m.pt)
	}
	port, proto := m.port, m.proto
	if port == "" {
		port = "0"
	}
	if proto == "" {
		proto = "RTP/AVP"
	}
	s := fmt.Sprintf("m=%s %s %s %s\r\n", m.typ, port, proto, f)
	if m.rtpmap != "" {
		s += fmt.Sprintf("a=rtpmap:%d %s\r\n", m.pt, m.rtpmap)
	}
	for _, a := range m.attrs {
		s += "a=" + a + "\r\n"
	}
	if m.control != "" {
		s += "a=control:" + m.control + "\r\n"
	}
	return s
}

const sdpHead = "v=0\r\no=- 1001 1 IN IP4 192.168.0.1\r\ns=stream\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\n"

func sdpFor(ms []mediaSpec) string {
	s := sdpHead
	for _, m := range ms {
		s += m.lines()
	}
	return s
}

func mediaFor(codec string, i int) mediaSpec {
	m := mediaSpec{typ: "video", pt: 96 + i, rtpmap: codec + "/90000", control: fmt.Sprintf("trackID=%d", i)}
	switch codec {
	case "PCMU":
		m = mediaSpec{typ: "audio", pt: 0, control: fmt.Sprintf("trackID=%d", i)}
	case "PCMA":
		m = mediaSpec{typ: "audio", pt: 8, control: fmt.Sprintf("trackID=%d", i)}
	case "MPEG4-GENERIC":
		m.typ, m.rtpmap = "audio", "MPEG4-GENERIC/16000/1"
	case "GSM", "G723", "DVI4", "LPC", "G722", "QCELP", "CN", "MPA", "G728", "G729", "CelB", "JPEG", "nv", "H261", "MPV", "MP2T", "H263":
		if i%2 == 0 { // with its static payload type, described or not
			pt, v := map[string]int{"GSM": 3, "G723": 4, "DVI4": 5, "LPC": 7, "G722": 9, "QCELP": 12, "CN": 13, "MPA": 14, "G728": 15, "G729": 18, "CelB": 25, "JPEG": 26, "nv": 28, "H261": 31, "MPV": 32, "MP2T": 33, "H263": 34}[codec], m.control
			m = mediaSpec{typ: "audio", pt: pt, control: v}
			if pt > 24 {
				m.typ = "video"
			}
		}
	case "L16":
		m.typ, m.rtpmap = "audio", "L16/44100/2"
	}
	return m
}

// step names one request of the handshake: "DESCRIBE", "DESCRIBE2", "SETUP0".., "PLAY".
type scenario struct {
	medias []mediaSpec
	sdp    string // body of the DESCRIBE answer, default from medias
	sess   string // session header value
	auth   []kv   // WWW-Authenticate headers of the first answer (401); nil: no challenge
	status map[string]int
	layout func(p response) []byte
	delay  func(step string) time.Duration
	// override replaces the bytes of the answer to a step; nil result means no answer.
	override map[string]func(s *srv, std []byte) []byte
	before   func(s *srv, step string) // called before the answer to each step
	after    func(s *srv, step string) // called after the answer to each step
	onOther  func(s *srv, r *request)  // requests after the handshake; default: answer 200
}

type runState struct {
	mu    sync.Mutex
	steps []string // steps reached
}

func (rs *runState) list() []string {
	rs.mu.Lock()
	defer rs.mu.Unlock()
	return append([]string(nil), rs.steps...)
}

func (sc *scenario) server(c rwc) (*srv, *runState) {
	rs := &runState{}
	desc, setups, played := 0, 0, false
	h := func(s *srv, r *request) {
		step := ""
		switch {
		case r.method == "DESCRIBE" && !played:
			desc++
			step = "DESCRIBE"
			if desc > 1 {
				step = "DESCRIBE" + strconv.Itoa(desc)
			}
		case r.method == "SETUP" && !played:
			step = "SETUP" + strconv.Itoa(setups)
			setups++
		case r.method == "PLAY" && !played:
			step = "PLAY"
			played = true
		default:
			if sc.onOther != nil {
				sc.onOther(s, r)
			} else {
				s.write(response{status: 200, reason: "OK", hdr: []kv{{"CSeq", r.one("CSeq")}}}.plain())
			}
			return
		}
		rs.mu.Lock()
		rs.steps = append(rs.steps, step)
		rs.mu.Unlock()
		st := 200
		if step == "DESCRIBE" && sc.auth != nil {
			st = 401
		}
		if v, ok := sc.status[step]; ok {
			st = v
		}
		p := response{status: st, reason: reasonFor(st), hdr: []kv{{"CSeq", r.one("CSeq")}}}
		if st == 401 {
			p.hdr = append(p.hdr, sc.auth...)
		}
		if st == 200 {
			switch {
			case r.method == "DESCRIBE":
				p.body = sc.sdp
				if p.body == "" {
					p.body = sdpFor(sc.medias)
				}
			case r.method == "SETUP":
				p.hdr = append(p.hdr, kv{"Session", sc.sess}, kv{"Transport", r.one("Transport")})
			default:
				p.hdr = append(p.hdr, kv{"Session", sc.sess}, kv{"RTP-Info", "url=" + r.url + ";seq=1;rtptime=0"})
			}
		}
		var out []byte
		if sc.layout != nil {
			out = sc.layout(p)
		} else {
			out = p.plain()
		}
		if f := sc.override[step]; f != nil {
			out = f(s, out)
		}
		if sc.delay != nil {
			if d := sc.delay(step); d > 0 {
				time.Sleep(d)
			}
		}
		if sc.before != nil {
			sc.before(s, step)
		}
		if out != nil {
			s.write(out)
		}
		if sc.after != nil {
			sc.after(s, step)
		}
	}
	return newSrv(c, h), rs
}

func defaultScenario(codecs ...string) *scenario {
	sc := &scenario{sess: "12345678", status: map[string]int{}, override: map[string]func(*srv, []byte) []byte{}}
	for i, c := range codecs {
		sc.medias = append(sc.medias, mediaFor(c, i))
	}
	return sc
}

// randLayout writes a response with random but equivalent header layout.
func randLayout(r *rand.Rand) func(p response) []byte {
	return func(p response) []byte {
		var hs []string
		nm := func(k string) string {
			switch r.Intn(4) {
			case 0:
				return strings.ToUpper(k)
			case 1:
				return strings.ToLower(k)
			}
			return k
		}
		add := func(k, v string) {
			sp := []string{" ", "", "  ", "\t", " \t "}[r.Intn(5)]
			tr := []string{"", "", " ", "\t"}[r.Intn(4)]
			hs = append(hs, nm(k)+":"+sp+v+tr)
		}
		for _, h := range p.hdr {
			add(h.k, h.v)
		}
		if p.body != "" {
			add("Content-Type", "application/sdp")
			add("Content-Length", strconv.Itoa(len(p.body)))
		} else if r.Intn(3) == 0 {
			add("Content-Length", "0")
		}
		extra := []kv{{"Server", "Some Server/1.2 (x; y)"}, {"Date", "Thu, 01 Jan 1970 00:00:12 GMT"},
			{"Content-Base", "rtsp://10.0.0.1:8554/live/"}, {"Cache-Control", "no-cache"}, {"X-Empty", ""},
			{"Public", "OPTIONS, DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE"}, {"x-Dynamic-Rate", "1"},
			{"X-Session", "not-this-one"}, {"X-Content-Length", "77"}, {"Session-Id", "wrong"}, {"Via", "RTSP/1.0 proxy:554"},
			{"X-Note", "RTSP/1.0 500 Not Really"}, {"X-Sess", "Session: fake"},
			{"Content-Location", "rtsp://10.0.0.1:8554/located"}, {"Location", "rtsp://10.0.0.2/other"}, {"Content_Length", "7"}, {"L", "9"}, {"Content", "3"}, {"Session_", "no"},
			{"Sess", "no"}, {"RTP-Info", "url=rtsp://10.0.0.1/x;seq=1;rtptime=0"}, {"Range", "npt=0-"}, {"Scale", "1.0"}, {"Connection", "close"}, {"Connection", "Keep-Alive"},
			{"Allow", "DESCRIBE"}, {"Timestamp", "1 0.5"}, {"Expires", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"Authentication-Info", `nextnonce="no", qop=auth`}, {"Proxy-Authenticate", `Digest realm="p", nonce="q"`},
			{"Retry-After", "3"}, {"Unsupported", "x"}, {"Content-Language", "en"}, {"Status", "404"}, {"", "unnamed"}, {"Vary", "*"}}
		n := r.Intn(5)
		if r.Intn(20) == 0 {
			n = 20 + r.Intn(40)
		}
		if r.Intn(20) == 0 {
			add("X-Long", strings.Repeat("long: value, ", 1+r.Intn(100)))
		}
		for ; n > 0; n-- {
			e := extra[r.Intn(len(extra))]
			add(e.k, e.v)
		}
		r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
		// several challenges keep their relative order irrelevant; fine to shuffle
		proto := "RTSP/1.0"
		if r.Intn(4) == 0 {
			proto = "rtsp/1.0"
		}
		reason := []string{p.reason, "", "Some: odd reason", "OK 404", "200"}[r.Intn(5)]
		out := fmt.Sprintf("%s %d %s\r\n", proto, p.status, reason)
		if reason == "" && r.Intn(2) == 0 {
			out = fmt.Sprintf("%s %d\r\n", proto, p.status)
		}
		return []byte(out + strings.Join(hs, "\r\n") + "\r\n\r\n" + p.body)
	}
}
