package vharness

import (
	"fmt"
	"math"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"
)

// ---- generators of representable SDP messages -------------------------------------------------------------------

const tokAlpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func genToken(r *rand.Rand) string {
	n := 1 + r.Intn(8)
	b := make([]byte, n)
	for i := range b {
		if r.Intn(6) == 0 {
			b[i] = "-_.+!#$%&'*^`{|}~"[r.Intn(17)]
		} else {
			b[i] = tokAlpha[r.Intn(len(tokAlpha))]
		}
	}
	return string(b)
}

// genWord is a non-blank string without white space; it may hold any other character.
func genWord(r *rand.Rand) string {
	if r.Intn(10) == 0 {
		return everydayWords[r.Intn(len(everydayWords))]
	}
	if r.Intn(3) > 0 {
		return genToken(r)
	}
	runes := []rune("=:/;,\"@()<>[]äöü世界é😀-+0123456789ab")
	n := 1 + r.Intn(10)
	s := make([]rune, n)
	for i := range s {
		s[i] = runes[r.Intn(len(runes))]
	}
	return string(s)
}

// genText is a non-blank string without line breaks or surrounding white space.
func genText(r *rand.Rand) string {
	if r.Intn(10) == 0 {
		return everydayTexts[r.Intn(len(everydayTexts))]
	}
	n := 1 + r.Intn(5)
	s := genWord(r)
	for i := 1; i < n; i++ {
		s += []string{" ", "  ", "\t", " = ", ": ", " \x01 "}[r.Intn(6)] + genWord(r)
	}
	switch r.Intn(40) {
	case 0:
		s = strings.Repeat(s+" ", 1+r.Intn(300)) + "z"
		if r.Intn(100) == 0 {
			s += strings.Repeat("y", []int{4090, 8190, 16380, 65530}[r.Intn(4)]+r.Intn(10))
		}
	case 1: // invalid UTF-8 inside
		s = "a" + string([]byte{0xff, 0xfe, 0x80}) + s
	case 2: // control characters and bytes of a longer one are not white space
		s = s + []string{"\x01", "\x00", "\x1f", "\x7f", "\x85", "\xa0", "\u200b", "\ufeff", "=", ":"}[r.Intn(10)]
	case 3:
		s = []string{"\x01", "\x00", "\x1f", "\x7f", "\x85", "\xa0", "\u200b", "\ufeff"}[r.Intn(8)] + s
	}
	return s
}

// words and texts that have a meaning somewhere, none of it for the decoder
var everydayWords = []string{"-", "*", "--", "0", "00", "0.0.0.0", "::", "localhost", "127.0.0.1", "root", "user", "anonymous", "none", "null", "nil", "NaN",
	"IN", "IP4", "IP6", "CT", "AS", "AS:128", "CT:0", "RTP/AVP", "audio", "video", "sendrecv", "control", "trackID=1", "streamid=0", "rtpmap:96", "H264/90000",
	"prompt", "clear", "base64", "uri", "clear:x", "prompt:", "a=b", "m=audio", "v=0", "=", ":", "/", "npt=0-", "npt=now-", "0-", "clock", "+1", "-1", "0x10", "1e3", "%20", "\\n", "\"x\"", "<x>", "'x'", "(x)", "webrtc-datachannel", "t38", "a/b", "a:b", "x;y=1", "YWJj==", "&amp;"}

var everydayTexts = []string{"tel:+1 617 555-6011", "+1 617 555 6011", "+44 (0)20 7946 0018", "0049-89-1234", "tel:112", "+1 617 555-6011 (Jane Doe)", "Jane Doe <+1 617 555-6011>",
	"j.doe@example.com", "j.doe@example.com (Jane Doe)", "Jane Doe <j.doe@example.com>", "mailto:j.doe@example.com", "\"Jane Doe\" <j.doe@example.com>", "<j.doe@example.com>",
	"No Name", "Unnamed", "Session streamed with GStreamer", "rtsp-server", "Media Presentation", "LIVE555 Streaming Media v2020.01.01", "RTSP Session", "None", "-", "\" \"", "''",
	"96 packetization-mode=1; profile-level-id=42001f; sprop-parameter-sets=Z0IAH5WoFAFuQA==,aM48gA==;", "96 H264/90000", "0 PCMU/8000/1", "97 MPEG4-GENERIC/44100/2", "trackID=1", "*", "rtsp://cam.example/x/trackID=1",
	"npt=0-", "npt=0.000-30.500", "npt=now-", "clock=20260101T000000Z-", "2.0", "0 16 IN IP4 10.0.0.1", "candidate 1 1 UDP 2130706431 10.0.1.1 8998 typ host", "1920,1080", "25.000000", "UTF-8", "ISO-8859-1", "en-US",
	"http://www.example.com/a?b=c&d=e#f", "a=control:x", "m=video 0 RTP/AVP 96", "SHA-256 4A:AD:B9:B1", "0", "00", "1 2 3", "IN IP4 0.0.0.0", "IN IP6 ::", "100%", "a%20b", "caf\u00e9", "\ufffd", "end."}

func genInt(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return math.MaxInt64 - r.Intn(3)
	case 2:
		return int(r.Int63())
	case 3:
		return []int{1, 9, 10, 11, 99, 100, 101, 65535, 65536, 1 << 31, 1 << 32}[r.Intn(11)]
	}
	return r.Intn(100000)
}

func genIP(r *rand.Rand, v6 bool) net.IP {
	if !v6 {
		b := []byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
		if r.Intn(4) == 0 {
			b[r.Intn(4)] = []byte{0, 9, 10, 99, 100, 255}[r.Intn(6)]
		}
		if r.Intn(2) == 0 {
			return net.IP(b)
		}
		return net.IPv4(b[0], b[1], b[2], b[3])
	}
	ip := make(net.IP, 16)
	if r.Intn(6) == 0 { // with an IPv4 address inside, or short
		return net.ParseIP([]string{"64:ff9b::192.0.2.1", "::ffff:0:192.0.2.1", "fe80::1", "::1", "2001:db8::", "ff02::fb", "::192.0.2.7"}[r.Intn(7)])
	}
	for {
		for i := range ip {
			ip[i] = byte(r.Intn(256))
			if r.Intn(3) == 0 {
				ip[i] = 0
			}
		}
		if ip.To4() == nil && !ip.Equal(net.IPv6zero) {
			return ip
		}
	}
}

func genByte(r *rand.Rand) byte {
	return []byte{1, 2, 9, 10, 99, 100, 127, 128, 254, 255, byte(1 + r.Intn(255))}[r.Intn(11)]
}

func genConn(r *rand.Rand) sdp.ConnectionData {
	v6 := r.Intn(2) == 0
	c := sdp.ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: genIP(r, v6)}
	if v6 {
		c.AddressType = "IP6"
		if r.Intn(2) == 0 {
			c.Addresses = genByte(r)
		}
	} else if r.Intn(3) > 0 {
		c.TTL = genByte(r)
		if r.Intn(2) == 0 {
			c.Addresses = genByte(r)
			if r.Intn(5) == 0 {
				c.TTL = 0
			}
		}
	}
	if r.Intn(8) == 0 {
		c.NetworkType = genToken(r)
	}
	if r.Intn(8) == 0 {
		c.AddressType = genToken(r)
	}
	return c
}

func genSeconds(r *rand.Rand) int64 {
	const day = 86400
	var s int64
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		s = int64(r.Intn(100000)) * day
	case 2:
		s = int64(r.Intn(1000)) * 3600
	case 3:
		s = int64(r.Intn(1000)) * 60
	case 4:
		s = int64(r.Intn(100000))
	case 5:
		s = r.Int63n(100000 * day)
	case 6:
		s = []int64{1, 59, 60, 61, 119, 120, 3599, 3600, 3601, 86399, 86400, 86401, 604800, 100000 * day}[r.Intn(14)]
	default:
		s = int64(r.Intn(100))
	}
	if r.Intn(5) == 0 {
		s = -s
	}
	return s
}

func genDur(r *rand.Rand) time.Duration { return time.Duration(genSeconds(r)) * time.Second }

func genNTP(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return uint64([]int64{1, 2, 2208988799, 2208988800, 2208988801, 1 << 31, 1 << 32, 1<<32 - 1, 1 << 53, 1 << 62}[r.Intn(10)])
	case 2:
		return uint64(r.Int63n(1<<62 + 1))
	case 3:
		return uint64(r.Int63n(1 << 33))
	}
	return 2208988800 + uint64(r.Int63n(4e9))
}

// refTime is the reference reading of an NTP second count.
func refTime(n uint64) time.Time {
	if n == 0 {
		return time.Time{}
	}
	return time.Unix(int64(n)-25567*86400, 0) // 25567 days from 1900-01-01 to 1970-01-01
}

var attrNames = []string{"rtpmap", "fmtp", "control", "range", "candidate", "recvonly", "sendrecv", "sendonly", "inactive", "framerate", "ptime", "type", "tool", "charset", "lang", "cat", "keywds",
	"orient", "quality", "sdplang", "maxptime", "x-dimensions", "framesize", "CONTROL", "Control", "RTPMAP", "RtpMap", "Fmtp", "RANGE", "SendRecv", "mid", "group", "rtcp", "rtcp-mux", "ssrc", "crypto", "-", "*", "1"}

func genAttrs(r *rand.Rand) sdp.Attributes {
	if r.Intn(4) == 0 {
		return nil
	}
	a := sdp.Attributes{}
	for i := r.Intn(4); i >= 0; i-- {
		k := genToken(r)
		if r.Intn(3) == 0 {
			k = attrNames[r.Intn(len(attrNames))]
		}
		for j := r.Intn(3); j >= 0; j-- {
			v := ""
			if r.Intn(4) > 0 {
				v = genText(r)
			}
			a[k] = append(a[k], v)
		}
	}
	return a
}

func genBW(r *rand.Rand) map[sdp.BandwidthType]int {
	if r.Intn(2) == 0 {
		return nil
	}
	b := map[sdp.BandwidthType]int{}
	if r.Intn(2) == 0 {
		b[sdp.BandwidthConferenceTotal] = genInt(r)
	}
	if r.Intn(2) == 0 || len(b) == 0 {
		b[sdp.BandwidthApplicationSpecific] = genInt(r)
	}
	return b
}

func genEnc(r *rand.Rand) sdp.Encryption {
	switch r.Intn(3) {
	case 0:
		return sdp.Encryption{Method: "prompt"}
	case 1:
		return sdp.Encryption{Method: []string{"clear", "base64", "uri"}[r.Intn(3)], Key: genText(r)}
	}
	return sdp.Encryption{}
}

func genOrigin(r *rand.Rand) sdp.Origin {
	o := sdp.Origin{Username: genWord(r), SessionID: genInt(r), SessionVersion: genInt(r), NetworkType: "IN", AddressType: "IP4",
		Address: "host" + genToken(r) + ".example"}
	switch r.Intn(4) {
	case 0:
		o.Address = genIP(r, false).String()
	case 1:
		o.Address, o.AddressType = genIP(r, true).String(), "IP6"
		if r.Intn(5) == 0 {
			o.Address = []string{"64:ff9b::192.0.2.1", "::192.0.2.7", "::ffff:0:10.0.0.1"}[r.Intn(3)]
		}
	case 2:
		o.Username = "-"
	}
	if r.Intn(8) == 0 {
		o.NetworkType = genToken(r)
	}
	if r.Intn(12) == 0 {
		o.Address, o.AddressType = []string{"0.0.0.0", "127.0.0.1", "255.255.255.255", "localhost", "camera.Local", "HOST.example.", "-", "10.0.0.1"}[r.Intn(8)], "IP4"
	} else if r.Intn(12) == 0 {
		o.Address, o.AddressType = []string{"::", "::1", "fe80::1", "ip6-localhost", "FF15::101", "::ffff:10.0.0.1"}[r.Intn(6)], "IP6"
	}
	if r.Intn(20) == 0 {
		o.SessionID = -1 - r.Intn(1000) // close to 2^64
	}
	if r.Intn(16) == 0 {
		o.SessionID = int(r.Uint64())
	}
	if r.Intn(16) == 0 {
		o.SessionVersion = int(r.Uint64())
	}
	return o
}

var everydayProtocols = []string{"RTP/AVP/UDP", "RTP/AVP/TCP", "RTP/SAVP", "RTP/AVPF", "RTP/SAVPF", "rtp/avp", "Rtp/Avp", "UDP", "TCP", "TCP/RTP/AVP", "udptl", "TCP/MSRP", "DTLS/SCTP", "UDP/DTLS/SCTP", "vat", "-", "*", "/", "RTP/", "/AVP", "MP2T/H2221/UDP", "RAW/RAW/UDP", "TCP/TLS/BFCP"}

func genMediaDesc(r *rand.Rand) sdp.MediaDescription {
	d := sdp.MediaDescription{Type: []string{"audio", "video", "application", "text", "message", genToken(r), []string{"image", "Audio", "VIDEO", "data", "control", "session", "-", "*"}[r.Intn(8)]}[r.Intn(7)],
		Port: r.Intn(65536), Protocol: []string{"RTP/AVP", "UDP/TLS/RTP/SAVPF", "udp", genToken(r), everydayProtocols[r.Intn(len(everydayProtocols))]}[r.Intn(5)], Format: strconv.Itoa(r.Intn(128))}
	if r.Intn(8) == 0 {
		d.Format = genWord(r)
	}
	if r.Intn(3) == 0 {
		d.PortsNumber = 1 + r.Intn(20)
	}
	for i := r.Intn(4); i > 0; i-- {
		if r.Intn(4) == 0 {
			d.Format += " " + genWord(r)
		} else {
			d.Format += " " + strconv.Itoa(r.Intn(128))
		}
	}
	return d
}

func genMedia(r *rand.Rand) sdp.Media {
	m := sdp.Media{Description: genMediaDesc(r), Attributes: genAttrs(r), Encryption: genEnc(r), Bandwidths: genBW(r)}
	if r.Intn(3) == 0 {
		m.Title = genText(r)
	}
	if r.Intn(2) == 0 {
		m.Connection = genConn(r)
	}
	return m
}

func genTiming(r *rand.Rand) sdp.Timing {
	t := sdp.Timing{Start: refTime(genNTP(r)), End: refTime(genNTP(r))}
	if r.Intn(2) == 0 {
		t.Repeat, t.Active = genDur(r), genDur(r)
		for i := r.Intn(4); i >= 0; i-- {
			t.Offsets = append(t.Offsets, genDur(r))
		}
	}
	return t
}

func genMessage(r *rand.Rand) *sdp.Message {
	m := &sdp.Message{Version: 0, Origin: genOrigin(r), Name: genText(r), Attributes: genAttrs(r), Encryption: genEnc(r), Bandwidths: genBW(r)}
	if r.Intn(6) == 0 {
		m.Version = genInt(r)
	}
	if r.Intn(10) == 0 {
		m.Name = ""
	}
	if r.Intn(2) == 0 {
		m.Info = genText(r)
	}
	if r.Intn(2) == 0 {
		m.URI = "http://" + genToken(r) + "/" + genWord(r)
		if r.Intn(8) == 0 {
			m.URI = []string{"http://example.com", "HTTP://Example.COM/", "https://www.example.com:8080/a/../b?c=d&e#f", "rtsp://cam/x", "mailto:x@example.com", "/relative", "x", "*", "http://[::1]:80/", "http://user:pw@h/%7Ex"}[r.Intn(10)]
		}
	}
	if r.Intn(2) == 0 {
		m.Email = genText(r)
	}
	if r.Intn(2) == 0 {
		m.Phone = genText(r)
	}
	if r.Intn(2) == 0 {
		m.Connection = genConn(r)
	}
	n := []int{0, 1, 1, 1, 2, 3}[r.Intn(6)]
	for i := 0; i < n; i++ {
		m.Timing = append(m.Timing, genTiming(r))
	}
	if n > 0 && r.Intn(3) == 0 {
		for i := r.Intn(3); i >= 0; i-- {
			m.TZAdjustments = append(m.TZAdjustments, sdp.TimeZone{Start: refTime(genNTP(r)), Offset: genDur(r)})
		}
	}
	for i := []int{0, 1, 1, 2, 3}[r.Intn(5)]; i > 0; i-- {
		m.Medias = append(m.Medias, genMedia(r))
	}
	if r.Intn(4) == 0 {
		coincide(r, m)
	}
	return m
}

// coincide makes fields that have nothing to do with each other equal.
func coincide(r *rand.Rand, m *sdp.Message) {
	texts := []*string{&m.Name, &m.Info, &m.Email, &m.Phone, &m.Origin.Username}
	for i := range m.Medias {
		texts = append(texts, &m.Medias[i].Title)
	}
	v := genWord(r)
	for _, t := range texts {
		if r.Intn(2) == 0 {
			*t = v
		}
	}
	for i := range m.Medias {
		x := &m.Medias[i]
		if r.Intn(2) == 0 {
			x.Connection = m.Connection
		}
		if r.Intn(2) == 0 {
			x.Encryption = m.Encryption
		}
		if r.Intn(2) == 0 {
			x.Bandwidths = cloneBW(m.Bandwidths)
		}
		if r.Intn(2) == 0 {
			x.Attributes = cloneAttrs(m.Attributes)
		}
		if i > 0 && r.Intn(3) == 0 {
			y := m.Medias[r.Intn(i)]
			y.Attributes, y.Bandwidths = cloneAttrs(y.Attributes), cloneBW(y.Bandwidths)
			*x = y
		}
	}
	for i := range m.Timing {
		t := &m.Timing[i]
		switch r.Intn(4) {
		case 0:
			t.End = t.Start
		case 1:
			t.Active = t.Repeat
		case 2:
			if i > 0 {
				*t = m.Timing[i-1]
				t.Offsets = append([]time.Duration(nil), t.Offsets...)
			}
		}
	}
	if n := len(m.TZAdjustments); n > 0 && r.Intn(2) == 0 {
		m.TZAdjustments = append(m.TZAdjustments, m.TZAdjustments[n-1])
	}
}

func cloneBW(b sdp.Bandwidths) sdp.Bandwidths {
	if b == nil {
		return nil
	}
	o := sdp.Bandwidths{}
	for k, v := range b {
		o[k] = v
	}
	return o
}

func cloneAttrs(a sdp.Attributes) sdp.Attributes {
	if a == nil {
		return nil
	}
	o := sdp.Attributes{}
	for k, v := range a {
		o[k] = append([]string(nil), v...)
	}
	return o
}

// ---- reference encoder ------------------------------------------------------------------------------------------

func refNTP(t time.Time) string {
	if t.IsZero() {
		return "0"
	}
	// seconds since 1900 by unsigned arithmetic, independent of the code under test
	return strconv.FormatUint(uint64(t.Unix())+uint64(25567)*86400, 10)
}

func refSec(d time.Duration) string { return strconv.FormatInt(int64(d/time.Second), 10) }

func refConn(c sdp.ConnectionData) string {
	s := fmt.Sprintf("c=%s %s %s", c.NetworkType, c.AddressType, c.IP.String())
	if c.TTL > 0 || c.Addresses > 0 && c.IP.To4() != nil {
		s += fmt.Sprintf("/%d", c.TTL)
	}
	if c.Addresses > 0 {
		s += fmt.Sprintf("/%d", c.Addresses)
	}
	return s
}

func refAttrs(a sdp.Attributes) []string {
	var out []string
	for k, vs := range a {
		for _, v := range vs {
			if v == "" {
				out = append(out, "a="+k)
			} else {
				out = append(out, "a="+k+":"+v)
			}
		}
	}
	return out
}

func refBW(b map[sdp.BandwidthType]int) []string {
	var out []string
	for k, v := range b {
		out = append(out, fmt.Sprintf("b=%s:%d", string(k), v))
	}
	return out
}

func refEnc(e sdp.Encryption) []string {
	if e == (sdp.Encryption{}) {
		return nil
	}
	if e.Key == "" {
		return []string{"k=" + e.Method}
	}
	return []string{"k=" + e.Method + ":" + e.Key}
}

func refMediaLine(d sdp.MediaDescription) string {
	p := strconv.Itoa(d.Port)
	if d.PortsNumber != 0 {
		p += "/" + strconv.Itoa(d.PortsNumber)
	}
	return fmt.Sprintf("m=%s %s %s %s", d.Type, p, d.Protocol, d.Format)
}

func refOrigin(o sdp.Origin) string {
	return fmt.Sprintf("o=%s %d %d %s %s %s", o.Username, uint64(o.SessionID), uint64(o.SessionVersion), o.NetworkType, o.AddressType, o.Address)
}

func isBlankConn(c sdp.ConnectionData) bool {
	return c.NetworkType == "" && c.AddressType == "" && c.IP == nil && c.TTL == 0 && c.Addresses == 0
}

// refSessionLines and refMediaLines give the lines in RFC 4566 order.
func refSessionLines(m *sdp.Message) []string {
	l := []string{fmt.Sprintf("v=%d", m.Version), refOrigin(m.Origin), "s=" + m.Name}
	opt := func(t, v string) {
		if v != "" {
			l = append(l, t+"="+v)
		}
	}
	opt("i", m.Info)
	opt("u", m.URI)
	opt("e", m.Email)
	opt("p", m.Phone)
	if !isBlankConn(m.Connection) {
		l = append(l, refConn(m.Connection))
	}
	l = append(l, refBW(m.Bandwidths)...)
	for _, t := range m.Timing {
		l = append(l, "t="+refNTP(t.Start)+" "+refNTP(t.End))
		if len(t.Offsets) > 0 {
			s := "r=" + refSec(t.Repeat) + " " + refSec(t.Active)
			for _, o := range t.Offsets {
				s += " " + refSec(o)
			}
			l = append(l, s)
		}
	}
	if len(m.TZAdjustments) > 0 {
		s := "z="
		for i, z := range m.TZAdjustments {
			if i > 0 {
				s += " "
			}
			s += refNTP(z.Start) + " " + refSec(z.Offset)
		}
		l = append(l, s)
	}
	l = append(l, refEnc(m.Encryption)...)
	return append(l, refAttrs(m.Attributes)...)
}

func refMediaLines(m sdp.Media) []string {
	l := []string{refMediaLine(m.Description)}
	if m.Title != "" {
		l = append(l, "i="+m.Title)
	}
	if !isBlankConn(m.Connection) {
		l = append(l, refConn(m.Connection))
	}
	l = append(l, refBW(m.Bandwidths)...)
	l = append(l, refEnc(m.Encryption)...)
	return append(l, refAttrs(m.Attributes)...)
}

func refLines(m *sdp.Message) []string {
	l := refSessionLines(m)
	for _, mm := range m.Medias {
		l = append(l, refMediaLines(mm)...)
	}
	return l
}

// parseInterval is the reference reading of an interval token.
func parseInterval(s string) (int64, bool) {
	if s == "" {
		return 0, false
	}
	u := int64(1)
	switch s[len(s)-1] {
	case 'd':
		u, s = 86400, s[:len(s)-1]
	case 'h':
		u, s = 3600, s[:len(s)-1]
	case 'm':
		u, s = 60, s[:len(s)-1]
	case 's':
		s = s[:len(s)-1]
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return n * u, err == nil
}

// normLine rewrites the freedoms RFC 4566 leaves (compact intervals, letter case of addresses).
func normLine(l string) string {
	if len(l) < 2 {
		return l
	}
	f := strings.Split(l[2:], " ")
	iv := func(i int) {
		if n, ok := parseInterval(f[i]); ok {
			f[i] = strconv.FormatInt(n, 10)
		}
	}
	switch l[:2] {
	case "r=":
		for i := range f {
			iv(i)
		}
	case "z=":
		for i := 1; i < len(f); i += 2 {
			iv(i)
		}
	case "c=":
		if len(f) == 3 {
			ip, rest, _ := strings.Cut(f[2], "/")
			if p := net.ParseIP(ip); p != nil {
				ip = p.String()
			}
			f[2] = ip
			if rest != "" {
				f[2] += "/" + rest
			}
		}
	}
	return l[:2] + strings.Join(f, " ")
}

// canonLines makes two equivalent line lists equal: runs of b lines are sorted, runs of a lines are sorted by name
// (stable: the values of one name keep their order).
func canonLines(ls []string) []string {
	out := make([]string, len(ls))
	for i, l := range ls {
		out[i] = normLine(l)
	}
	for i := 0; i < len(out); {
		j := i
		if len(out[i]) >= 2 && (out[i][:2] == "a=" || out[i][:2] == "b=") {
			for j < len(out) && len(out[j]) >= 2 && out[j][:2] == out[i][:2] {
				j++
			}
			name := func(s string) string { n, _, _ := strings.Cut(s, ":"); return n }
			run := out[i:j]
			sort.SliceStable(run, func(a, b int) bool { return name(run[a]) < name(run[b]) })
			i = j
		} else {
			i++
		}
	}
	return out
}

// ---- equality ---------------------------------------------------------------------------------------------------

func eqConn(a, b sdp.ConnectionData) bool {
	return a.NetworkType == b.NetworkType && a.AddressType == b.AddressType && a.IP.Equal(b.IP) && a.TTL == b.TTL && a.Addresses == b.Addresses
}

func eqAttrs(a, b sdp.Attributes) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if v[i] != w[i] {
				return false
			}
		}
	}
	return true
}

func eqBW(a, b map[sdp.BandwidthType]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func diffMedia(a, b sdp.Media) string {
	switch {
	case a.Title != b.Title:
		return fmt.Sprintf("title %q != %q", a.Title, b.Title)
	case a.Description != b.Description:
		return fmt.Sprintf("description %+v != %+v", a.Description, b.Description)
	case !eqConn(a.Connection, b.Connection):
		return fmt.Sprintf("media connection %+v != %+v", a.Connection, b.Connection)
	case !eqAttrs(a.Attributes, b.Attributes):
		return fmt.Sprintf("media attributes %q != %q", a.Attributes, b.Attributes)
	case a.Encryption != b.Encryption:
		return fmt.Sprintf("media encryption %+v != %+v", a.Encryption, b.Encryption)
	case !eqBW(a.Bandwidths, b.Bandwidths):
		return fmt.Sprintf("media bandwidths %v != %v", a.Bandwidths, b.Bandwidths)
	}
	return ""
}

// diffSession compares everything but the medias.
func diffSession(a, b *sdp.Message) string {
	s := func(n, x, y string) string {
		if x != y {
			return fmt.Sprintf("%s %q != %q", n, x, y)
		}
		return ""
	}
	for _, d := range []string{s("name", a.Name, b.Name), s("info", a.Info, b.Info), s("email", a.Email, b.Email),
		s("phone", a.Phone, b.Phone), s("uri", a.URI, b.URI)} {
		if d != "" {
			return d
		}
	}
	switch {
	case a.Version != b.Version:
		return fmt.Sprintf("version %d != %d", a.Version, b.Version)
	case a.Origin != b.Origin:
		return fmt.Sprintf("origin %+v != %+v", a.Origin, b.Origin)
	case !eqConn(a.Connection, b.Connection):
		return fmt.Sprintf("connection %+v != %+v", a.Connection, b.Connection)
	case !eqAttrs(a.Attributes, b.Attributes):
		return fmt.Sprintf("attributes %q != %q", a.Attributes, b.Attributes)
	case a.Encryption != b.Encryption:
		return fmt.Sprintf("encryption %+v != %+v", a.Encryption, b.Encryption)
	case !eqBW(a.Bandwidths, b.Bandwidths):
		return fmt.Sprintf("bandwidths %v != %v", a.Bandwidths, b.Bandwidths)
	case a.BandwidthType != b.BandwidthType:
		return fmt.Sprintf("bandwidth type %q != %q", a.BandwidthType, b.BandwidthType)
	case len(a.Timing) != len(b.Timing):
		return fmt.Sprintf("%d timings != %d", len(a.Timing), len(b.Timing))
	case len(a.TZAdjustments) != len(b.TZAdjustments):
		return fmt.Sprintf("%d time zones != %d", len(a.TZAdjustments), len(b.TZAdjustments))
	}
	for i, t := range a.Timing {
		u := b.Timing[i]
		if !t.Start.Equal(u.Start) || !t.End.Equal(u.End) || t.Repeat != u.Repeat || t.Active != u.Active || len(t.Offsets) != len(u.Offsets) {
			return fmt.Sprintf("timing %d %+v != %+v", i, t, u)
		}
		for j := range t.Offsets {
			if t.Offsets[j] != u.Offsets[j] {
				return fmt.Sprintf("timing %d offset %d: %v != %v", i, j, t.Offsets[j], u.Offsets[j])
			}
		}
	}
	for i, z := range a.TZAdjustments {
		if y := b.TZAdjustments[i]; !z.Start.Equal(y.Start) || z.Offset != y.Offset {
			return fmt.Sprintf("time zone %d %+v != %+v", i, z, y)
		}
	}
	return ""
}

func diffMessage(a, b *sdp.Message) string {
	if d := diffSession(a, b); d != "" {
		return d
	}
	if len(a.Medias) != len(b.Medias) {
		return fmt.Sprintf("%d medias != %d", len(a.Medias), len(b.Medias))
	}
	for i := range a.Medias {
		if d := diffMedia(a.Medias[i], b.Medias[i]); d != "" {
			return fmt.Sprintf("media %d: %s", i, d)
		}
	}
	return ""
}

// decodeText decodes a text the way a user does.
func decodeText(b []byte) (*sdp.Message, error) {
	s, err := sdp.DecodeSession(b, nil)
	if err != nil {
		return nil, err
	}
	m := &sdp.Message{}
	d := sdp.NewDecoder(s)
	if err := d.Decode(m); err != nil {
		return nil, err
	}
	return m, nil
}

// joinLines lays out lines with random but insignificant variations.
func joinLines(r *rand.Rand, ls []string) []byte {
	var b strings.Builder
	sep := []string{"\n", "\r\n"}[r.Intn(2)]
	mode := r.Intn(3)
	for i, l := range ls {
		if mode == 2 {
			b.WriteString(strings.Repeat([]string{"\n", "\r\n", " \n", "\t\r\n"}[r.Intn(4)], r.Intn(2)))
			b.WriteString([]string{"", " ", "\t", "  "}[r.Intn(4)])
			l += []string{"", " ", "\t", "  "}[r.Intn(4)]
			sep = []string{"\n", "\r\n"}[r.Intn(2)]
		}
		b.WriteString(l)
		if i < len(ls)-1 || r.Intn(2) == 0 {
			b.WriteString(sep)
		}
	}
	return []byte(b.String())
}
