package vharness

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"
)

// guard runs f; a panic of the code under test is a violation.
func (c *Ctx) guard(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			c.Violate("panic", "%s panicked: %v\n%s", what, e, clip(st, 3000))
			ok = false
		}
	}()
	f()
	return true
}

func lineType(l string) byte { return l[0] }

func init() {
	register(&prop{id: "S01", quick: 96000, thorough: 4000000, run: runS01,
		rule: "random representable messages over all fields, plus one builder method per case; non-trivial: the message has at least one optional field",
		min:  map[string]int64{"medias": 1000, "timings": 1000, "attributes": 1000, "builder_calls": 1000, "reencoded": 8000, "two_connections": 2000, "several_contacts": 5000}})
	register(&prop{id: "S02", quick: 240000, thorough: 10000000, run: runS02,
		rule: "random line lists in random layouts, read into fresh and reused sessions; non-trivial: at least two lines",
		min:  map[string]int64{"lines": 10000, "reused": 1000}})
	register(&prop{id: "S03", quick: 200000, thorough: 8000000, run: runS03,
		rule: "mutated and random texts and hand-built line lists, decoded twice, inputs overwritten; non-trivial: at least one line was decoded",
		min:  map[string]int64{"decoded_ok": 1000, "decoded_error": 1000, "overwritten": 1000}})
	register(&prop{id: "S04", quick: 400000, thorough: 20000000, run: runS04,
		rule: "boundary and random NTP counts and durations through conversion, encoder and decoder; every case non-trivial",
		min:  map[string]int64{"ntp": 10000, "intervals": 10000, "repeat lines": 10000}})
	register(&prop{id: "S06", quick: 64000, thorough: 2500000, run: runS06,
		rule: "random session part and 1-4 media sections composed, split and with attribute names permuted; non-trivial: at least one media",
		min:  map[string]int64{"appended": 1000, "permuted": 500}})
	register(&prop{id: "S07", quick: 120000, thorough: 5000000, run: runS07,
		rule: "one malformation put at a random place of a random valid description that decodes; every case non-trivial",
		min:  map[string]int64{"rejected": 5000, "valid_accepted": 5000}})
}

func runS01(c *Ctx) {
	r := c.R
	m := genMessage(r)
	want := refLines(m)
	c.Desc("message %s", clip(strings.Join(want, " | "), 600))
	c.Sig(strings.Join(canonLines(want), "\n"))
	c.Count("medias", len(m.Medias))
	c.Count("timings", len(m.Timing))
	c.Count("attributes", len(m.Attributes))
	c.guard("encoding", func() {
		var s sdp.Session
		switch r.Intn(4) {
		case 0: // reuse memory of an earlier, different message
			s = genMessage(r).Append(nil)
			s = s[:0]
		case 1:
			s = make(sdp.Session, 0, r.Intn(40))
		}
		pre := 0
		if r.Intn(8) == 0 {
			s = s.AddRaw('x', "before")
			pre = 1
		}
		s = m.Append(s)
		text := string(s.AppendTo(nil))
		text2 := string(s.AppendTo([]byte("prefix")))
		if text2 != "prefix"+text {
			c.Violate("append", "AppendTo with a prefix differs: %q vs %q", clip(text2, 300), clip(text, 300))
		}
		got := strings.Split(text, "\n")
		if pre == 1 {
			if got[0] != "x=before" {
				c.Violate("append", "Append changed an existing line: %q", got[0])
				return
			}
			got = got[1:]
		}
		g, w := canonLines(got), canonLines(want)
		for i := 0; i < len(g) || i < len(w); i++ {
			if i >= len(g) || i >= len(w) || g[i] != w[i] {
				x, y := "<none>", "<none>"
				if i < len(g) {
					x = g[i]
				}
				if i < len(w) {
					y = w[i]
				}
				c.Violate("encoding", "encoded text differs from the reference at line %d: got %q want %q", i, x, y)
				return
			}
		}
		if pre == 1 {
			return
		}
		check := func(how string, got *sdp.Message, err error) {
			if err != nil {
				c.Violate("roundtrip", "%s: decoding the encoded message failed: %v\n%s", how, err, clip(text, 1500))
			} else if d := diffMessage(got, m); d != "" {
				c.Violate("roundtrip", "%s: decoded message differs (decoded != encoded): %s\n%s", how, d, clip(text, 1500))
			}
		}
		dm, err := decodeText([]byte(text))
		check("text", dm, err)
		// straight from the session lines
		lm := &sdp.Message{}
		d := sdp.NewDecoder(s)
		check("lines", lm, d.Decode(lm))
		// the reference text in any layout decodes to the same message
		dm2, err := decodeText(joinLines(r, want))
		check("reference text", dm2, err)
		if dm != nil && err == nil {
			accessors(c, dm)
		}
	})
	builders(c)
	if r.Intn(4) == 0 {
		reencode(c)
	}
	if r.Intn(4) == 0 {
		contacts(c, m, want)
	}
}

// contacts: RFC 4566 allows several email and phone lines; one of each is kept and nothing else changes.
func contacts(c *Ctx, m *sdp.Message, want []string) {
	r := c.R
	var out []string
	emails, phones := map[string]bool{}, map[string]bool{}
	for _, l := range want {
		k := 0
		if strings.HasPrefix(l, "e=") || strings.HasPrefix(l, "p=") {
			k = 1 + r.Intn(3)
		}
		out = append(out, l)
		for ; k > 0; k-- {
			out = append(out, l[:2]+genText(r))
		}
	}
	for _, l := range out {
		switch l[0] {
		case 'e':
			emails[l[2:]] = true
		case 'p':
			phones[l[2:]] = true
		}
	}
	if len(out) == len(want) {
		return
	}
	c.Count("several_contacts", 1)
	c.guard("several contacts", func() {
		got, err := decodeText(joinLines(r, out))
		if err != nil {
			c.Violate("contacts", "several email or phone lines are refused: %v\n%s", err, clip(strings.Join(out, "\n"), 1500))
			return
		}
		if len(emails) > 0 && !emails[got.Email] || len(phones) > 0 && !phones[got.Phone] {
			c.Violate("contacts", "email %q or phone %q is none of %s", got.Email, got.Phone, clip(strings.Join(out, "\n"), 1500))
		}
		g := *got
		g.Email, g.Phone = m.Email, m.Phone
		if d := diffMessage(&g, m); d != "" {
			c.Violate("contacts", "several email or phone lines change the rest: %s", d)
		}
	})
}

// reencode: whatever was decoded, encoding it and decoding that gives the same message.
func reencode(c *Ctx) {
	r := c.R
	for k := 0; k < 3; k++ {
		b := genSDPBytes(r)
		if r.Intn(3) == 0 { // several connection lines in a section
			b = joinLines(r, doubleConn(c, refLines(genMessage(r))))
		}
		m, err := decodeText(b)
		if err != nil || m.Origin.Username == "" { // an origin is mandatory
			continue
		}
		c.Count("reencoded", 1)
		c.guard("reencode", func() {
			text := m.Append(nil).AppendTo(nil)
			m2, err := decodeText(text)
			if err != nil {
				c.Violate("reencode", "%q decodes, but encoding the result gives %q: %v", clip(string(b), 1500), clip(string(text), 1500), err)
			} else if d := diffMessage(m2, m); d != "" {
				c.Violate("reencode", "decoding, encoding and decoding %q changes %s", clip(string(b), 1500), d)
			}
		})
	}
}

// doubleConn puts a second connection line behind each of some, and checks that they are not mixed.
func doubleConn(c *Ctx, ls []string) []string {
	r := c.R
	var out []string
	for _, l := range ls {
		out = append(out, l)
		if strings.HasPrefix(l, "c=") && r.Intn(2) == 0 {
			second := refConn(genConn(r))
			one := func(ls ...string) (sdp.ConnectionData, error) {
				m, err := decodeText([]byte("v=0\no=- 1 1 IN IP4 h\ns=x\n" + strings.Join(ls, "\n")))
				if err != nil {
					return sdp.ConnectionData{}, err
				}
				if len(m.Medias) > 0 {
					return m.Medias[0].Connection, nil
				}
				return m.Connection, nil
			}
			pre := []string{"t=0 0", "t=0 0\nm=video 0 RTP/AVP 96"}[r.Intn(2)]
			if strings.Contains(pre, "m=") {
				a, e1 := one(pre, l)
				b, e2 := one(pre, second)
				x, e3 := one(pre, l, second)
				c.Count("two_connections", 1)
				if e1 == nil && e2 == nil && e3 == nil && !eqConn(x, a) && !eqConn(x, b) {
					c.Violate("mixture", "the connection data of a media with %q and %q are %+v", l, second, x)
				}
			} else {
				a, e1 := one(l, pre)
				b, e2 := one(second, pre)
				x, e3 := one(l, second, pre)
				c.Count("two_connections", 1)
				if e1 == nil && e2 == nil && e3 == nil && !eqConn(x, a) && !eqConn(x, b) {
					c.Violate("mixture", "the connection data of a session with %q and %q are %+v", l, second, x)
				}
			}
			out = append(out, second)
		}
	}
	return out
}

func accessors(c *Ctx, m *sdp.Message) {
	if len(m.Timing) > 0 && (!m.Start().Equal(m.Timing[0].Start) || !m.End().Equal(m.Timing[0].End)) ||
		len(m.Timing) == 0 && (!m.Start().IsZero() || !m.End().IsZero()) {
		c.Violate("accessor", "Start/End %v %v for %v", m.Start(), m.End(), m.Timing)
	}
	for k, v := range m.Attributes {
		if m.Attribute(k) != v[0] || !m.Flag(k) || m.Attributes.Value(k) != v[0] || len(m.Attributes.Values(k)) != len(v) {
			c.Violate("accessor", "attribute %q: %q, flag %v, values %q", k, m.Attribute(k), m.Flag(k), v)
		}
	}
	if m.Flag("no such attribute") || m.Attribute("no such attribute") != "" {
		c.Violate("accessor", "absent attribute reported")
	}
	for i := range m.Medias {
		mm := &m.Medias[i]
		for k, v := range mm.Attributes {
			if mm.Attribute(k) != v[0] || !mm.Flag(k) {
				c.Violate("accessor", "media attribute %q", k)
			}
		}
		if mm.Flag("no such attribute") || mm.Attribute("no such attribute") != "" {
			c.Violate("accessor", "absent media attribute reported")
		}
	}
}

// builders calls the builder methods of a session and of messages and compares with the prescribed text.
func builders(c *Ctx) {
	r := c.R
	c.guard("builder", func() {
		var s sdp.Session
		if r.Intn(2) == 0 {
			s = genMessage(r).Append(nil)[:0]
		}
		var want []string
		n := 1 + r.Intn(6)
		for i := 0; i < n; i++ {
			c.Count("builder_calls", 1)
			switch r.Intn(20) {
			case 0:
				v := genInt(r)
				s = s.AddVersion(v)
				want = append(want, fmt.Sprintf("v=%d", v))
			case 1:
				v := genText(r)
				s = s.AddPhone(v)
				want = append(want, "p="+v)
			case 2:
				v := genText(r)
				s = s.AddEmail(v)
				want = append(want, "e="+v)
			case 3:
				v := genConn(r)
				x := v
				if r.Intn(2) == 0 { // sensible defaults
					v.NetworkType, x.NetworkType = "", "IN"
				}
				if r.Intn(2) == 0 {
					v.AddressType, x.AddressType = "", "IP4"
					if v.IP.To4() == nil {
						x.AddressType = "IP6"
					}
				}
				s = s.AddConnectionData(v)
				want = append(want, refConn(x))
				if normLine("c=IN IP4 "+v.ConnectionAddress()) != normLine("c=IN IP4 "+strings.Fields(refConn(x))[2]) {
					c.Violate("builder", "ConnectionAddress %q for %+v", v.ConnectionAddress(), v)
				}
			case 4:
				v := genIP(r, r.Intn(2) == 0)
				s = s.AddConnectionDataIP(v)
				t := "IP4"
				if v.To4() == nil {
					t = "IP6"
				}
				want = append(want, "c=IN "+t+" "+v.String())
			case 5:
				v := genText(r)
				s = s.AddSessionName(v)
				want = append(want, "s="+v)
			case 6:
				v := genText(r)
				s = s.AddSessionInfo(v)
				want = append(want, "i="+v)
			case 7:
				v := genText(r)
				s = s.AddURI(v)
				want = append(want, "u="+v)
			case 8:
				o := genOrigin(r)
				x := o
				if r.Intn(2) == 0 {
					o.NetworkType, x.NetworkType = "", "IN"
				}
				if net.ParseIP(o.Address) != nil && r.Intn(2) == 0 {
					o.AddressType, x.AddressType = "", "IP4"
					if strings.Contains(o.Address, ":") {
						x.AddressType = "IP6"
					}
				}
				s = s.AddOrigin(o)
				want = append(want, refOrigin(x))
			case 9:
				a, b := genNTP(r), genNTP(r)
				s = s.AddTimingNTP(a, b)
				want = append(want, fmt.Sprintf("t=%d %d", a, b))
			case 10:
				a, b := refTime(genNTP(r)), refTime(genNTP(r))
				s = s.AddTiming(a, b.UTC())
				want = append(want, "t="+refNTP(a)+" "+refNTP(b))
			case 11:
				k := genToken(r)
				var vs []string
				for j := r.Intn(4); j > 0; j-- {
					vs = append(vs, genWord(r))
				}
				s = s.AddAttribute(k, vs...)
				if len(vs) == 0 {
					want = append(want, "a="+k)
				} else {
					want = append(want, "a="+k+":"+strings.Join(vs, " "))
				}
			case 12:
				k := genToken(r)
				s = s.AddFlag(k)
				want = append(want, "a="+k)
			case 13:
				v := genInt(r)
				t := []sdp.BandwidthType{sdp.BandwidthConferenceTotal, sdp.BandwidthApplicationSpecific, "X-" + sdp.BandwidthType(genToken(r))}[r.Intn(3)]
				s = s.AddBandwidth(t, v)
				want = append(want, fmt.Sprintf("b=%s:%d", string(t), v))
			case 14, 15:
				a, b := genDur(r), genDur(r)
				var o []time.Duration
				for j := r.Intn(3); j >= 0; j-- {
					o = append(o, genDur(r))
				}
				w := "r=" + refSec(a) + " " + refSec(b)
				for _, x := range o {
					w += " " + refSec(x)
				}
				if r.Intn(2) == 0 {
					s = s.AddRepeatTimes(a, b, o...)
					if l := s[len(s)-1].Value; bytes.ContainsAny(l, "dhms") {
						c.Violate("builder", "AddRepeatTimes wrote compact notation %q", l)
					}
				} else {
					s = s.AddRepeatTimesCompact(a, b, o...)
				}
				want = append(want, w)
			case 16:
				d := genMediaDesc(r)
				s = s.AddMediaDescription(d)
				want = append(want, refMediaLine(d))
			case 17:
				e := genEnc(r)
				if e.Method == "" {
					e.Method = "prompt"
				}
				switch {
				case r.Intn(2) == 0:
					s = s.AddEncryption(e)
				case e.Key == "":
					s = s.AddEncryptionMethod(e.Method)
				default:
					s = s.AddEncryptionKey(e.Method, e.Key)
				}
				want = append(want, refEnc(e)[0])
			case 18:
				var zs []sdp.TimeZone
				w := ""
				for j := r.Intn(3); j >= 0; j-- {
					z := sdp.TimeZone{Start: refTime(genNTP(r)), Offset: genDur(r)}
					zs = append(zs, z)
					w += " " + refNTP(z.Start) + " " + refSec(z.Offset)
				}
				s = s.AddTimeZones(zs...)
				want = append(want, "z="+w[1:])
			case 19:
				v := genText(r)
				if r.Intn(2) == 0 {
					s = s.AddRaw('x', v)
				} else {
					s = s.AddLine(sdp.Type('x'), v)
				}
				want = append(want, "x="+v)
			}
		}
		if len(s) != len(want) {
			c.Violate("builder", "%d lines for %d calls", len(s), len(want))
			return
		}
		for i := range s {
			if g := string(s[i].AppendTo(nil)); normLine(g) != normLine(want[i]) {
				c.Violate("builder", "builder line %q, prescribed %q", g, want[i])
			}
		}
		// message helpers
		m := &sdp.Message{}
		var med sdp.Media
		var wa, wm []string
		for i := r.Intn(4); i >= 0; i-- {
			k, v, v2 := genToken(r), genWord(r), genWord(r)
			switch r.Intn(4) {
			case 0:
				m.AddAttribute(k, v)
				wa = append(wa, "a="+k+":"+v)
			case 1:
				m.AddFlag(k)
				wa = append(wa, "a="+k)
			case 2:
				med.AddAttribute(k, v, v2)
				wm = append(wm, "a="+k+":"+v+" "+v2)
			case 3:
				med.AddFlag(k)
				wm = append(wm, "a="+k)
			}
		}
		ca := func(where string, a sdp.Attributes, w []string) {
			if x, y := canonLines(refAttrs(a)), canonLines(w); strings.Join(x, "\n") != strings.Join(y, "\n") {
				c.Violate("builder", "%s attributes %q, want %q", where, x, y)
			}
		}
		ca("message", m.Attributes, wa)
		ca("media", med.Attributes, wm)
	})
}

func runS02(c *Ctx) {
	r := c.R
	types := []rune("vosiuepcbtrzkamxyZ#é世vosiuepcbtrzkamVMA0_*$/:.\x00\x01\x7f\ufeff\u200b\ufffe😀\U0010ffff")
	genL := func(n int) (ls []string, s sdp.Session) {
		for i := 0; i < n; i++ {
			t := types[r.Intn(len(types))]
			v := genText(r)
			if r.Intn(2000) == 0 {
				v += strings.Repeat("x", []int{4090, 8190, 65530, 65536, 131070, 300000}[r.Intn(6)]+r.Intn(10))
				c.Count("long", 1)
			}
			ls = append(ls, string(t)+"="+v)
			s = append(s, sdp.Line{Type: sdp.Type(t), Value: []byte(v)})
		}
		return
	}
	ls, want := genL(r.Intn(12))
	c.Desc("lines %s", clip(strings.Join(ls, " | "), 500))
	if len(ls) > 1 {
		c.Sig(strings.Join(ls, "\n"))
	}
	c.Count("lines", len(ls))
	eq := func(how string, got, want sdp.Session) {
		if len(got) != len(want) {
			c.Violate("lines", "%s: %d lines, want %d", how, len(got), len(want))
			return
		}
		for i := range got {
			if got[i].Type != want[i].Type || !bytes.Equal(got[i].Value, want[i].Value) {
				c.Violate("lines", "%s: line %d is %q=%q, want %q=%q", how, i, rune(got[i].Type), got[i].Value, rune(want[i].Type), want[i].Value)
				return
			}
		}
		if !got.Equal(want) || !want.Equal(got) {
			c.Violate("equal", "%s: Equal is false for equal sessions", how)
		}
	}
	c.guard("line layer", func() {
		text := want.AppendTo(nil)
		if string(text) != strings.Join(ls, "\n") {
			c.Violate("write", "AppendTo wrote %q, want %q", clip(string(text), 500), clip(strings.Join(ls, "\n"), 500))
		}
		got, err := sdp.DecodeSession(text, nil)
		if err != nil {
			c.Violate("read", "reading back failed: %v", err)
			return
		}
		eq("write/read", got, want)
		lay := joinLines(r, ls)
		got, err = sdp.DecodeSession(lay, nil)
		if err != nil {
			c.Violate("read", "layout %q failed: %v", clip(string(lay), 500), err)
			return
		}
		eq("layout", got, want)
		// chain of reuses
		sess := got
		for k := 1 + r.Intn(4); k > 0; k-- {
			c.Count("reused", 1)
			l2, w2 := genL(r.Intn(10))
			keep := 0
			if r.Intn(4) == 0 {
				keep = r.Intn(len(sess) + 1)
			}
			var before sdp.Session
			for _, x := range sess[:keep] {
				before = append(before, sdp.Line{Type: x.Type, Value: append([]byte(nil), x.Value...)})
			}
			if r.Intn(4) == 0 { // spare capacity of any size
				x := make(sdp.Session, keep, keep+r.Intn(15))
				copy(x, sess[:keep])
				sess = x
			}
			sess, err = sdp.DecodeSession(joinLines(r, l2), sess[:keep])
			if err != nil {
				c.Violate("read", "reading into a reused session failed: %v", err)
				return
			}
			eq("reused session", sess, append(before, w2...))
		}
		// single lines
		for i, l := range ls {
			var line sdp.Line
			b := []byte(l)
			if err := line.Decode(b); err != nil {
				c.Violate("line", "Line.Decode(%q): %v", l, err)
				continue
			}
			for j := range b {
				b[j] = 'X'
			}
			if !line.Equal(want[i]) {
				c.Violate("line", "Line.Decode(%q) gives %q %q", l, rune(line.Type), line.Value)
			}
			if string(line.AppendTo(nil)) != l {
				c.Violate("line", "Line.AppendTo gives %q, want %q", line.AppendTo(nil), l)
			}
			other := want[r.Intn(len(want))]
			if line.Equal(other) != (line.Type == other.Type && bytes.Equal(line.Value, other.Value)) {
				c.Violate("equal", "Line.Equal(%v, %v)", line, other)
			}
		}
		// two different lists are not equal
		if len(want) > 0 {
			k := r.Intn(len(want))
			ch := append(sdp.Session(nil), want...)
			switch r.Intn(3) {
			case 0:
				ch[k].Value = append([]byte("q"), ch[k].Value...)
			case 1:
				ch[k].Type++
			case 2:
				ch = ch[:len(ch)-1]
			}
			if want.Equal(ch) || ch.Equal(want) {
				c.Violate("equal", "Equal is true for different sessions")
			}
		}
	})
}

var corpus [][]byte

func sdpCorpus() [][]byte {
	if corpus == nil {
		dir := os.Getenv("VH_CORPUS")
		fs, _ := filepath.Glob(filepath.Join(dir, "*.txt"))
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil {
				corpus = append(corpus, b)
			}
		}
		corpus = append(corpus, []byte(sdpHead))
	}
	return corpus
}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		if len(b) == 0 {
			b = []byte("v=0\n")
		}
		i := r.Intn(len(b))
		switch r.Intn(9) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			x := []byte(" \n:=/-0dhms\x00\xff\r\t")
			b = append(b[:i], append([]byte{x[r.Intn(len(x))]}, b[i:]...)...)
		case 3:
			b = b[:i]
		case 4: // drop or double a line
			ls := bytes.Split(b, []byte("\n"))
			j := r.Intn(len(ls))
			if r.Intn(2) == 0 {
				ls = append(ls[:j], ls[j+1:]...)
			} else {
				ls = append(ls[:j+1], ls[j:]...)
			}
			b = bytes.Join(ls, []byte("\n"))
		case 5: // swap lines
			ls := bytes.Split(b, []byte("\n"))
			j, k := r.Intn(len(ls)), r.Intn(len(ls))
			ls[j], ls[k] = ls[k], ls[j]
			b = bytes.Join(ls, []byte("\n"))
		case 6: // drop a token
			f := bytes.SplitN(b[i:], []byte(" "), 2)
			if len(f) == 2 {
				b = append(b[:i], f[1]...)
			}
		case 7: // replace digits
			for j := i; j < len(b) && j < i+6; j++ {
				if b[j] >= '0' && b[j] <= '9' {
					b[j] = "0-9x /"[r.Intn(6)]
				}
			}
		case 8:
			b = append(b[:i], append(bytes.Repeat([]byte{b[i]}, 1+r.Intn(3)), b[i:]...)...)
		}
	}
	return b
}

func genSDPBytes(r *rand.Rand) []byte {
	b := genSDPText(r)
	if r.Intn(3) == 0 {
		b = reword(r, b)
	}
	return b
}

// everydayLines are lines as real devices send them, whatever the decoder knows of them.
var everydayLines = []string{"a=range:npt=0-", "a=range:npt=now-", "a=range:clock=20260101T000000Z-", "a=type:broadcast", "a=tool:LIVE555 Streaming Media v2020.01.01",
	"a=key-mgmt:mikey AQAAAA==", "a=ssrc:1234 cname:x", "a=candidate:1 1 UDP 2130706431 10.0.0.1 8998 typ host", "a=rtcp-fb:96 nack pli", "a=cliprect:0,0,576,704",
	"a=framesize:96 704-576", "a=x-qt-text-nam:x", "a=recvonly", "a=sendrecv", "a=mid:0", "a=group:BUNDLE 0 1", "a=control:*", "a=control:rtsp://u:p@h:554/x?y=z",
	"a=rtpmap:96 H264/90000", "a=rtpmap:97 mpeg4-generic/16000/2", "a=fmtp:96 packetization-mode=1;profile-level-id=4D001F;sprop-parameter-sets=Z00AH5Y1QKALdNwEBAQI,aO48gA==",
	"a=Media_header:MEDIAINFO=494D4B48", "a=appversion:1.0", "a=x-dimensions:1280,720", "a=framerate:25.000000", "b=AS:5000", "b=CT:0", "b=RR:0", "b=X-YZ:128",
	"k=prompt", "k=clear:secret", "k=base64:c2VjcmV0", "k=uri:https://h/key", "i=A \"quoted\" <title>", "u=<http://h/x.pdf>", "u=http://h/%7Ex?y#z", "e=Jane Doe <j.doe@example.com>",
	"e=j.doe@example.com (Jane Doe)", "p=+1 617 555-6011", "p=tel:+1-617", "c=IN IP4 example.com", "c=IN IP6 FF15::101/3", "c=IN IP4 0.0.0.0", "c=in ip4 224.2.36.42/127", "t=0 0",
	"t=2873397496 2873404696", "r=7d 1h 0 25h", "r=604800 3600 0 90000", "z=2882844526 -1h 2898848070 0", "m=video 0 RTP/AVP 96", "m=VIDEO 49170/2 rtp/avp 31 32", "m=application 9 TCP/TLS *"}

// reword changes the letter case of words, puts quotes, brackets, tabs and the like into them, or adds everyday lines.
func reword(r *rand.Rand, b []byte) []byte {
	out := append([]byte(nil), b...)
	for i := 1 + r.Intn(3); i > 0; i-- {
		switch r.Intn(4) {
		case 0, 1: // a word, or all of them, in another letter case
			from, to := 0, len(out)
			if r.Intn(4) > 0 && len(out) > 0 {
				from = r.Intn(len(out))
				for to = from; to < len(out) && bytes.IndexByte([]byte(" \r\n:;/,"), out[to]) < 0; to++ {
				}
			}
			f := []func([]byte) []byte{bytes.ToUpper, bytes.ToLower, bytes.Title}[r.Intn(3)]
			changed := f(append([]byte(nil), out[from:to]...))
			out = append(append(append([]byte(nil), out[:from]...), changed...), out[to:]...)
		case 2:
			k := r.Intn(len(out) + 1)
			ins := []string{"<", ">", "\"", "\t", "%20", "\\", "'", "(", ")", "#", "+", "=", ";", "\xc2\xa0", "\xef\xbb\xbf", "\x00", "/", ",", "--", "0x1", "1e3", "_"}[r.Intn(22)]
			out = append(append(append([]byte(nil), out[:k]...), ins...), out[k:]...)
		case 3:
			ls := bytes.SplitAfter(out, []byte("\n"))
			k := r.Intn(len(ls) + 1)
			var o []byte
			for j := 0; j <= len(ls); j++ {
				if j == k {
					o = append(o, everydayLines[r.Intn(len(everydayLines))]+"\r\n"...)
				}
				if j < len(ls) {
					o = append(o, ls[j]...)
				}
			}
			out = o
		}
	}
	return out
}

func genSDPText(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		b := make([]byte, r.Intn(60))
		r.Read(b)
		return b
	case 1, 2:
		cs := sdpCorpus()
		return mutate(r, cs[r.Intn(len(cs))])
	case 3:
		cs := sdpCorpus()
		return append([]byte(nil), cs[r.Intn(len(cs))]...)
	case 4: // lines of random types and values
		var b []byte
		for i := r.Intn(12); i > 0; i-- {
			b = append(b, "vosiuepcbtrzkamXY"[r.Intn(17)])
			b = append(b, '=')
			for j := r.Intn(5); j >= 0; j-- {
				b = append(b, []string{"IN ", "IP4 ", "1.2.3.4/", "0 ", "12", "d ", ":", "CT:", "-1h", " ", "", "::1/", "a", "/"}[r.Intn(14)]...)
			}
			b = append(b, '\n')
		}
		return b
	case 5:
		return joinLines(r, refLines(genMessage(r)))
	}
	return mutate(r, joinLines(r, refLines(genMessage(r))))
}

// decodeOnce decodes and reports message and error text.
func decodeLines(s sdp.Session) (*sdp.Message, string) {
	m := &sdp.Message{}
	d := sdp.NewDecoder(s)
	if err := d.Decode(m); err != nil {
		return m, "error: " + err.Error()
	}
	return m, ""
}

func cloneSession(s sdp.Session) sdp.Session {
	var o sdp.Session
	for _, l := range s {
		o = append(o, sdp.Line{Type: l.Type, Value: append([]byte(nil), l.Value...)})
	}
	return o
}

func dumpMessage(m *sdp.Message) string {
	ls := canonLines(refSessionLines(m))
	for i := range m.Medias {
		ls = append(ls, canonLines(refMediaLines(m.Medias[i]))...)
	}
	return strings.Clone(strings.Join(ls, "\n"))
}

func runS03(c *Ctx) {
	r := c.R
	in := genSDPBytes(r)
	c.Desc("input %q", clip(string(in), 400))
	orig := append([]byte(nil), in...)
	c.guard("DecodeSession", func() {
		// exact capacity, so that writes beyond the input are caught as well
		buf := make([]byte, len(in)+8)
		copy(buf, in)
		for i := len(in); i < len(buf); i++ {
			buf[i] = 0xA5
		}
		s1, e1 := sdp.DecodeSession(buf[:len(in)], nil)
		if !bytes.Equal(buf[:len(in)], orig) {
			c.Violate("input-modified", "DecodeSession changed its input")
		}
		for i := len(in); i < len(buf); i++ {
			if buf[i] != 0xA5 {
				c.Violate("input-modified", "DecodeSession wrote behind its input")
			}
		}
		keep := cloneSession(s1)
		for i := range buf {
			buf[i] = byte('#' + i%7)
		}
		c.Count("overwritten", 1)
		if !s1.Equal(keep) {
			c.Violate("alias", "session lines changed when the input buffer was overwritten")
		}
		s2, e2 := sdp.DecodeSession(orig, nil)
		if !s2.Equal(keep) || (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
			c.Violate("nondeterministic", "two reads of the same input differ: %v %v", e1, e2)
		}
	})
	s, _ := sdp.DecodeSession(append([]byte(nil), orig...), nil)
	if r.Intn(3) == 0 { // hand-built line list
		for i := r.Intn(4); i > 0; i-- {
			l := sdp.Line{Type: sdp.Type([]rune("vosiuepcbtrzkamX\x00\U0010ffff")[r.Intn(18)])}
			switch r.Intn(5) {
			case 0:
			case 1:
				l.Value = []byte{}
			case 2:
				l.Value = []byte([]string{" ", "1 2 ", "7d 1h 0 ", "0 0 ", "IN IP4 ", "a:", ":", "m", "d", " d", "1 ", "-", "audio 1 RTP ", "\n", "/"}[r.Intn(15)])
			case 3:
				l.Value = make([]byte, r.Intn(10))
				r.Read(l.Value)
			case 4:
				l.Value = []byte(genText(r))
			}
			k := r.Intn(len(s) + 1)
			s = append(s[:k], append(sdp.Session{l}, s[k:]...)...)
		}
	} else if r.Intn(4) == 0 && len(s) > 0 { // trailing or leading spaces, which the text layer would have removed
		k := r.Intn(len(s))
		s[k].Value = []byte([]string{"", " "}[r.Intn(2)] + string(s[k].Value) + []string{"", " ", "  "}[r.Intn(3)])
	}
	if len(s) > 0 {
		c.Sig(string(s.AppendTo(nil)))
	}
	keep := cloneSession(s)
	c.guard("Decode", func() {
		m1, e1 := decodeLines(s)
		if !s.Equal(keep) {
			c.Violate("input-modified", "Decode changed its lines")
		}
		d1 := dumpMessage(m1)
		for i := range s {
			for j := range s[i].Value {
				s[i].Value[j] = byte('!' + j%13)
			}
			v := s[i].Value[:cap(s[i].Value)]
			for j := range v {
				v[j] = '~'
			}
		}
		if d := dumpMessage(m1); d != d1 {
			c.Violate("alias", "message changed when the lines were overwritten:\n%s\n---\n%s", clip(d1, 600), clip(d, 600))
		}
		m2, e2 := decodeLines(cloneSession(keep))
		if e1 != e2 || dumpMessage(m2) != d1 {
			c.Violate("nondeterministic", "two decodings differ: %q %q\n%s\n---\n%s", e1, e2, clip(d1, 600), clip(dumpMessage(m2), 600))
		}
		if e1 == "" {
			c.Count("decoded_ok", 1)
		} else {
			c.Count("decoded_error", 1)
		}
	})
}

func runS04(c *Ctx) {
	r := c.R
	c.guard("conversion", func() {
		a, b := genNTP(r), genNTP(r)
		if r.Intn(3) == 0 && a > 0 {
			b = a + uint64(r.Intn(2))
		}
		c.Count("ntp", 2)
		ta, tb := sdp.NTPToTime(a), sdp.NTPToTime(b)
		c.Desc("ntp %d %d", a, b)
		c.Sig(a, b)
		for _, x := range []struct {
			n uint64
			t time.Time
		}{{a, ta}, {b, tb}} {
			if !x.t.Equal(refTime(x.n)) || x.t.IsZero() != (x.n == 0) {
				c.Violate("ntp", "NTPToTime(%d) = %v (unix %d), want unix %d", x.n, x.t, x.t.Unix(), refTime(x.n).Unix())
			}
			if y := sdp.TimeToNTP(x.t); y != x.n {
				c.Violate("ntp", "TimeToNTP(NTPToTime(%d)) = %d", x.n, y)
			}
			if y := sdp.TimeToNTP(x.t.In(time.FixedZone("z", r.Intn(86400)-43200))); x.n != 0 && y != x.n {
				c.Violate("ntp", "TimeToNTP depends on the location: %d for %d", y, x.n)
			}
		}
		if a != 0 && b != 0 && (a < b) != ta.Before(tb) {
			c.Violate("ntp", "order of %d and %d is not preserved", a, b)
		}
		// intervals: builder -> text meaning; text -> decoder meaning
		rep, act := genDur(r), genDur(r)
		var offs []time.Duration
		for i := r.Intn(4); i >= 0; i-- {
			offs = append(offs, genDur(r))
		}
		c.Sig(rep, act, offs)
		c.Desc("intervals %v %v %v", rep, act, offs)
		all := append([]time.Duration{rep, act}, offs...)
		c.Count("intervals", len(all))
		for _, compact := range []bool{false, true} {
			var s sdp.Session
			if compact {
				s = s.AddRepeatTimesCompact(rep, act, offs...)
			} else {
				s = s.AddRepeatTimes(rep, act, offs...)
			}
			f := strings.Split(string(s[0].Value), " ")
			if len(f) != len(all) {
				c.Violate("interval", "%d tokens %q for %v", len(f), s[0].Value, all)
				continue
			}
			for i, d := range all {
				if n, ok := parseInterval(f[i]); !ok || n != int64(d/time.Second) {
					c.Violate("interval", "duration %v written as %q (compact %v)", d, f[i], compact)
				}
			}
		}
		// any notation of a duration reads as that duration
		text := func(d time.Duration) string {
			n := int64(d / time.Second)
			opts := []string{strconv.FormatInt(n, 10), strconv.FormatInt(n, 10) + "s"}
			if n%60 == 0 {
				opts = append(opts, strconv.FormatInt(n/60, 10)+"m")
			}
			if n%3600 == 0 {
				opts = append(opts, strconv.FormatInt(n/3600, 10)+"h")
			}
			if n%86400 == 0 {
				opts = append(opts, strconv.FormatInt(n/86400, 10)+"d")
			}
			return opts[r.Intn(len(opts))]
		}
		line := "r=" + text(rep) + " " + text(act)
		for _, o := range offs {
			line += " " + text(o)
		}
		off := genDur(r)
		z1 := strconv.FormatUint(a, 10) + " " + text(off)
		z2 := strconv.FormatUint(b, 10) + " " + text(rep)
		head := "v=0\no=- 1 1 IN IP4 h\ns=x\n"
		tl := fmt.Sprintf("t=%d %d\n", a, b)
		src := head + tl + line + "\nz=" + z1 + " " + z2 + "\n"
		if r.Intn(2) == 0 { // some descriptions carry the zone line before the timing
			src = head + "z=" + z1 + " " + z2 + "\n" + tl + line + "\n"
		}
		m, err := decodeText([]byte(src))
		if err != nil {
			c.Violate("decode", "%q is refused: %v", src, err)
			return
		}
		if len(m.Timing) != 1 || !m.Timing[0].Start.Equal(refTime(a)) || !m.Timing[0].End.Equal(refTime(b)) {
			c.Violate("decode", "timing of %q decoded as %v", src, m.Timing)
			return
		}
		t := m.Timing[0]
		if t.Repeat != rep || t.Active != act || fmt.Sprint(t.Offsets) != fmt.Sprint(offs) {
			c.Violate("decode", "repeat line %q decoded as %v %v %v, want %v %v %v", line, t.Repeat, t.Active, t.Offsets, rep, act, offs)
		}
		z := m.TZAdjustments
		if len(z) != 2 || !z[0].Start.Equal(refTime(a)) || z[0].Offset != off || !z[1].Start.Equal(refTime(b)) || z[1].Offset != rep {
			c.Violate("decode", "time zones of %q decoded as %v", src, z)
		}
		s := sdp.Session{}.AddTimeZones(z...)
		if normLine(string(s.AppendTo(nil))) != normLine("z="+z1+" "+z2) {
			c.Violate("interval", "time zones written as %q, want %q", s.AppendTo(nil), z1+" "+z2)
		}
		c.repetitions(head, text)
	})
}

// repetitions checks that every repetition of every time description is read
// with the interval, duration and offsets of its own line, and is still there
// after it was written and read again.
func (c *Ctx) repetitions(head string, text func(time.Duration) string) {
	r := c.R
	intervals := []time.Duration{genDur(r), genDur(r), 7 * 24 * time.Hour, 0}
	src := head
	var want []string
	lines := 0
	for i := 1 + r.Intn(3); i > 0; i-- {
		a, b := genNTP(r), genNTP(r)
		src += fmt.Sprintf("t=%d %d\n", a, b)
		n := r.Intn(4)
		if n == 0 {
			want = append(want, fmt.Sprintf("%d %d", refTime(a).Unix(), refTime(b).Unix()))
		}
		for ; n > 0; n-- {
			rep, act := intervals[r.Intn(len(intervals))], intervals[r.Intn(len(intervals))]
			src += "r=" + text(rep) + " " + text(act)
			for o := r.Intn(3); o >= 0; o-- {
				off := genDur(r)
				src += " " + text(off)
				want = append(want, fmt.Sprintf("%d %d every %v for %v at %v", refTime(a).Unix(), refTime(b).Unix(), rep, act, off))
			}
			src += "\n"
			lines++
		}
	}
	list := func(m *sdp.Message) []string {
		var have []string
		for _, t := range m.Timing {
			when := fmt.Sprintf("%d %d", t.Start.Unix(), t.End.Unix())
			if len(t.Offsets) == 0 {
				have = append(have, when)
			}
			for _, o := range t.Offsets {
				have = append(have, fmt.Sprintf("%s every %v for %v at %v", when, t.Repeat, t.Active, o))
			}
		}
		return have
	}
	m, err := decodeText([]byte(src))
	if err != nil {
		c.Violate("repetition", "%q is refused: %v", src, err)
		return
	}
	if fmt.Sprint(list(m)) != fmt.Sprint(want) {
		c.Violate("repetition", "repetitions of %q decoded as %q, want %q", src, list(m), want)
		return
	}
	again, err := decodeText(m.Append(nil).AppendTo(nil))
	if err != nil || fmt.Sprint(list(again)) != fmt.Sprint(want) {
		c.Violate("repetition", "repetitions of %q written and read again: %v, want %q", src, err, want)
	}
	c.Count("repeat lines", lines)
}

func permuteAttrNames(r *rand.Rand, ls []string) []string {
	// keep the order of equal names, shuffle the interleaving of different names
	by := map[string][]string{}
	var names []string
	var rest []string
	for _, l := range ls {
		if strings.HasPrefix(l, "a=") {
			n, _, _ := strings.Cut(l, ":")
			if by[n] == nil {
				names = append(names, n)
			}
			by[n] = append(by[n], l)
		} else {
			rest = append(rest, l)
		}
	}
	out := append([]string(nil), rest...)
	for len(names) > 0 {
		k := r.Intn(len(names))
		n := names[k]
		out = append(out, by[n][0])
		by[n] = by[n][1:]
		if len(by[n]) == 0 {
			names = append(names[:k], names[k+1:]...)
		}
	}
	return out
}

func runS06(c *Ctx) {
	r := c.R
	c.guard("decode", func() {
		base := genMessage(r)
		if r.Intn(2) == 0 && isBlankConn(base.Connection) {
			base.Connection = genConn(r)
		}
		base.Medias = nil
		if base.Attributes == nil && r.Intn(2) == 0 {
			base.Attributes = sdp.Attributes{"rtpmap": {"1 x"}, "control": {"session"}}
		}
		head := refSessionLines(base)
		var secs [][]string
		var specs []sdp.Media
		for i := 1 + r.Intn(4) + r.Intn(2)*r.Intn(2)*r.Intn(6); i > 0; i-- {
			m := genMedia(r)
			if r.Intn(2) == 0 {
				m.Connection = genConn(r)
			}
			if len(specs) > 0 && r.Intn(6) == 0 { // described twice, in full or only its first line
				o := specs[r.Intn(len(specs))]
				if r.Intn(2) == 0 {
					m = o
				} else {
					m = sdp.Media{Description: o.Description}
				}
				c.Count("twice", 1)
			} else if r.Intn(6) == 0 {
				m = sdp.Media{Description: m.Description}
			}
			if r.Intn(6) == 0 {
				m.Description.Port = 0
			}
			specs = append(specs, m)
			secs = append(secs, refMediaLines(m))
		}
		c.Desc("%d medias: %s", len(secs), clip(strings.Join(head, " | "), 400))
		c.Sig(strings.Join(head, "\n"))
		alone := func(sec []string) *sdp.Media {
			m, err := decodeText([]byte(strings.Join(append([]string{"v=0", "o=- 1 1 IN IP4 h", "s=x", "t=0 0"}, sec...), "\n")))
			if err != nil {
				c.Violate("decode", "media section alone is refused: %v: %q", err, sec)
				return nil
			}
			if len(m.Medias) != 1 {
				c.Violate("decode", "media section alone gives %d medias", len(m.Medias))
				return nil
			}
			if m.Attributes != nil && len(m.Attributes) > 0 || !isBlankConn(m.Connection) || m.Encryption != (sdp.Encryption{}) || len(m.Bandwidths) > 0 || m.Info != "" || m.Name != "x" {
				c.Violate("leak", "media section alters session fields: %s from %q", clip(dumpMessage(m), 500), sec)
			}
			return &m.Medias[0]
		}
		lines := append([]string(nil), head...)
		m0, err := decodeText([]byte(strings.Join(lines, "\n")))
		if err != nil {
			c.Violate("decode", "session part is refused: %v: %q", err, lines)
			return
		}
		if d := diffMessage(m0, base); d != "" {
			c.Violate("leak", "session part alone: decoded != described: %s", d)
		}
		prev := m0
		for i, sec := range secs {
			a := alone(sec)
			if a == nil {
				return
			}
			if d := diffMedia(*a, specs[i]); d != "" {
				c.Violate("leak", "media alone: decoded != described: %s", d)
			}
			lines = append(lines, sec...)
			m, err := decodeText([]byte(strings.Join(lines, "\n")))
			if err != nil {
				c.Violate("decode", "appending a media section makes the text refused: %v: %q", err, lines)
				return
			}
			c.Count("appended", 1)
			c.Sig(strings.Join(sec, "\n"))
			if d := diffSession(m, m0); d != "" {
				c.Violate("leak", "appending media %d %q changed the session part: now != before: %s", i, sec, d)
			}
			if len(m.Medias) != len(prev.Medias)+1 {
				c.Violate("leak", "appending one media gives %d medias after %d", len(m.Medias), len(prev.Medias))
				return
			}
			for j := range prev.Medias {
				if d := diffMedia(m.Medias[j], prev.Medias[j]); d != "" {
					c.Violate("leak", "appending media %d changed media %d: %s", i, j, d)
				}
			}
			if d := diffMedia(m.Medias[i], *a); d != "" {
				c.Violate("leak", "media %d differs from what it decodes to alone: in context != alone: %s", i, d)
			}
			prev = m
		}
		// attribute order of different names
		pl := append([]string(nil), head...)
		for _, sec := range secs {
			pl = append(pl, permuteAttrNames(r, sec)...)
		}
		pm, err := decodeText([]byte(strings.Join(pl, "\n")))
		c.Count("permuted", 1)
		if err != nil {
			c.Violate("decode", "permuted attributes are refused: %v", err)
		} else if d := diffMessage(pm, prev); d != "" {
			c.Violate("order", "attribute order matters: permuted != original: %s", d)
		}
	})
}

// malformations: name and function that spoils one line of the list (or adds one); ok=false if not applicable.
type malform struct {
	name string
	f    func(r *rand.Rand, ls []string) ([]string, bool)
}

func pickLine(r *rand.Rand, ls []string, pre string) int {
	var ix []int
	for i, l := range ls {
		if strings.HasPrefix(l, pre) {
			ix = append(ix, i)
		}
	}
	if len(ix) == 0 {
		return -1
	}
	return ix[r.Intn(len(ix))]
}

func garble(r *rand.Rand, tok string) string {
	switch r.Intn(9) {
	case 8: // close to a number
		n := strconv.Itoa(r.Intn(1000))
		return n + []string{".0", ".", ".00", "k", "K", "M", "kbps", "s", "ms", "%", "e3", "E0", "_000", ",000", "u", "L", "\x00", "+", "-", ";", "\u00b2", "w", "W", "D"}[r.Intn(24)]
	case 0:
		return "NaN"
	case 5:
		return strconv.Itoa(2+r.Intn(8)) + "0000000000000000000" // beyond 64 bits
	case 6:
		return "9999999999999999999999999999"
	case 1:
		return tok + "x"
	case 2:
		return "x" + tok
	case 3:
		return "0x10"
	case 4:
		return "1.5"
	}
	return "--1"
}

func editTok(pre string, pos func(r *rand.Rand, n int) int, edit func(r *rand.Rand, t string) string) func(r *rand.Rand, ls []string) ([]string, bool) {
	return func(r *rand.Rand, ls []string) ([]string, bool) {
		i := pickLine(r, ls, pre)
		if i < 0 {
			return nil, false
		}
		f := strings.Split(ls[i][2:], " ")
		p := pos(r, len(f))
		if p < 0 || p >= len(f) {
			return nil, false
		}
		f[p] = edit(r, f[p])
		ls[i] = pre + strings.Join(f, " ")
		return ls, true
	}
}

func at(p int) func(r *rand.Rand, n int) int { return func(*rand.Rand, int) int { return p } }

func setLine(pre string, vals ...string) func(r *rand.Rand, ls []string) ([]string, bool) {
	return func(r *rand.Rand, ls []string) ([]string, bool) {
		i := pickLine(r, ls, pre)
		if i < 0 {
			return nil, false
		}
		ls[i] = pre + vals[r.Intn(len(vals))]
		return ls, true
	}
}

func tokCount(pre string, minus, plus bool) func(r *rand.Rand, ls []string) ([]string, bool) {
	return func(r *rand.Rand, ls []string) ([]string, bool) {
		i := pickLine(r, ls, pre)
		if i < 0 {
			return nil, false
		}
		f := strings.Split(ls[i][2:], " ")
		if minus && (!plus || r.Intn(2) == 0) {
			k := 3
			if pre == "r=" {
				k = 2 // a repeat line needs three sub-fields
				f = f[:1+r.Intn(k)]
			} else if pre == "m=" {
				f = f[:1+r.Intn(k)]
			} else {
				f = f[:1+r.Intn(len(f)-1)]
			}
		} else {
			for j := 1 + r.Intn(2); j > 0; j-- {
				f = append(f, "extra")
			}
		}
		ls[i] = pre + strings.Join(f, " ")
		return ls, true
	}
}

var malforms = []malform{
	{"version not a number", func(r *rand.Rand, ls []string) ([]string, bool) {
		ls[0] = "v=" + garble(r, "0")
		if r.Intn(4) == 0 {
			ls[0] = []string{"v=v0", "v=V1", "v=0 0", "v=0;", "v=zero", "v=#0", "v='0'"}[r.Intn(7)]
		}
		return ls, true
	}},
	{"session id not a number", editTok("o=", at(1), garble)},
	{"session version not a number", editTok("o=", at(2), garble)},
	{"port not a number", editTok("m=", at(1), func(r *rand.Rand, t string) string { p, _, _ := strings.Cut(t, "/"); return garble(r, p) })},
	{"ports number not a number", editTok("m=", at(1), func(r *rand.Rand, t string) string { p, _, _ := strings.Cut(t, "/"); return p + "/" + garble(r, "2") })},
	{"port sub-field count", editTok("m=", at(1), func(r *rand.Rand, t string) string {
		p, _, _ := strings.Cut(t, "/")
		return p + []string{"/2/3", "/2/", "/", "//2", "/2/2/2"}[r.Intn(5)]
	})},
	{"time not a number", editTok("t=", func(r *rand.Rand, n int) int { return r.Intn(2) }, garble)},
	{"bandwidth not a number", func(r *rand.Rand, ls []string) ([]string, bool) {
		i := pickLine(r, ls, "b=")
		if i < 0 {
			return nil, false
		}
		k, v, _ := strings.Cut(ls[i], ":")
		ls[i] = k + ":" + garble(r, v)
		if r.Intn(4) == 0 {
			ls[i] = k + []string{": ", ":\t", "::", ":=", ":AS:", ":\"", ":<", ":~"}[r.Intn(8)] + v
		}
		return ls, true
	}},
	{"interval not a number", editTok("r=", func(r *rand.Rand, n int) int { return r.Intn(n) }, func(r *rand.Rand, t string) string {
		return []string{"NaN", "d", "h", "m", "s", "1x", "x1", "1dd", "1.5h", "1d2h", "--1", "7D", "1H", "5M", "9S", "1w", "2W", "1y", "10ms", "1.0", "60.", "1h30", "7d1", "0x10", "1e3", "1_000", "3,600", "7days", "P1D", "1:00", "\x001", "7d\x00"}[r.Intn(32)]
	})},
	{"interval out of range", editTok("r=", func(r *rand.Rand, n int) int { return r.Intn(n) }, hugeInterval)},
	{"zone offset out of range", editTok("z=", func(r *rand.Rand, n int) int { return 2*r.Intn(n/2) + 1 }, hugeInterval)},
	{"zone offset not a number", editTok("z=", func(r *rand.Rand, n int) int { return 2*r.Intn(n/2) + 1 }, func(r *rand.Rand, t string) string {
		return []string{"NaN", "h", "1x", "1.5h", "--1", "-1H", "1w", "+-1h", "-1.0h", "1:00", "+01:00h", "-1e3", "UTC", "-", "+", "1h30m", "0x1", "7D"}[r.Intn(18)]
	})},
	{"zone time not a number", editTok("z=", func(r *rand.Rand, n int) int { return 2 * r.Intn(n/2) }, garble)},
	{"origin sub-field count", tokCount("o=", true, true)},
	{"connection sub-field count", tokCount("c=", true, true)},
	{"timing sub-field count", tokCount("t=", true, true)},
	{"repeat sub-field count", tokCount("r=", true, false)},
	{"media sub-field count", tokCount("m=", true, false)},
	{"zone sub-field count", func(r *rand.Rand, ls []string) ([]string, bool) {
		i := pickLine(r, ls, "z=")
		if i < 0 {
			return nil, false
		}
		f := strings.Split(ls[i][2:], " ")
		if r.Intn(2) == 0 {
			f = f[:len(f)-1]
		} else {
			f = append(f, "0")
		}
		ls[i] = "z=" + strings.Join(f, " ")
		return ls, true
	}},
	{"doubled separator", func(r *rand.Rand, ls []string) ([]string, bool) {
		i := pickLine(r, ls, []string{"o=", "c=", "t=", "r=", "z=", "m="}[r.Intn(6)])
		if i < 0 {
			return nil, false
		}
		f := strings.Split(ls[i][2:], " ")
		p := r.Intn(len(f) - 1)
		f[p] += " "
		ls[i] = ls[i][:2] + strings.Join(f, " ")
		return ls, true
	}},
	{"TTL or address count", setLine("c=", "IN IP4 224.2.1.1/256", "IN IP4 224.2.1.1/-1", "IN IP4 224.2.1.1/1000", "IN IP4 224.2.1.1/127/256", "IN IP4 224.2.1.1/127/-1",
		"IN IP4 224.2.1.1/127/70000", "IN IP4 224.2.1.1/511/1", "IN IP6 FF15::101/256", "IN IP6 FF15::101/-3", "IN IP6 FF15::101/512", "IN IP4 224.2.1.1/x", "IN IP4 224.2.1.1/1/y",
		"IN IP6 FF15::101/z", "IN IP4 224.2.1.1/1/2/3", "IN IP4 224.2.1.1/0x10", "IN IP4 224.2.1.1/1/0b1", "IN IP6 FF15::101/0o7", "IN IP4 224.2.1.1/99999999999999999999",
		"IN IP4 224.2.1.1/127.0", "IN IP4 224.2.1.1/1e2", "IN IP4 224.2.1.1/1_2", "IN IP4 224.2.1.1/127/3.", "IN IP4 224.2.1.1/\t127", "IN IP4 224.2.1.1/127/3k", "IN IP6 FF15::101/3x", "IN IP6 FF15::101/3.0", "IN IP6 FF15::101/0x3", "IN IP4 224.2.1.1/+127", "IN IP4 224.2.1.1/127/+3", "IN IP6 FF15::101/+3")},
	{"empty TTL or address count", setLine("c=", "IN IP4 224.2.1.1/", "IN IP4 224.2.1.1//", "IN IP4 224.2.1.1//3", "IN IP4 224.2.1.1/127/", "IN IP6 FF15::101/", "IN IP4 /127", "IN IP4 /")},
	{"TTL on IPv6", setLine("c=", "IN IP6 FF15::101/127/3", "IN IP6 ::1/1/1")},
	{"unknown bandwidth type", setLine("b=", "XX:100", "as:100", "ct:5", "CTX:1", "A:1", "CT", "100", "Ct:5", "aS:1", "TIAS:64000", "RR:0", "RS:0", "X-YZ:128", "X-AS:1", "AS :1", "ASX:1", "AS128", "CT=5", "AS;1", "b:AS:1", "AS:CT:1", "*:1", "-:1")},
	{"colon without value", func(r *rand.Rand, ls []string) ([]string, bool) {
		i := pickLine(r, ls, []string{"a=", "b=", "k="}[r.Intn(3)])
		if i < 0 {
			return nil, false
		}
		k, _, _ := strings.Cut(ls[i], ":")
		ls[i] = k + ":"
		return ls, true
	}},
	{"repeat without timing", func(r *rand.Rand, ls []string) ([]string, bool) {
		var out []string
		for _, l := range ls {
			if !strings.HasPrefix(l, "t=") && !strings.HasPrefix(l, "r=") && !strings.HasPrefix(l, "z=") {
				out = append(out, l)
			}
		}
		i := 3
		for i < len(out) && strings.ContainsRune("iuepcb", rune(out[i][0])) {
			i++
		}
		return append(out[:i], append([]string{"r=7d 1h 0 25h"}, out[i:]...)...), true
	}},
	{"unknown line type", func(r *rand.Rand, ls []string) ([]string, bool) {
		i := r.Intn(len(ls) + 1)
		return append(ls[:i], append([]string{string("xyVOSMAqf1#")[r.Intn(11):][:1] + "=" + genText(r)}, ls[i:]...)...), true
	}},
	{"line type of no or several characters", func(r *rand.Rand, ls []string) ([]string, bool) {
		i := r.Intn(len(ls))
		if r.Intn(6) == 0 {
			ls[i] = ls[i][1:] // none at all
		} else {
			ls[i] = ls[i][:1] + []string{"x", ls[i][:1], "\u00e9", "-type", "1", " "}[r.Intn(6)] + ls[i][1:]
		}
		return ls, true
	}},
	{"session line in a media section", func(r *rand.Rand, ls []string) ([]string, bool) {
		i := pickLine(r, ls, "m=")
		if i < 0 {
			return nil, false
		}
		for i++; i < len(ls) && ls[i][0] != 'm' && r.Intn(3) > 0; i++ {
		}
		l := []string{"v=0", "o=- 1 1 IN IP4 1.2.3.4", "s=x", "u=http://x/", "e=a@b", "p=1", "t=0 0", "r=7d 1h 0", "z=0 0"}[r.Intn(9)]
		return append(ls[:i], append([]string{l}, ls[i:]...)...), true
	}},
	{"line without equals sign", func(r *rand.Rand, ls []string) ([]string, bool) {
		i := r.Intn(len(ls))
		if r.Intn(2) == 0 {
			ls[i] = strings.ReplaceAll(ls[i], "=", "")
			return ls, true
		}
		return append(ls[:i], append([]string{[]string{"garbage", "a", "v", "a:b", "sendrecv line"}[r.Intn(5)]}, ls[i:]...)...), true
	}},
	{"empty value", func(r *rand.Rand, ls []string) ([]string, bool) {
		i := r.Intn(len(ls))
		if ls[i][0] == 's' {
			return nil, false
		}
		ls[i] = ls[i][:2]
		return ls, true
	}},
}

// hugeInterval is a number of seconds, minutes, hours or days that no time.Duration can hold.
func hugeInterval(r *rand.Rand, t string) string {
	u := []string{"", "s", "m", "h", "d"}[r.Intn(5)]
	n := math.MaxInt64 / int64(map[string]time.Duration{"": time.Second, "s": time.Second, "m": time.Minute, "h": time.Hour, "d": 24 * time.Hour}[u])
	n += 1 + r.Int63n(math.MaxInt64-n)
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("%d%s", -n, u)
	case 1:
		return fmt.Sprintf("%d000%s", n, u)
	}
	return fmt.Sprintf("%d%s", n, u)
}

func runS07(c *Ctx) {
	r := c.R
	var m *sdp.Message
	var ls []string
	var mf malform
	var bad []string
	for try := 0; ; try++ {
		m = genMessage(r)
		if len(m.Timing) == 0 {
			m.Timing = []sdp.Timing{genTiming(r)}
		}
		if len(m.Medias) == 0 && r.Intn(3) > 0 {
			m.Medias = []sdp.Media{genMedia(r)}
		}
		ls = refLines(m)
		// one form of malformation per case, every form equally often
		mf = malforms[(c.Idx+try/20)%len(malforms)]
		var ok bool
		if bad, ok = mf.f(r, append([]string(nil), ls...)); ok {
			break
		}
	}
	text := joinLines(r, ls)
	btext := joinLines(r, bad)
	c.Desc("%s: %q", mf.name, clip(string(btext), 500))
	c.Sig(string(btext))
	c.Count("kind: "+mf.name, 1)
	c.guard("decode", func() {
		if _, err := decodeText(text); err != nil {
			c.Violate("valid-refused", "valid description refused: %v\n%s", err, clip(string(text), 1000))
		} else {
			c.Count("valid_accepted", 1)
		}
		got, err := decodeText(btext)
		if err == nil {
			c.Violate("accepted", "malformed description (%s) accepted as %s\n%q", mf.name, clip(dumpMessage(got), 400), clip(string(btext), 1500))
		} else {
			c.Count("rejected", 1)
		}
	})
}
