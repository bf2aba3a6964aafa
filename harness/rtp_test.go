package vharness

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"
)

// ---- RTP packetizers (reference models, written from the RFCs) ---------------------------------------------------

type rtpHdr struct {
	marker bool
	pt     byte
	seq    uint16
	ts     uint32
	ssrc   uint32
	cc     int
	ext    int // extension words, -1: no extension
	pad    int // padding bytes, 0: none
}

func plainHdr() rtpHdr { return rtpHdr{pt: 96, ext: -1, ssrc: 0x11223344} }

func rtpPacket(r *rand.Rand, h rtpHdr, payload []byte) []byte {
	b := make([]byte, 12, 12+4*h.cc+len(payload)+300)
	b[0] = 0x80 | byte(h.cc)
	if h.ext >= 0 {
		b[0] |= 0x10
	}
	if h.pad > 0 {
		b[0] |= 0x20
	}
	b[1] = h.pt & 0x7f
	if h.marker {
		b[1] |= 0x80
	}
	binary.BigEndian.PutUint16(b[2:], h.seq)
	binary.BigEndian.PutUint32(b[4:], h.ts)
	binary.BigEndian.PutUint32(b[8:], h.ssrc)
	for i := 0; i < h.cc; i++ {
		b = binary.BigEndian.AppendUint32(b, r.Uint32())
	}
	if h.ext >= 0 {
		b = binary.BigEndian.AppendUint16(b, uint16(r.Intn(65536)))
		b = binary.BigEndian.AppendUint16(b, uint16(h.ext))
		for i := 0; i < h.ext; i++ {
			b = binary.BigEndian.AppendUint32(b, r.Uint32())
		}
	}
	b = append(b, payload...)
	if h.pad > 0 {
		for i := 0; i < h.pad-1; i++ {
			b = append(b, byte(r.Intn(256)))
		}
		b = append(b, byte(h.pad))
	}
	return b
}

func frame(ch int, p []byte) []byte {
	b := make([]byte, 4, 4+len(p))
	b[0] = '$'
	b[1] = byte(ch)
	binary.BigEndian.PutUint16(b[2:], uint16(len(p)))
	return append(b, p...)
}

// pkt is one RTP payload with its marker bit and the units that are complete once it has arrived.
type pkt struct {
	payload []byte
	marker  bool
	done    [][]byte
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	if n > 4096 { // cheap, but every position still differs
		x := r.Uint64()
		for i := range b {
			x = x*6364136223846793005 + 1442695040888963407
			b[i] = byte(x >> 56)
		}
		return b
	}
	r.Read(b)
	return b
}

func genSize(r *rand.Rand, minN, maxN int) int {
	n := 0
	switch r.Intn(10) {
	case 0, 1, 2:
		n = minN + r.Intn(6)
	case 3, 4, 5:
		n = minN + r.Intn(200)
	case 6, 7:
		n = 1000 + r.Intn(1000)
	case 8:
		n = minN + r.Intn(20000)
		if r.Intn(3) == 0 { // beyond 15 bits
			n = 32700 + r.Intn(30000)
		}
	case 9:
		n = []int{minN, 255, 256, 257, 1023, 1024, 1400, 4095, 4096, 4097, 65535, 65536, 65523, 65519}[r.Intn(14)]
	}
	return max(minN, min(n, maxN))
}

var textureHeads = []string{"\x00\x00\x00\x01", "\x00\x00\x01", "\x00\x00", "\x00\x00\x03", "\x00", "\xff\xff\xff\xff", "\xff\xf1", "$\x00\x00\x04", "RTSP/1.0 200 OK\r\n\r\n", "\x00\x10", "\x80", "\x00\x00\x00\x01\x67", "\x7c\x85", "\x18", "\x62\x01"}

// texture gives media content of the sort real streams have and random bytes have not: start codes, runs of one value,
// zeros at either end, text, headers of other layers.
func texture(r *rand.Rand, b []byte) []byte {
	if len(b) == 0 || r.Intn(3) > 0 {
		return b
	}
	switch r.Intn(6) {
	case 0, 1:
		copy(b, textureHeads[r.Intn(len(textureHeads))])
	case 2:
		v := []byte{0, 0, 0xff, 0x80, '$', 1}[r.Intn(6)]
		for i := range b {
			b[i] = v
		}
	case 3:
		for i := len(b) - min(len(b), 1+r.Intn(8)); i < len(b); i++ {
			b[i] = []byte{0, 0, 0, 0xff}[r.Intn(4)]
		}
	case 4:
		copy(b[r.Intn(len(b)):], textureHeads[r.Intn(len(textureHeads))])
	case 5: // few different values
		k := r.Intn(4)
		for i := range b {
			b[i] >>= 4 + k
		}
	}
	return b
}

// again repeats some of the units, next to each other or further on (parameter sets are sent so).
func again(r *rand.Rand, ns [][]byte) [][]byte {
	if len(ns) == 0 || r.Intn(3) > 0 {
		return ns
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		u := ns[r.Intn(len(ns))]
		if len(u) > 100000 {
			continue
		}
		i := r.Intn(len(ns) + 1)
		ns = append(ns[:i:i], append([][]byte{u}, ns[i:]...)...)
	}
	return ns
}

// nal264 makes an H.264 NAL unit of n >= 1 bytes with any legal header.
func nal264(r *rand.Rand, n int) []byte {
	b := randBytes(r, n)
	t := byte(1 + r.Intn(23))
	if r.Intn(2) == 0 {
		t = []byte{1, 5, 6, 7, 8, 9}[r.Intn(6)]
	}
	b[0] = byte(r.Intn(4))<<5 | t
	if r.Intn(16) == 0 {
		b[0] |= 0x80
	}
	texture(r, b[1:])
	return b
}

// nal265 makes an H.265 NAL unit of n >= 2 bytes.
func nal265(r *rand.Rand, n int) []byte {
	b := randBytes(r, n)
	t := byte(r.Intn(48))
	if r.Intn(2) == 0 {
		t = []byte{1, 19, 20, 32, 33, 34, 39}[r.Intn(7)]
	}
	b[0] = t<<1 | byte(r.Intn(2))
	b[1] = byte(r.Intn(32))<<3 | byte(1+r.Intn(7))
	if r.Intn(16) == 0 {
		b[0] |= 0x80
	}
	texture(r, b[2:])
	return b
}

// splitN cuts b into k pieces at random positions; pieces may be empty when empties is set.
func splitN(r *rand.Rand, b []byte, k int, empties bool) [][]byte {
	cuts := []int{0, len(b)}
	for len(cuts) < k+1 {
		c := r.Intn(len(b) + 1)
		if !empties {
			c = 1 + r.Intn(max(1, len(b)-1))
		}
		cuts = append(cuts, c)
	}
	sortInts(cuts)
	var out [][]byte
	for i := 0; i < k; i++ {
		p := b[cuts[i]:cuts[i+1]]
		if len(p) == 0 && !empties {
			continue
		}
		out = append(out, p)
	}
	return out
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

const maxPayload = 65535 - 12

// fragments chooses the pieces of a fragmented unit's body, each at most maxFrag bytes, at least two.
func fragments(r *rand.Rand, body []byte, maxFrag int) [][]byte {
	switch {
	case len(body) >= 2 && len(body) <= 4*maxFrag && r.Intn(2) == 0:
		k := 2 + r.Intn(6)
		for {
			ps := splitN(r, body, k, r.Intn(4) == 0)
			ok := len(ps) >= 2
			for _, p := range ps {
				ok = ok && len(p) <= maxFrag
			}
			if ok {
				return ps
			}
			k++
			if k > 40 {
				break
			}
		}
	}
	sz := min(maxFrag, 1+r.Intn(3000))
	if len(body) > 100000 {
		sz = maxFrag
		if r.Intn(2) == 0 {
			sz = 1400 + r.Intn(40000)
		}
	}
	if len(body) < 2 {
		return [][]byte{body, nil} // second fragment is empty
	}
	if sz >= len(body) {
		sz = (len(body) + 1) / 2
	}
	var out [][]byte
	for len(body) > 0 {
		n := min(sz, len(body))
		out = append(out, body[:n])
		body = body[n:]
	}
	return out
}

// pack264 packetizes a list of NAL units; limit is the largest payload.
func pack264(r *rand.Rand, nals [][]byte, limit int, notes *[]string) []pkt {
	var out []pkt
	for i := 0; i < len(nals); {
		n := nals[i]
		switch m := r.Intn(3); {
		case m == 0 && i+1 <= len(nals): // an aggregation packet
			kind := 24
			if r.Intn(3) == 0 {
				kind = 25 + r.Intn(3)
			}
			per := []int{2, 2, 5, 6}[kind-24] // bytes before each unit
			size := 1
			if kind > 24 {
				size = 3
			}
			k := 0
			want := 1 + r.Intn(5)
			hd := byte(0)
			var pl []byte
			pl = append(pl, 0)
			if kind > 24 { // decoding order number
				pl = append(pl, randBytes(r, 2)...)
			}
			for k < want && i+k < len(nals) && size+per+len(nals[i+k]) <= limit && len(nals[i+k]) <= 65535 {
				u := nals[i+k]
				pl = append(pl, byte(len(u)>>8), byte(len(u)))
				pl = append(pl, randBytes(r, per-2)...) // its difference and time offset
				pl = append(pl, u...)
				size += per + len(u)
				hd = max(hd&0x60, u[0]&0x60) | (hd|u[0])&0x80
				k++
			}
			if k == 0 {
				continue
			}
			pl[0] = hd | byte(kind)
			out = append(out, pkt{payload: pl, marker: r.Intn(2) == 0, done: nals[i : i+k]})
			*notes = append(*notes, fmt.Sprintf("%s(%d)", []string{"STAP-A", "STAP-B", "MTAP16", "MTAP24"}[kind-24], k))
			i += k
		case m == 1 && len(n) >= 2 || len(n) > limit: // FU-A
			fuB := r.Intn(6) == 0 // the first fragment with a decoding order number
			lim := limit - 2
			if fuB {
				lim -= 2
			}
			fs := fragments(r, n[1:], lim)
			for j, f := range fs {
				h := n[0] & 0x1f
				if j == 0 {
					h |= 0x80
				}
				if j == len(fs)-1 {
					h |= 0x40
				}
				p := pkt{payload: append([]byte{n[0]&0xe0 | 28, h}, f...)}
				if j == 0 && fuB {
					p.payload = append(append([]byte{n[0]&0xe0 | 29, h}, randBytes(r, 2)...), f...)
				}
				if j == len(fs)-1 {
					p.marker = r.Intn(2) == 0
					p.done = nals[i : i+1]
				}
				out = append(out, p)
			}
			*notes = append(*notes, fmt.Sprintf("FU-%c(%d/%d)", map[bool]rune{true: 'B', false: 'A'}[fuB], len(n), len(fs)))
			i++
		case m == 2 || len(n) < 2:
			out = append(out, pkt{payload: append([]byte(nil), n...), marker: r.Intn(2) == 0, done: nals[i : i+1]})
			*notes = append(*notes, fmt.Sprintf("single(%d)", len(n)))
			i++
		}
	}
	return out
}

func pack265(r *rand.Rand, nals [][]byte, limit int, notes *[]string) []pkt {
	var out []pkt
	for i := 0; i < len(nals); {
		n := nals[i]
		switch m := r.Intn(3); {
		case m == 0: // AP
			size := 2
			k := 0
			want := 1 + r.Intn(5)
			pl := []byte{48 << 1, 0}
			tid, lid := byte(7), byte(63)
			for k < want && i+k < len(nals) && size+2+len(nals[i+k]) <= limit && len(nals[i+k]) <= 65535 {
				u := nals[i+k]
				pl = append(pl, byte(len(u)>>8), byte(len(u)))
				pl = append(pl, u...)
				size += 2 + len(u)
				pl[0] |= u[0] & 0x80
				l := u[0]&1<<5 | u[1]>>3
				lid = min(lid, l)
				tid = min(tid, u[1]&7)
				k++
			}
			if k == 0 {
				continue
			}
			pl[0] |= lid >> 5
			pl[1] = lid<<3 | tid
			out = append(out, pkt{payload: pl, marker: r.Intn(2) == 0, done: nals[i : i+k]})
			*notes = append(*notes, fmt.Sprintf("AP(%d)", k))
			i += k
		case m == 1 && len(n) >= 3 || len(n) > limit: // FU
			fs := fragments(r, n[2:], limit-3)
			for j, f := range fs {
				h := n[0] >> 1 & 0x3f
				if j == 0 {
					h |= 0x80
				}
				if j == len(fs)-1 {
					h |= 0x40
				}
				p := pkt{payload: append([]byte{n[0]&0x81 | 49<<1, n[1], h}, f...)}
				if j == len(fs)-1 {
					p.marker = r.Intn(2) == 0
					p.done = nals[i : i+1]
				}
				out = append(out, p)
			}
			*notes = append(*notes, fmt.Sprintf("FU(%d/%d)", len(n), len(fs)))
			i++
		case m == 2 || len(n) < 3:
			out = append(out, pkt{payload: append([]byte(nil), n...), marker: r.Intn(2) == 0, done: nals[i : i+1]})
			*notes = append(*notes, fmt.Sprintf("single(%d)", len(n)))
			i++
		}
	}
	return out
}

func packSimple(r *rand.Rand, n, maxSize int) []pkt {
	var out []pkt
	for i := 0; i < n; i++ {
		b := texture(r, randBytes(r, genSize(r, 1, maxSize)))
		out = append(out, pkt{payload: b, marker: r.Intn(2) == 0, done: [][]byte{b}})
		for r.Intn(8) == 0 {
			out = append(out, pkt{payload: b, marker: r.Intn(2) == 0, done: [][]byte{b}})
		}
	}
	return out
}

func packMark(r *rand.Rand, n, maxSize int, notes *[]string) []pkt {
	var out []pkt
	for i := 0; i < n; i++ {
		k := 1 + r.Intn(5)
		var whole []byte
		for j := 0; j < k; j++ {
			b := texture(r, randBytes(r, genSize(r, 1, maxSize)))
			if j > 0 && r.Intn(8) == 0 {
				b = nil // the marker may come in a packet of its own
			}
			whole = append(whole, b...)
			out = append(out, pkt{payload: b, marker: j == k-1})
		}
		out[len(out)-1].done = [][]byte{whole}
		*notes = append(*notes, fmt.Sprintf("frame(%d/%d)", len(whole), k))
	}
	return out
}

// trackPackets makes about n units for a codec. small keeps them small.
func trackPackets(r *rand.Rand, codec string, n, maxSize, limit int, notes *[]string) []pkt {
	switch strings.ToUpper(codec) {
	case "H264":
		var ns [][]byte
		for i := 0; i < n; i++ {
			ns = append(ns, nal264(r, genSize(r, 1, maxSize)))
		}
		return pack264(r, again(r, ns), limit, notes)
	case "H265", "HEVC":
		var ns [][]byte
		for i := 0; i < n; i++ {
			ns = append(ns, nal265(r, genSize(r, 2, maxSize)))
		}
		return pack265(r, again(r, ns), limit, notes)
	case "BBW":
		return packMark(r, n, min(maxSize, limit), notes)
	}
	return packSimple(r, n, min(maxSize, limit))
}

// hdrGen hands out consecutive RTP headers of one track.
type hdrGen struct {
	h rtpHdr
}

func newHdrGen(r *rand.Rand) *hdrGen {
	h := plainHdr()
	h.pt = byte(r.Intn(128))
	h.seq = uint16(r.Intn(65536))
	h.ts = r.Uint32()
	h.ssrc = r.Uint32()
	switch r.Intn(12) { // the ends of the ranges
	case 0:
		h.ssrc = []uint32{0, 0xffffffff, 1, 0x80000000}[r.Intn(4)]
	case 1:
		h.ts = []uint32{0, 0xffffffff, 0x7fffffff, 0xffffffff - 2000}[r.Intn(4)]
	case 2:
		h.seq = []uint16{0, 65535, 65530, 32767}[r.Intn(4)]
	case 3:
		h.ssrc, h.ts, h.seq, h.pt = 0, 0, 0, []byte{0, 127}[r.Intn(2)]
	}
	return &hdrGen{h}
}

func (g *hdrGen) next(p pkt) rtpHdr {
	h := g.h
	h.marker = p.marker
	g.h.seq++
	if p.marker {
		g.h.ts += 3000
	}
	return h
}
