package vharness

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"
)

// fakeDNS answers the lookups of this process: the names that were given an
// address have it, all others do not exist.
type fakeDNS struct {
	once  sync.Once
	mu    sync.Mutex
	names map[string]net.IP
}

var dns fakeDNS

// set gives a name an address for the time being.
func (d *fakeDNS) set(name string, ip net.IP) {
	d.once.Do(func() {
		d.names = map[string]net.IP{}
		net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
			a, b := net.Pipe() // no packet connection: queries come with their length in front
			go d.serve(b)
			return a, nil
		}}
	})
	d.mu.Lock()
	d.names[strings.ToLower(strings.TrimSuffix(name, "."))] = ip
	d.mu.Unlock()
}

func (d *fakeDNS) drop(name string) {
	d.mu.Lock()
	delete(d.names, strings.ToLower(strings.TrimSuffix(name, ".")))
	d.mu.Unlock()
}

func (d *fakeDNS) serve(c net.Conn) {
	defer c.Close()
	for {
		var l [2]byte
		if _, err := io.ReadFull(c, l[:]); err != nil {
			return
		}
		q := make([]byte, binary.BigEndian.Uint16(l[:]))
		if _, err := io.ReadFull(c, q); err != nil || len(q) < 17 {
			return
		}
		// the question: labels, type, class
		var labels []string
		i := 12
		for i < len(q) && q[i] != 0 {
			n := int(q[i])
			if i+1+n >= len(q) {
				return
			}
			labels = append(labels, string(q[i+1:i+1+n]))
			i += 1 + n
		}
		if i+5 > len(q) {
			return
		}
		typ := binary.BigEndian.Uint16(q[i+1:])
		d.mu.Lock()
		ip := d.names[strings.ToLower(strings.Join(labels, "."))]
		d.mu.Unlock()
		a := append([]byte(nil), q[:i+5]...)
		a[2], a[3] = 0x84|q[2]&1, 0x80
		copy(a[4:12], []byte{0, 1, 0, 0, 0, 0, 0, 0})
		switch {
		case ip == nil:
			a[3] |= 3
		case typ == 1 && ip.To4() != nil, typ == 28 && ip.To4() == nil:
			a[7] = 1
			b := ip.To4()
			if b == nil {
				b = ip
			}
			a = append(a, 0xc0, 12, byte(typ>>8), byte(typ), 0, 1, 0, 0, 0, 0, 0, byte(len(b)))
			a = append(a, b...)
		}
		out := append([]byte{byte(len(a) >> 8), byte(len(a))}, a...)
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}
