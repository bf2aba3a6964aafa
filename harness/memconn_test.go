package vharness

import (
	"errors"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// memConn is an in-memory duplex byte stream with a scheduler of its own: it decides how many bytes each read
// returns, when, and when the stream ends or fails. All waiting is on sync.Cond, so it is visible to synctest.
type half struct {
	mu      sync.Mutex
	cond    *sync.Cond
	segs    [][]byte // written segments, in order
	size    int
	total   int   // bytes ever written
	limit   int   // capacity; writers wait when full (0: unbounded)
	eof     bool  // writer closed
	rerr    error // reader error once drained
	dead    bool  // reader closed: writes fail
	stalled bool  // reader side does not read: writers wait (fault)
}

func newHalf() *half {
	h := &half{}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// chunker decides how many of avail bytes a read of at most want bytes returns; seg is the length of the first
// pending segment.
type chunker func(want, avail, seg int) int

func chunkAll(want, avail, seg int) int { return min(want, avail) }
func chunkOne(want, avail, seg int) int { return 1 }
func chunkSeg(want, avail, seg int) int { return min(want, seg) }
func chunkRand(r *rand.Rand, maxn int) chunker {
	return func(want, avail, seg int) int { return min(want, avail, 1+r.Intn(maxn)) }
}
func chunkMix(r *rand.Rand) chunker {
	return func(want, avail, seg int) int {
		switch r.Intn(5) {
		case 0:
			return 1
		case 1:
			return min(want, avail)
		case 2:
			return min(want, seg)
		case 3:
			return min(want, avail, 1+r.Intn(5))
		}
		return min(want, avail, 1+r.Intn(2000))
	}
}

func pickChunker(r *rand.Rand) (chunker, string) {
	r = rand.New(rand.NewSource(r.Int63())) // the chunker runs in other goroutines
	switch r.Intn(6) {
	case 0:
		return chunkAll, "all"
	case 1:
		return chunkOne, "one"
	case 2:
		return chunkSeg, "seg"
	case 3:
		return chunkRand(r, 7), "rand7"
	case 4:
		return chunkRand(r, 3000), "rand3000"
	}
	return chunkMix(r), "mix"
}

type memConn struct {
	in, out *half
	chunk   chunker
	delay   func() time.Duration // virtual delay before a read returns data
	zero    func() bool          // a read may return nothing at all, without an error
	name    string

	// atomics, used with the race detector looking away: the two directions of a connection must not look
	// synchronised with each other when the library does not do it
	closed    atomic.Bool
	writes    atomic.Int64
	wrote     atomic.Int64
	rdl, wdl  atomic.Int64 // nanoseconds, 0: none
	wErrAfter int          // fail writes after that many bytes (-1: never)
	mu        sync.Mutex
	closes    int
	rdlT      *time.Timer
	wdlT      *time.Timer
	onClose   func()
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

// newPair returns the client end and the server end of a connection.
func newPair() (*memConn, *memConn) {
	a, b := newHalf(), newHalf()
	c := &memConn{in: a, out: b, chunk: chunkAll, name: "client", wErrAfter: -1}
	s := &memConn{in: b, out: a, chunk: chunkAll, name: "server", wErrAfter: -1}
	return c, s
}

var errInjected = errors.New("injected transport error")

func (c *memConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	h := c.in
	h.mu.Lock()
	for {
		if c.isClosed() {
			h.mu.Unlock()
			return 0, net.ErrClosed
		}
		if c.expired(true) {
			h.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if h.size > 0 {
			break
		}
		if h.rerr != nil {
			e := h.rerr
			h.mu.Unlock()
			return 0, e
		}
		if h.eof {
			h.mu.Unlock()
			return 0, io.EOF
		}
		h.cond.Wait()
	}
	if c.delay != nil {
		if d := c.delay(); d > 0 {
			h.mu.Unlock()
			time.Sleep(d)
			h.mu.Lock()
			if c.isClosed() {
				h.mu.Unlock()
				return 0, net.ErrClosed
			}
		}
	}
	if c.zero != nil && c.zero() {
		h.mu.Unlock()
		return 0, nil
	}
	n := c.chunk(len(p), h.size, len(h.segs[0]))
	if n < 1 {
		n = 1
	}
	got := 0
	for got < n && len(h.segs) > 0 {
		k := copy(p[got:n], h.segs[0])
		got += k
		if k == len(h.segs[0]) {
			h.segs = h.segs[1:]
		} else {
			h.segs[0] = h.segs[0][k:]
		}
	}
	h.size -= got
	h.cond.Broadcast()
	h.mu.Unlock()
	return got, nil
}

func (c *memConn) Write(p []byte) (int, error) {
	raceOff()
	c.writes.Add(1)
	w := int(c.wrote.Load())
	raceOn()
	ea := c.wErrAfter
	if ea >= 0 && w+len(p) > ea {
		n := max(0, ea-w)
		c.push(p[:n])
		return n, errInjected
	}
	return c.push(p)
}

func (c *memConn) push(p []byte) (int, error) {
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	done := 0
	for done < len(p) {
		for {
			if c.isClosed() {
				return done, net.ErrClosed
			}
			if c.expired(false) {
				return done, os.ErrDeadlineExceeded
			}
			if h.dead {
				return done, errors.New("broken pipe")
			}
			if !h.stalled && (h.limit == 0 || h.size < h.limit) {
				break
			}
			h.cond.Wait()
		}
		k := len(p) - done
		if h.limit > 0 {
			k = min(k, h.limit-h.size)
		}
		h.segs = append(h.segs, append([]byte(nil), p[done:done+k]...))
		h.size += k
		h.total += k
		done += k
		raceOff()
		c.wrote.Add(int64(k))
		raceOn()
		h.cond.Broadcast()
	}
	return done, nil
}

func (c *memConn) isClosed() bool {
	raceOff()
	defer raceOn()
	return c.closed.Load()
}

func (c *memConn) Close() error {
	c.mu.Lock()
	c.closes++
	first := c.closed.CompareAndSwap(false, true)
	f := c.onClose
	c.mu.Unlock()
	if !first {
		return net.ErrClosed
	}
	c.out.mu.Lock()
	c.out.eof = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
	c.in.mu.Lock()
	c.in.dead = true
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	if f != nil {
		f()
	}
	return nil
}

// closeWrite ends the stream in this end's sending direction only.
func (c *memConn) closeWrite() {
	c.out.mu.Lock()
	c.out.eof = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// failPeerRead makes the peer's reads fail with err once pending bytes are consumed.
func (c *memConn) failPeerRead(err error) {
	c.out.mu.Lock()
	c.out.rerr = err
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// stall makes writes of the peer wait (as a full socket buffer does) until unstalled.
func (c *memConn) stall(v bool) {
	c.in.mu.Lock()
	c.in.stalled = v
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

func (c *memConn) expired(read bool) bool {
	raceOff()
	d := c.wdl.Load()
	if read {
		d = c.rdl.Load()
	}
	raceOn()
	return d != 0 && time.Now().UnixNano() >= d
}

func (c *memConn) closeCount() int { c.mu.Lock(); defer c.mu.Unlock(); return c.closes }

func (c *memConn) pending() int { c.in.mu.Lock(); defer c.in.mu.Unlock(); return c.in.size }

func (c *memConn) setDL(t time.Time, read bool) {
	ns := int64(0)
	if !t.IsZero() {
		ns = t.UnixNano()
	}
	c.mu.Lock()
	tm := &c.wdlT
	h := c.out
	if read {
		tm = &c.rdlT
		h = c.in
		c.rdl.Store(ns)
	} else {
		c.wdl.Store(ns)
	}
	if *tm != nil {
		(*tm).Stop()
		*tm = nil
	}
	wake := func() { h.mu.Lock(); h.cond.Broadcast(); h.mu.Unlock() }
	if !t.IsZero() {
		*tm = time.AfterFunc(time.Until(t), wake)
	}
	c.mu.Unlock()
	wake()
}

func (c *memConn) LocalAddr() net.Addr                { return memAddr(c.name) }
func (c *memConn) RemoteAddr() net.Addr               { return memAddr("peer-of-" + c.name) }
func (c *memConn) SetDeadline(t time.Time) error      { c.setDL(t, true); c.setDL(t, false); return nil }
func (c *memConn) SetReadDeadline(t time.Time) error  { c.setDL(t, true); return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error { c.setDL(t, false); return nil }

// write that never waits and ignores a closed peer; used by the server side.
func (c *memConn) put(b []byte) bool { _, err := c.Write(b); return err == nil }
