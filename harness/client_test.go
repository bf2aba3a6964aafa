package vharness

import (
	"errors"
	"fmt"
	"hash/fnv"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

// client wraps a session and records everything it reports, at its boundary.
type client struct {
	s       *rtspclient.RtspClientSession
	mu      sync.Mutex
	cond    *sync.Cond
	log     []entry
	bad     []string
	onEvent func(e *rtspclient.RtspEvent)
	onData  func(d *rtspclient.RtspData)
	keep    bool // keep references to delivered buffers
}

type entry struct {
	event int // -1: data
	ch    int
	data  []byte // copy taken in the callback
	ref   []byte // the delivered buffer itself
	at    time.Time
}

func newClient() *client {
	c := &client{}
	c.cond = sync.NewCond(&c.mu)
	c.s = rtspclient.NewRtspClientSession(c.data, c.event)
	return c
}

func (c *client) data(d *rtspclient.RtspData) {
	c.mu.Lock()
	if d == nil {
		c.bad = append(c.bad, "nil data")
		c.mu.Unlock()
		return
	}
	if d.Session != c.s {
		c.bad = append(c.bad, "data labelled with another session")
	}
	e := entry{event: -1, ch: d.ChannelNum, data: append([]byte(nil), d.Data...), at: time.Now()}
	if c.keep {
		e.ref = d.Data
	}
	c.log = append(c.log, e)
	f := c.onData
	c.cond.Broadcast()
	c.mu.Unlock()
	if f != nil {
		f(d)
	}
}

func (c *client) event(e *rtspclient.RtspEvent) {
	c.mu.Lock()
	if e == nil {
		c.bad = append(c.bad, "nil event")
		c.mu.Unlock()
		return
	}
	if e.Session != c.s {
		c.bad = append(c.bad, "event labelled with another session")
	}
	c.log = append(c.log, entry{event: e.EventType, at: time.Now()})
	f := c.onEvent
	c.cond.Broadcast()
	c.mu.Unlock()
	if f != nil {
		f(e)
	}
}

func (c *client) entries() []entry {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]entry(nil), c.log...)
}

func (c *client) events() []int {
	var out []int
	for _, e := range c.entries() {
		if e.event >= 0 {
			out = append(out, e.event)
		}
	}
	return out
}

func (c *client) countEvent(k int) int {
	n := 0
	for _, e := range c.events() {
		if e == k {
			n++
		}
	}
	return n
}

func (c *client) channel(ch int) [][]byte {
	var out [][]byte
	for _, e := range c.entries() {
		if e.event < 0 && e.ch == ch {
			out = append(out, e.data)
		}
	}
	return out
}

func (c *client) nData() int {
	n := 0
	for _, e := range c.entries() {
		if e.event < 0 {
			n++
		}
	}
	return n
}

func (c *client) badNotes() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return strings.Join(c.bad, "; ")
}

func evName(k int) string {
	switch k {
	case rtspclient.RtspEventRequestSuccess:
		return "success"
	case rtspclient.RtspEventRequestError:
		return "error"
	case rtspclient.RtspEventDisconnected:
		return "disconnected"
	}
	return fmt.Sprint("event", k)
}

func evNames(ks []int) string {
	var s []string
	for _, k := range ks {
		s = append(s, evName(k))
	}
	return strings.Join(s, ",")
}

const testURL = "rtsp://10.1.2.3:8554/live/ch1"

var errNoReturn = errors.New("call did not return")

// await runs f and waits for it on the virtual clock.
func await(d time.Duration, f func() error) error {
	ch := make(chan error, 1)
	go func() { ch <- f() }()
	select {
	case e := <-ch:
		return e
	case <-time.After(d):
		return errNoReturn
	}
}

// awaitTimed is await that also reports how long the call took.
func awaitTimed(d time.Duration, f func() error) (time.Duration, error) {
	t0 := time.Now()
	e := await(d, f)
	return time.Since(t0), e
}

const longWait = 120 * time.Second

func (c *client) play(conn net.Conn, url string) error {
	return await(longWait, func() error {
		if err := c.s.ParsingURL(url); err != nil {
			return err
		}
		return c.s.SetConnection(conn)
	})
}

// waitEvent waits until k events of the type were seen.
func (c *client) waitEvent(kind, k int, d time.Duration) bool {
	return c.waitFor(d, func() bool {
		n := 0
		for _, e := range c.log {
			if e.event == kind {
				n++
			}
		}
		return n >= k
	})
}

func (c *client) waitData(n int, d time.Duration) bool {
	return c.waitFor(d, func() bool {
		k := 0
		for _, e := range c.log {
			if e.event < 0 {
				k++
			}
		}
		return k >= n
	})
}

// waitFor waits on the clock of the bubble until f (called with c.mu held) is true.
func (c *client) waitFor(d time.Duration, f func() bool) bool {
	expired := false
	t := time.AfterFunc(d, func() { c.mu.Lock(); expired = true; c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	c.mu.Lock()
	defer c.mu.Unlock()
	for !f() {
		if expired {
			return false
		}
		c.cond.Wait()
	}
	return true
}

// end finishes a session from the server side and waits for its report; it keeps cases from affecting each other.
func (c *client) end(sc rwc) {
	n := c.countEvent(rtspclient.RtspEventDisconnected)
	sc.Close()
	if n == 0 {
		c.waitEvent(rtspclient.RtspEventDisconnected, 1, 30*time.Second)
	}
}

func hash64(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x(%d)", b, len(b))
}

func diffBufs(got, want [][]byte) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("item %d of %d missing: want %s", i, len(want), short(want[i]))
		case i >= len(want):
			return fmt.Sprintf("extra item %d (want %d items): got %s", i, len(want), short(got[i]))
		case string(got[i]) != string(want[i]):
			return fmt.Sprintf("item %d differs: got %s want %s", i, short(got[i]), short(want[i]))
		}
	}
	return ""
}
