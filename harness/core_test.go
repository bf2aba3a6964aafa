package vharness

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// prop is one property check: a fixed list of cases per tier and the function that
// runs one case and judges it.
type prop struct {
	id       string
	level    string // evidence level
	quick    int    // number of cases
	thorough int
	bubble   bool // run on a virtual clock (synctest)
	race     bool // run the race-detector build
	rule     string
	min      map[string]int64 // counters that must be reached, else inconclusive
	run      func(c *Ctx)
	assume   []string
}

var props = map[string]*prop{}

func register(p *prop) {
	if p.level == "" {
		p.level = "exploration"
	}
	props[p.id] = p
}

// Ctx is one case.
type Ctx struct {
	R       *rand.Rand
	Prop    string
	Idx     int
	Tier    string
	mu      sync.Mutex
	w       *worker
	sig     []byte
	nontriv bool
	nviol   int
	desc    []string
}

type violation struct {
	Prop    string   `json:"property"`
	Idx     int      `json:"case"`
	Seed    int64    `json:"seed"`
	Tier    string   `json:"tier"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"what"`
	Desc    []string `json:"case_description,omitempty"`
	Witness string   `json:"witness,omitempty"`
}

// Violate records a violation at once (the process may not survive the case).
func (c *Ctx) Violate(kind, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nviol++
	if c.nviol > 3 {
		return
	}
	c.w.record(violation{Prop: c.Prop, Idx: c.Idx, Seed: c.w.seed, Tier: c.Tier, Kind: kind,
		Msg: clip(fmt.Sprintf(format, a...), 6000), Desc: append([]string(nil), c.desc...)})
}

func (c *Ctx) Violated() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.nviol > 0 }

// Desc adds a line describing the case, kept in the replay file and used as a sample.
func (c *Ctx) Desc(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.desc) < 60 {
		c.desc = append(c.desc, clip(fmt.Sprintf(format, a...), 1500))
	}
}

// Sig adds to the case's signature and marks it non-trivial.
func (c *Ctx) Sig(a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nontriv = true
	c.sig = fmt.Appendf(c.sig, "%v|", a)
	if len(c.sig) > 1<<16 {
		h := fnv.New64a()
		h.Write(c.sig)
		c.sig = binary.BigEndian.AppendUint64(nil, h.Sum64())
	}
}

// Count adds to an observation counter.
func (c *Ctx) Count(name string, n int) {
	c.w.cmu.Lock()
	c.w.counters[name] += int64(n)
	c.w.cmu.Unlock()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(" + strconv.Itoa(len(s)) + " bytes)"
	}
	return s
}

type worker struct {
	p        *prop
	seed     int64
	tier     string
	shard    int
	shards   int
	only     int
	from     int
	n        int
	out      *os.File
	omu      sync.Mutex
	journal  *os.File
	cmu      sync.Mutex
	counters map[string]int64
	sigs     map[uint64]struct{}
	raceSeen map[string]bool
	evals    int64
	nontriv  int64
	samples  []string

	cur      atomic.Int64
	curCPU   atomic.Int64
	curWall  atomic.Int64
	curDone  atomic.Bool
	curDescF atomic.Value
}

func (w *worker) record(v violation) {
	b, _ := json.Marshal(map[string]any{"violation": v})
	w.omu.Lock()
	w.out.Write(append(b, '\n'))
	w.omu.Unlock()
}

type result struct {
	Evals    int64            `json:"evals"`
	Nontriv  int64            `json:"nontriv"`
	Counters map[string]int64 `json:"counters"`
	Sigs     []string         `json:"sigs"`
	Samples  []string         `json:"samples"`
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// realNow returns wall-clock nanoseconds even inside a bubble.
func realNow() int64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return tv.Nano()
}

func TestWorker(t *testing.T) {
	if os.Getenv("VH_ROLE") != "worker" {
		t.Skip()
	}
	p := props[os.Getenv("VH_PROP")]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(3)
	}
	w := &worker{p: p, seed: int64(envInt("VH_SEED", 1)), tier: os.Getenv("VH_TIER"), shard: envInt("VH_SHARD", 0),
		shards: envInt("VH_SHARDS", 1), only: envInt("VH_ONLY", -1), from: envInt("VH_FROM", 0), n: envInt("VH_N", 0),
		counters: map[string]int64{}, sigs: map[uint64]struct{}{}, raceSeen: map[string]bool{}}
	var err error
	if w.out, err = os.OpenFile(os.Getenv("VH_OUT"), os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if w.journal, err = os.OpenFile(os.Getenv("VH_JOURNAL"), os.O_WRONLY|os.O_CREATE, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go w.watchdog()
	go func() {
		for f := range outsideF {
			f()
			outsideDone <- struct{}{}
		}
	}()
	if p.bubble {
		synctest.Test(t, func(t *testing.T) {
			w.loop()
			w.finish()
			os.Exit(0) // leaked goroutines, if any, were judged by the monitors
		})
	} else {
		w.loop()
		w.finish()
		os.Exit(0)
	}
}

// outside runs f on the real clock although the case runs in a bubble.
func outside(f func()) {
	outsideF <- f
	<-outsideDone
}

var outsideF, outsideDone = make(chan func()), make(chan struct{})

// lockedSource lets server goroutines and the case share one generator.
type lockedSource struct {
	mu sync.Mutex
	s  rand.Source64
}

func (l *lockedSource) Int63() int64    { l.mu.Lock(); defer l.mu.Unlock(); return l.s.Int63() }
func (l *lockedSource) Uint64() uint64  { l.mu.Lock(); defer l.mu.Unlock(); return l.s.Uint64() }
func (l *lockedSource) Seed(seed int64) { l.mu.Lock(); defer l.mu.Unlock(); l.s.Seed(seed) }

func caseSeed(prop string, seed int64, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	return int64(h.Sum64())
}

func (w *worker) loop() {
	for i := 0; i < w.n; i++ {
		if w.only >= 0 {
			if i != w.only {
				continue
			}
		} else if i%w.shards != w.shard || i < w.from {
			continue
		}
		w.runCase(i)
	}
}

func (w *worker) runCase(i int) {
	c := &Ctx{R: rand.New(&lockedSource{s: rand.NewSource(caseSeed(w.p.id, w.seed, i)).(rand.Source64)}), Prop: w.p.id, Idx: i, Tier: w.tier, w: w}
	w.curDescF.Store(func() []string { c.mu.Lock(); defer c.mu.Unlock(); return append([]string(nil), c.desc...) })
	w.curCPU.Store(cpuNanos())
	w.curWall.Store(realNow())
	w.cur.Store(int64(i))
	w.journal.WriteAt(fmt.Appendf(nil, "%-20d", i), 0)
	w.p.run(c)
	if w.p.race {
		for _, v := range raceReports(os.Getenv("VH_RACE")+"."+strconv.Itoa(os.Getpid()), w.raceSeen) {
			v.Prop, v.Idx, v.Seed, v.Tier = w.p.id, i, w.seed, w.tier
			v.Desc = append([]string(nil), c.desc...)
			w.record(v)
		}
	}
	w.evals++
	if c.nontriv {
		w.nontriv++
		h := fnv.New64a()
		h.Write(c.sig)
		w.sigs[h.Sum64()] = struct{}{}
		if len(w.samples) < 2 {
			w.samples = append(w.samples, fmt.Sprintf("case %d: %s", i, strings.Join(c.desc, " ; ")))
		}
	}
}

func (w *worker) finish() {
	w.curDone.Store(true)
	r := result{Evals: w.evals, Nontriv: w.nontriv, Counters: w.counters, Samples: w.samples}
	for s := range w.sigs {
		r.Sigs = append(r.Sigs, strconv.FormatUint(s, 36))
	}
	sort.Strings(r.Sigs)
	b, _ := json.Marshal(map[string]any{"result": r})
	w.omu.Lock()
	w.out.Write(append(b, '\n'))
	w.omu.Unlock()
}

const libPath = "NodeBoy2/rtspclient"

func allStacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

// watchdog runs outside the bubble. It decides on processor time and on goroutine states, not on deadlines:
// a case that burns far more processor time than any correct run, or a process in which no goroutine can run.
func (w *worker) watchdog() {
	cpuLimit := int64(60e9)
	for {
		time.Sleep(2 * time.Second)
		if w.curDone.Load() {
			return
		}
		cur := w.cur.Load()
		var ms runtime.MemStats
		if w.curWall.Load() == 0 {
			continue
		}
		kind := ""
		used := cpuNanos() - w.curCPU.Load()
		if used > cpuLimit {
			kind = "livelock"
		}
		if used > 3e9 {
			runtime.ReadMemStats(&ms)
			if ms.HeapInuse > 5<<30 {
				kind = "unbounded-memory"
			}
		}
		if kind == "" && realNow()-w.curWall.Load() > 45e9 {
			// stuck? no goroutine other than this one may be running or runnable, twice in a row
			stuck := true
			for k := 0; k < 3 && stuck; k++ {
				if k > 0 {
					time.Sleep(4 * time.Second)
				}
				stuck = w.cur.Load() == cur && !w.curDone.Load() && allBlocked(allStacks())
			}
			if stuck {
				kind = "deadlock"
			}
		}
		if kind == "" || w.cur.Load() != cur || w.curDone.Load() {
			continue
		}
		st := allStacks()
		if !strings.Contains(st, libPath) {
			fmt.Fprintf(os.Stderr, "VH-INTERNAL %s without library frames\n%s", kind, clip(st, 20000))
			os.Exit(4)
		}
		v := violation{Prop: w.p.id, Idx: int(cur), Seed: w.seed, Tier: w.tier, Kind: kind,
			Msg: fmt.Sprintf("case never finishes (%s): cpu %.0fs", kind, float64(used)/1e9), Witness: clip(libStacks(st), 12000)}
		if f, ok := w.curDescF.Load().(func() []string); ok {
			v.Desc = f()
		}
		w.record(v)
		os.Exit(5)
	}
}

func splitStacks(st string) []string { return strings.Split(strings.TrimSpace(st), "\n\n") }

func libStacks(st string) string {
	var out []string
	for _, g := range splitStacks(st) {
		if strings.Contains(g, libPath) {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

func allBlocked(st string) bool {
	for i, g := range splitStacks(st) {
		if i == 0 {
			continue // this goroutine
		}
		hd, _, _ := strings.Cut(g, "\n")
		if strings.Contains(hd, "[running") || strings.Contains(hd, "[runnable") || strings.Contains(hd, "[syscall") ||
			strings.Contains(hd, "[sleep") && !strings.Contains(hd, "synctest") {
			return false
		}
	}
	return true
}

func readLines(path string) []string {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []string
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<28)
	for s.Scan() {
		out = append(out, s.Text())
	}
	return out
}
