package vharness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type shardOut struct {
	viol     []violation
	res      *result
	internal string
}

var (
	stopOnce sync.Once
	stopCh   = make(chan struct{})
)

func parentMain() int {
	args := os.Args[1:]
	base := os.Getenv("VH_VERIF") // where evidence and replay files go
	if base == "" {
		base = "/verif"
	}
	if args[0] == "list" {
		var ids []string
		for id, p := range props {
			b := "plain"
			if p.race {
				b = "race"
			}
			ids = append(ids, id+" "+b)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return 0
	}
	only := -1
	seed := envInt("VERIF_SEED", 1)
	tier := "quick"
	id := args[0]
	if args[0] == "replay" {
		var v violation
		b, err := os.ReadFile(args[1])
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		id, only, seed, tier = v.Prop, v.Idx, int(v.Seed), v.Tier
	} else if len(args) > 1 {
		tier = args[1]
	}
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	n := p.quick
	if tier == "thorough" {
		n = p.thorough
	}
	if v := envInt("VH_CASES", 0); v > 0 {
		n = v
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vh")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	shards := envInt("VH_PAR", 8)
	if only >= 0 || n < shards {
		shards = 1
	}
	outs := make([]shardOut, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = runShard(base, tmp, p, tier, seed, i, shards, only, n)
			if _, un := matchKnown(base, outs[i].viol); len(un) > 0 && os.Getenv("VH_ALL") == "" {
				stopOnce.Do(func() { close(stopCh) })
			}
		}(i)
	}
	wg.Wait()

	var viol []violation
	tot := result{Counters: map[string]int64{}}
	sigs := map[string]struct{}{}
	internal := ""
	for _, o := range outs {
		viol = append(viol, o.viol...)
		if o.internal != "" {
			internal += o.internal + "\n"
		}
		if o.res != nil {
			tot.Evals += o.res.Evals
			tot.Nontriv += o.res.Nontriv
			for k, v := range o.res.Counters {
				tot.Counters[k] += v
			}
			for _, s := range o.res.Sigs {
				sigs[s] = struct{}{}
			}
			if len(tot.Samples) < 4 {
				tot.Samples = append(tot.Samples, o.res.Samples...)
			}
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Idx < viol[j].Idx })

	known, unlisted := matchKnown(base, viol)
	cov := map[string]any{
		"evaluations": tot.Evals, "distinct_nontrivial": len(sigs), "rule": p.rule,
		"samples": tot.Samples, "observed": tot.Counters, "shards": shards, "cases_in_tier": n,
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
		"assumptions": append([]string{"verdict covers the executions listed, no more"}, p.assume...),
		"wall_s":      float64(time.Since(start).Milliseconds()) / 1000, "violations": len(unlisted)}
	if only < 0 {
		os.MkdirAll(filepath.Join(base, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(base, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, k := range known {
		fmt.Println("KNOWN-FINDING: property=" + id + " " + k)
	}
	if len(unlisted) > 0 {
		os.MkdirAll(filepath.Join(base, "replay"), 0o755)
		v := unlisted[0]
		path := filepath.Join(base, "replay", fmt.Sprintf("%s-%d.json", id, v.Idx))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		for i, u := range unlisted {
			if i >= 5 {
				break
			}
			fmt.Printf("%s case %d [%s]: %s\n", u.Prop, u.Idx, u.Kind, strings.ToValidUTF8(clip(u.Msg, 1500), "?"))
			if u.Witness != "" {
				fmt.Println(strings.ToValidUTF8(clip(u.Witness, 3000), "?"))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if internal != "" {
		fmt.Fprintln(os.Stderr, "INTERNAL ERROR (no verdict):", clip(internal, 20000))
		return 2
	}
	if only < 0 {
		var keys []string
		for k := range p.min {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if os.Getenv("VH_CASES") == "" {
			for _, k := range keys {
				if tot.Counters[k] < p.min[k] {
					fmt.Fprintf(os.Stderr, "INCONCLUSIVE: observed %s=%d, need %d\n", k, tot.Counters[k], p.min[k])
					return 3
				}
			}
		}
	}
	obs := make([]string, 0)
	for k, v := range tot.Counters {
		obs = append(obs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(obs)
	fmt.Printf("%s held on %d executions (%d distinct non-trivial), observed: %s [%.1fs]\n", id, tot.Evals, len(sigs),
		strings.Join(obs, " "), time.Since(start).Seconds())
	return 0
}

func runShard(base, tmp string, p *prop, tier string, seed, shard, shards, only, n int) shardOut {
	var o shardOut
	outF := filepath.Join(tmp, fmt.Sprintf("out%d", shard))
	jF := filepath.Join(tmp, fmt.Sprintf("journal%d", shard))
	raceF := filepath.Join(tmp, fmt.Sprintf("race%d", shard))
	from := 0
	for restart := 0; restart < 40; restart++ {
		cmd := exec.Command(os.Args[0], "-test.run=^TestWorker$", "-test.timeout=0", "-test.count=1")
		cmd.Dir = tmp
		cmd.Env = append(os.Environ(), "VH_ROLE=worker", "VH_PROP="+p.id, "VH_SEED="+strconv.Itoa(seed), "VH_TIER="+tier,
			"VH_SHARD="+strconv.Itoa(shard), "VH_SHARDS="+strconv.Itoa(shards), "VH_ONLY="+strconv.Itoa(only),
			"VH_FROM="+strconv.Itoa(from), "VH_N="+strconv.Itoa(n), "VH_OUT="+outF, "VH_RACE="+raceF, "VH_JOURNAL="+jF, "GOTRACEBACK=all",
			"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+raceF)
		if os.Getenv("GOMEMLIMIT") == "" {
			cmd.Env = append(cmd.Env, "GOMEMLIMIT=2GiB")
		}
		var stderr bytes.Buffer
		cmd.Stdout = &capWriter{b: &stderr, max: 1 << 20}
		cmd.Stderr = cmd.Stdout
		if err := cmd.Start(); err != nil {
			o.internal = err.Error()
			return o
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var werr error
		// Generous wall-clock guard; its firing is inconclusive, never a violation.
		limit := 800 * time.Second
		if tier == "thorough" {
			limit = 6 * time.Hour
		}
		select {
		case werr = <-done:
		case <-stopCh:
			cmd.Process.Kill()
			<-done
			o.parse(outF)
			return o
		case <-time.After(limit):
			cmd.Process.Kill()
			<-done
			o.internal = "worker exceeded its wall-clock guard"
			return o
		}
		o.parse(outF)
		o.races(p, raceF, seed, tier)
		if o.res != nil {
			return o
		}
		jb, _ := os.ReadFile(jF)
		cur, jerr := strconv.Atoi(strings.TrimSpace(string(jb)))
		stop := func() bool { // a violation that is not a listed finding ends the shard
			_, un := matchKnown(base, o.viol)
			return len(un) > 0 && os.Getenv("VH_ALL") == ""
		}
		if jerr == nil && len(o.viol) > 0 && o.viol[len(o.viol)-1].Idx == cur {
			if stop() || only >= 0 {
				return o // already recorded (watchdog, or a violation before the crash)
			}
			from = cur + 1
			os.Remove(outF)
			continue
		}
		es := stderr.String()
		if jerr != nil {
			o.internal = fmt.Sprintf("worker ended without a verdict: %v\n%s", werr, clip(es, 8000))
			return o
		}
		kind, wit := classifyDeath(es, werr)
		if kind == "" {
			o.internal = fmt.Sprintf("worker died in case %d: %v\n%s", cur, werr, clip(es, 8000))
			return o
		}
		o.viol = append(o.viol, violation{Prop: p.id, Idx: cur, Seed: int64(seed), Tier: tier, Kind: kind,
			Msg: "the client process ended: " + firstLine(wit), Witness: clip(wit, 8000)})
		if stop() || only >= 0 {
			return o
		}
		from = cur + 1
		os.Remove(outF)
	}
	return o
}

type capWriter struct {
	b   *bytes.Buffer
	max int
}

func (w *capWriter) Write(p []byte) (int, error) {
	if w.b.Len()+len(p) > w.max { // keep the beginning: it holds the panicking goroutine
		if room := w.max - w.b.Len(); room > 0 {
			w.b.Write(p[:room])
		}
		return len(p), nil
	}
	return w.b.Write(p)
}

func firstLine(s string) string { a, _, _ := strings.Cut(s, "\n"); return a }

var frameRe = regexp.MustCompile(`(?m)^([A-Za-z0-9_./*()\-·{}\[\]]+)\(`)

// classifyDeath decides whether the death of a worker is the doing of the code under test: the first frame of the
// failing goroutine that belongs to either the library or the harness decides.
func classifyDeath(es string, werr error) (string, string) {
	i := -1
	for _, m := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds", "SIGSEGV"} {
		if k := strings.Index(es, m); k >= 0 && (i < 0 || k < i) {
			i = k
		}
	}
	if i < 0 {
		if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() > 0 && ee.ExitCode() != 3 && ee.ExitCode() != 4 &&
			!strings.Contains(es, "VH-INTERNAL") {
			return "process-exit", fmt.Sprintf("os.Exit(%d) without panic\n%s", ee.ExitCode(), clip(es, 3000))
		}
		return "", ""
	}
	w := es[i:]
	g := strings.Index(w, "\ngoroutine ")
	if g < 0 {
		return "", ""
	}
	body := w[g+1:]
	if e := strings.Index(body, "\n\n"); e >= 0 {
		body = body[:e]
	}
	for _, line := range strings.Split(body, "\n") {
		if strings.HasPrefix(line, "\t") || strings.HasPrefix(line, "created by") || strings.HasPrefix(line, "goroutine ") {
			continue
		}
		if strings.Contains(line, libPath) {
			return "crash", w
		}
		if strings.HasPrefix(line, "vharness.") || strings.HasPrefix(line, "testing") {
			return "", ""
		}
	}
	if strings.Contains(body, libPath) {
		return "crash", w
	}
	return "", ""
}

func (o *shardOut) parse(f string) {
	for _, l := range readLines(f) {
		var x struct {
			Violation *violation `json:"violation"`
			Result    *result    `json:"result"`
		}
		if json.Unmarshal([]byte(l), &x) != nil {
			continue
		}
		if x.Violation != nil {
			o.viol = append(o.viol, *x.Violation)
		}
		if x.Result != nil {
			o.res = x.Result
		}
	}
}

// races collects reports of a worker that died before it could attribute them to a case, and those about the harness.
func (o *shardOut) races(p *prop, pre string, seed int, tier string) {
	if !p.race {
		return
	}
	seen := map[string]bool{}
	for _, v := range o.viol {
		seen[v.Msg] = true
	}
	files, _ := filepath.Glob(pre + ".*")
	for _, f := range files {
		for _, v := range raceReports(f, seen) {
			v.Prop, v.Seed, v.Tier = p.id, int64(seed), tier
			if len(o.viol) > 0 {
				v.Idx = o.viol[len(o.viol)-1].Idx
			}
			o.viol = append(o.viol, v)
		}
		if b, _ := os.ReadFile(f); len(o.viol) == 0 && bytes.Contains(b, []byte("WARNING: DATA RACE")) {
			o.internal = "race inside the harness:\n" + clip(string(b), 6000)
		}
		os.Remove(f)
	}
}

// raceReports returns the reports in a race detector log that concern the library, one for each pair of places.
func raceReports(file string, seen map[string]bool) (out []violation) {
	b, _ := os.ReadFile(file)
	for _, rep := range strings.Split(string(b), "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		key, lib := raceKey(rep)
		msg := "data race: " + key
		if !lib || seen[msg] {
			continue
		}
		seen[msg] = true
		out = append(out, violation{Kind: "data-race", Msg: msg, Witness: strings.TrimSpace(rep)})
	}
	return
}

var raceAccess = regexp.MustCompile(`(?m)^(?:  )?(?:Read|Write|Previous read|Previous write|Atomic|Previous atomic)[^\n]*at [^\n]*:\n`)

// raceKey returns the pair of innermost own functions of the two accesses (library or harness; the standard library
// and third parties act for their caller) and whether the library is involved. A buffer of the application
// (ownBuffer) that two goroutines got is the library's doing.
func raceKey(rep string) (string, bool) {
	var keys []string
	lib := false
	for _, sec := range raceAccess.Split(rep, -1)[1:] {
		sec, _, _ = strings.Cut(sec, "\n\n")
		k := "?"
		for _, l := range strings.Split(sec, "\n") {
			l = strings.TrimSpace(l)
			if strings.Contains(l, ".go:") {
				continue
			}
			if strings.Contains(l, libPath) {
				k, lib = l, true
				break
			}
			if strings.Contains(l, "vharness.") {
				k = l
				lib = lib || strings.Contains(l, "vharness.ownBuffer")
				break
			}
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return strings.Join(keys, " <-> "), lib
}

// matchKnown splits violations into listed findings and new ones. The file holds lines
// "finding: property=<ID> match=<regexp> <description>"; lines starting with "fixed:" suppress nothing.
func matchKnown(base string, viol []violation) (known []string, unlisted []violation) {
	type kf struct {
		re   *regexp.Regexp
		desc string
		id   string
	}
	var fs []kf
	for _, l := range readLines(filepath.Join(base, "KNOWN_FINDINGS.txt")) {
		m := regexp.MustCompile(`^finding: property=(\S+) match=(\S+) (.*)$`).FindStringSubmatch(l)
		if m != nil {
			if re, err := regexp.Compile(m[2]); err == nil {
				fs = append(fs, kf{re, m[3], m[1]})
			}
		}
	}
	seen := map[string]bool{}
next:
	for _, v := range viol {
		for _, f := range fs {
			if f.id == v.Prop && f.re.MatchString(v.Kind+": "+v.Msg) {
				if !seen[f.desc] {
					seen[f.desc] = true
					known = append(known, f.desc)
				}
				continue next
			}
		}
		unlisted = append(unlisted, v)
	}
	return
}
