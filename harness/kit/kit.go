// Package kit is the common part of all checks: verdicts, evidence, randomness, and the doubles of
// the library's providers through which the checks observe it.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// C is one run of one check.
type C struct {
	T    *testing.T
	ID   string
	Tier string
	Seed uint64

	level, rule string
	root        string
	start       time.Time

	evals    atomic.Int64
	progress atomic.Int64
	mu       sync.Mutex
	distinct map[uint64]struct{}
	samples  []any
	auto     []string // some cases, kept if there are no better samples
	kinds    map[string]bool
	extra    map[string]int64
	require  map[string]int64
	viol     map[string]*violation
	order    []string
	nviol    int64
	known    map[string]string // signature -> description, from the known-findings file
	seen     map[string]int64  // known findings observed
	inconcl  []string
	assume   []string
}

type violation struct {
	sig    string
	detail string
	count  int64
}

// Root is the directory of the framework.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Scratch returns a new directory for files of this run, removed by the runner.
func Scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "w")
	if err != nil {
		panic(err)
	}
	return d
}

// Run runs a check and reports its verdict.
func Run(t *testing.T, id, level, rule string, f func(c *C)) {
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &C{
		T: t, ID: id, Tier: tier, Seed: seed, level: level, rule: rule, root: Root(), start: time.Now(),
		distinct: map[uint64]struct{}{}, kinds: map[string]bool{}, extra: map[string]int64{}, require: map[string]int64{},
		viol: map[string]*violation{}, known: map[string]string{}, seen: map[string]int64{},
	}
	c.loadKnown()
	stop := c.watchdog()
	c.Guard("check", func() { f(c) })
	stop()
	c.races()
	c.finish()
}

func (c *C) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: property="+c.ID+" sig=")
		if !ok {
			continue
		}
		sig, what, _ := strings.Cut(rest, " ")
		c.known[sig] = what
	}
}

// N picks the size of a workload by tier.
func (c *C) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Thorough tells whether this is a thorough run.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Rand returns a generator that depends on the run's seed and the labels only.
func (c *C) Rand(labels ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, c.ID, "|")
	for _, l := range labels {
		fmt.Fprint(h, l, "|")
	}
	return rand.New(rand.NewPCG(c.Seed, h.Sum64()))
}

// Eval counts cases evaluated by the oracle.
func (c *C) Eval(n int) {
	c.evals.Add(int64(n))
	c.progress.Add(1)
}

// Distinct records a non-trivial case by its description; equal ones count once.
func (c *C) Distinct(parts ...any) {
	c.progress.Add(1)
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	s := h.Sum64()
	c.mu.Lock()
	c.distinct[s] = struct{}{}
	c.mu.Unlock()
}

// Case is an evaluation of a non-trivial case.
func (c *C) Case(parts ...any) {
	if n := c.evals.Add(1); n >= 16 && n&(n-1) == 0 {
		var text []string
		for _, p := range parts {
			switch p := p.(type) {
			case []byte:
				text = append(text, Short(p))
			case string:
				text = append(text, fmt.Sprintf("%q", p))
			default:
				text = append(text, fmt.Sprintf("%+v", p))
			}
		}
		s := strings.Join(text, " ")
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.mu.Lock()
		c.auto = append(c.auto, s)
		c.mu.Unlock()
	}
	c.Distinct(parts...)
}

// Sample keeps a few cases for the evidence file.
func (c *C) Sample(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 8 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// SampleEvery keeps one case of each kind.
func (c *C) SampleEvery(kind string, format string, args ...any) {
	c.mu.Lock()
	full := len(c.samples) >= 8 || c.kinds[kind]
	c.kinds[kind] = true
	c.mu.Unlock()
	if !full {
		c.Sample(format, args...)
	}
}

// Count adds to a named counter of the evidence file.
func (c *C) Count(name string, n int64) {
	c.progress.Add(1)
	c.mu.Lock()
	c.extra[name] += n
	c.mu.Unlock()
}

// Require makes the run inconclusive if the counter ends below min.
func (c *C) Require(name string, min int64) {
	c.mu.Lock()
	c.require[name] = min
	c.mu.Unlock()
}

// Assume notes an assumption in the evidence file.
func (c *C) Assume(s string) { c.assume = append(c.assume, s) }

// Inconclusive records that a part of the run gave no answer.
func (c *C) Inconclusive(format string, args ...any) {
	c.mu.Lock()
	c.inconcl = append(c.inconcl, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

// Violate reports a violation. The signature says what kind of case failed; only signatures listed
// in the known-findings file are not violations.
func (c *C) Violate(sig string, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[sig]; ok {
		c.seen[sig]++
		return
	}
	c.nviol++
	v := c.viol[sig]
	if v == nil {
		if len(c.viol) >= 40 {
			return
		}
		v = &violation{sig: sig, detail: fmt.Sprintf(format, args...)}
		c.viol[sig] = v
		c.order = append(c.order, sig)
	}
	v.count++
}

// Known tells whether the known-findings file lists a signature with the prefix.
func (c *C) Known(prefix string) bool {
	for sig := range c.known {
		if strings.HasPrefix(sig, prefix) {
			return true
		}
	}
	return false
}

// Full tells that enough violations were found to stop.
func (c *C) Full() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol > 200
}

// LibraryError is panicked with where the library fails in the preparation of a case.
type LibraryError struct{ Msg string }

// Guard runs f. A panic that comes out of the library is a violation, one of the harness is passed
// on. It tells whether f panicked.
func (c *C) Guard(name string, f func()) (panicked bool) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if r := recover(); r != nil {
			// The harness does nothing unsafe: memory that is not there was handed out by the library.
			if e, ok := r.(interface{ Addr() uintptr }); ok {
				panicked = true
				c.Violate("memory:"+name, "a result of the library is in memory that is gone or cannot be written: %v at %#x\n%s", r, e.Addr(), debug.Stack())
				return
			}
			if e, ok := r.(LibraryError); ok {
				panicked = true
				c.Violate("setup-failed", "%s\n%s", e.Msg, debug.Stack())
				return
			}
			stack := string(debug.Stack())
			if !libraryPanic(stack) {
				panic(fmt.Sprintf("harness panic: %v\n%s", r, stack))
			}
			panicked = true
			c.Violate("panic:"+name, "the library panicked: %v\n%s", r, stack)
		}
	}()
	f()
	return
}

// libraryPanic tells whether the innermost frame of the harness or the library below the panic
// belongs to the library.
func libraryPanic(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		return false
	}
	for _, line := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(line, "github.com/cybercryptio/d1-lib/") {
			return true
		}
		if strings.HasPrefix(line, "verif/harness") {
			return false
		}
	}
	return false
}

// Parallel runs f for 0..n-1 on all cores.
func (c *C) Parallel(name string, n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < min(runtime.GOMAXPROCS(0), n); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Full() {
					return
				}
				c.Guard(name, func() { f(i) })
				c.progress.Add(1)
			}
		}()
	}
	wg.Wait()
}

// Limits of the watchdog. The longest time without progress on the unchanged tree is in the evidence
// files.
const (
	maxHeap    = 14 << 30          // bytes in use
	maxCPU     = 150 * time.Second // processor time (of all cores) without any progress
	maxStalled = 90 * time.Second  // without any progress and any use of the processor
)

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watchdog ends the run if calls of the library do not end, block for ever or use up the memory.
// Without a call of the library that can be to blame there is no answer.
func (c *C) watchdog() (stop func()) {
	done := make(chan struct{})
	abort := func(sig, why string) {
		stacks := make([]byte, 1<<22)
		stacks = stacks[:runtime.Stack(stacks, true)]
		for _, g := range strings.Split(string(stacks), "\n\n") {
			if i := strings.Index(g, "\ngithub.com/cybercryptio/d1-lib/"); i >= 0 {
				c.Violate(sig, "%s, in this call:\n%s", why, g)
				c.finish()
				os.Exit(1)
			}
		}
		c.Inconclusive("%s", why)
		c.finish()
		os.Exit(2)
	}
	go func() {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		last, cpu, idle := c.progress.Load(), cpuTime(), time.Duration(0)
		lastCPU := cpu
		tick := 250 * time.Millisecond
		for {
			select {
			case <-done:
				return
			case <-time.After(tick):
			}
			metrics.Read(sample)
			if sample[0].Value.Uint64() > maxHeap {
				runtime.GC()
				metrics.Read(sample)
				if n := sample[0].Value.Uint64(); n > maxHeap {
					abort("memory", fmt.Sprintf("%d bytes are in use", n))
				}
			}
			now := cpuTime()
			if n := c.progress.Load(); n != last {
				last, cpu, idle = n, now, 0
			}
			if now-lastCPU < tick/50 {
				idle += tick
			} else {
				idle = 0
			}
			lastCPU = now
			gap := (now - cpu).Milliseconds()
			c.mu.Lock()
			c.extra["longest_cpu_ms_without_progress"] = max(c.extra["longest_cpu_ms_without_progress"], gap)
			c.mu.Unlock()
			if now-cpu > time.Duration(c.N(1, 4))*maxCPU {
				abort("hang", fmt.Sprintf("%v of processor time without any result", now-cpu))
			}
			if idle > maxStalled {
				abort("deadlock", fmt.Sprintf("nothing happened in %v", idle))
			}
		}
	}()
	return func() { close(done) }
}

// Watch makes calls that do not return, and heaps that grow without bound, violations. begin registers
// a call; the function it returns ends it.
func (c *C) Watch(limit time.Duration, heap uint64) (begin func(describe func() string) (end func())) {
	type call struct {
		start    time.Time
		describe func() string
	}
	var mu sync.Mutex
	calls := map[int64]call{}
	var next int64
	abort := func(sig string, why string) {
		mu.Lock()
		var oldest call
		for _, x := range calls {
			if oldest.describe == nil || x.start.Before(oldest.start) {
				oldest = x
			}
		}
		mu.Unlock()
		what := "no call"
		if oldest.describe != nil {
			what = oldest.describe()
		}
		stacks := make([]byte, 1<<16)
		c.Violate(sig, "%s: %s\n%s", why, what, stacks[:runtime.Stack(stacks, true)])
		c.finish()
		os.Exit(1)
	}
	go func() {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(200 * time.Millisecond)
			metrics.Read(sample)
			if sample[0].Value.Uint64() > heap {
				runtime.GC()
				metrics.Read(sample)
				if n := sample[0].Value.Uint64(); n > heap {
					abort("memory", fmt.Sprintf("%d bytes are in use", n))
				}
			}
			mu.Lock()
			late := false
			for _, x := range calls {
				late = late || time.Since(x.start) > limit
			}
			mu.Unlock()
			if late {
				abort("hang", fmt.Sprintf("a call did not return within %v", limit))
			}
		}
	}()
	return func(describe func() string) func() {
		mu.Lock()
		defer mu.Unlock()
		next++
		n := next
		calls[n] = call{time.Now(), describe}
		return func() {
			mu.Lock()
			defer mu.Unlock()
			delete(calls, n)
		}
	}
}

// races reads what the race detector wrote, in runs that are compiled with it.
func (c *C) races() {
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_SCRATCH"), "race.*"))
	if os.Getenv("VERIF_SCRATCH") == "" {
		return
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, report := range strings.Split(string(b), "==================") {
			if !strings.Contains(report, "WARNING: DATA RACE") {
				continue
			}
			// Only the stacks of the two accesses count, not where the goroutines were created.
			access, _, _ := strings.Cut(report, "Goroutine ")
			i := strings.Index(access, "github.com/cybercryptio/d1-lib/")
			if i < 0 {
				c.Inconclusive("a data race outside the library: %s", report)
				continue
			}
			frame, _, _ := strings.Cut(access[i:], "(")
			c.Violate("race:"+frame, "%s", report)
		}
	}
}

func (c *C) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	wall := time.Since(c.start).Seconds()
	for name, min := range c.require {
		if c.extra[name] < min {
			c.inconcl = append(c.inconcl, fmt.Sprintf("only %d %s were observed, at least %d are needed", c.extra[name], name, min))
		}
	}
	if c.evals.Load() == 0 {
		c.inconcl = append(c.inconcl, "nothing was evaluated")
	}

	for i := len(c.auto) - 1; i >= 0 && len(c.samples) < 6; i-- {
		c.samples = append(c.samples, strings.ToValidUTF8(c.auto[i], "?"))
	}
	cov := map[string]any{
		"evaluations":         c.evals.Load(),
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.seen) > 0 {
		cov["known_findings_observed"] = c.seen
	}
	if len(c.inconcl) > 0 {
		cov["inconclusive"] = c.inconcl
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.level, "coverage": cov,
		"wall_s": wall, "violations": c.nviol,
	}
	if c.assume != nil {
		ev["assumptions"] = c.assume
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	dir := filepath.Join(c.root, "evidence")
	os.MkdirAll(filepath.Join(dir, "replays"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		panic(err)
	}

	var sigs []string
	for sig := range c.seen {
		sigs = append(sigs, sig)
	}
	sort.Strings(sigs)
	for _, sig := range sigs {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, c.known[sig])
	}
	fmt.Printf("\n%s: %d evaluations, %d distinct, %.1fs\n", c.ID, c.evals.Load(), len(c.distinct), wall)

	if len(c.order) > 0 {
		path := filepath.Join(dir, "replays", fmt.Sprintf("%s-%s-%d.txt", c.ID, c.Tier, c.Seed))
		var s strings.Builder
		fmt.Fprintf(&s, "property %s\nrerun: VERIF_SEED=%d VERIF_TIER=%s bash %s/check.sh %s\n\n", c.ID, c.Seed, c.Tier, c.root, c.ID)
		for _, sig := range c.order {
			fmt.Fprintf(&s, "== %s (%d times)\n%s\n\n", sig, c.viol[sig].count, c.viol[sig].detail)
		}
		os.WriteFile(path, []byte(s.String()), 0o644)
		for i, sig := range c.order {
			if i == 5 {
				break
			}
			d := c.viol[sig].detail
			if len(d) > 600 {
				d = d[:600] + "..."
			}
			fmt.Printf("  %s: %s\n", sig, d)
		}
		fmt.Printf("\nVIOLATION property=%s replay=%s\n", c.ID, path)
		c.T.Fail()
		return
	}
	if len(c.inconcl) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", c.ID, strings.Join(c.inconcl, "; "))
		c.T.Fail()
	}
}
