// Package mon is what the monitors report to: it counts what was observed,
// keeps samples, records violations with a replay file, separates the known
// findings, and writes the evidence.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// T is the run of one check.
type T struct {
	Prop, Tier, Level string
	Seed              int64
	Rule              string
	Assumptions       []string

	dir   string // /verif
	out   io.Writer
	start time.Time

	steps    int64 // for the watchdog
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	samples  []interface{}
	viols    []violation
	known    map[string]string // key -> description, listed for this property
	seen     map[string]bool
}

type violation struct {
	Class  string      `json:"class"`
	What   string      `json:"what"`
	Replay interface{} `json:"replay"`
}

// Finding is one entry of known-findings.json.
type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func New(dir, prop, tier string, seed int64, out io.Writer) *T {
	t := &T{Prop: prop, Tier: tier, Seed: seed, Level: "exploration", dir: dir, out: out, start: time.Now(),
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, known: map[string]string{}, seen: map[string]bool{}}
	var kf struct {
		Findings []Finding `json:"findings"`
	}
	if b, err := os.ReadFile(filepath.Join(dir, "known-findings.json")); err == nil {
		_ = json.Unmarshal(b, &kf)
	}
	for _, f := range kf.Findings {
		if f.Property == prop {
			t.known[f.Key] = f.What
		}
	}
	go t.watch()
	return t
}

// watch ends a run in which FaVe hangs. All goroutines being blocked shows in
// the processor time the process uses; a loop without end shows in a single
// step taking a hundred times what any step takes.
func (t *T) watch() {
	type mark struct {
		ops int64
		cpu time.Duration
		at  time.Time
	}
	last := mark{-1, 0, time.Now()}
	for {
		time.Sleep(3 * time.Second)
		ops := atomic.LoadInt64(&t.steps)
		if ops != last.ops {
			last = mark{ops, cpuTime(), time.Now()}
			continue
		}
		idle := time.Since(last.at)
		what := ""
		if idle > 60*time.Second && cpuTime()-last.cpu < idle/16 {
			what = "deadlock: FaVe does not answer, and every goroutine is blocked"
		} else if idle > 420*time.Second {
			what = "an operation does not end"
		}
		if what == "" {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if !FromFaVe(string(buf)) {
			fmt.Fprintf(os.Stderr, "harness hangs\n%s", buf)
			os.Exit(2)
		}
		t.Violate("hang", string(buf), "%s", what)
		os.Exit(t.Finish())
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Step tells the watchdog that something was done.
func (t *T) Step() { atomic.AddInt64(&t.steps, 1) }

func (t *T) Thorough() bool { return t.Tier == "thorough" }

// N picks a workload size by tier.
func (t *T) N(quick, thorough int) int {
	if t.Thorough() {
		return thorough
	}
	return quick
}

// Eval records one judged observation. key identifies it for the distinct
// count; trivial observations have an empty key.
func (t *T) Eval(kind, key string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.evals++
	t.Step()
	t.counts[kind]++
	if key != "" {
		h := fnv.New64a()
		_, _ = h.Write([]byte(kind))
		_, _ = h.Write([]byte{0})
		_, _ = h.Write([]byte(key))
		t.distinct[h.Sum64()] = struct{}{}
	}
}

// Count is a measured number that is not a verdict (events, faults injected).
func (t *T) Count(name string, n int64) {
	t.Step()
	t.mu.Lock()
	t.counts[name] += n
	t.mu.Unlock()
}

func (t *T) Max(name string, n int64) {
	t.mu.Lock()
	if n > t.counts[name] {
		t.counts[name] = n
	}
	t.mu.Unlock()
}

// Sample keeps an actual case for the evidence (the first few).
func (t *T) Sample(s interface{}) {
	t.mu.Lock()
	if len(t.samples) < 6 {
		t.samples = append(t.samples, s)
	}
	t.mu.Unlock()
}

// Violate records that the property was seen broken.
func (t *T) Violate(class string, replay interface{}, format string, a ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.viols) < 20 || os.Getenv("VERIF_ALL") != "" {
		t.viols = append(t.viols, violation{class, fmt.Sprintf(format, a...), replay})
	}
}

func (t *T) Violations() int { t.mu.Lock(); defer t.mu.Unlock(); return len(t.viols) }

// Known reports a failure that has its own scenario: a listed one is printed
// as a known finding, any other is a violation.
func (t *T) Known(key string, replay interface{}, format string, a ...interface{}) {
	t.mu.Lock()
	what, ok := t.known[key]
	if ok && !t.seen[key] {
		t.seen[key] = true
		fmt.Fprintf(t.out, "KNOWN-FINDING: property=%s %s\n", t.Prop, what)
	}
	t.mu.Unlock()
	if !ok {
		t.Violate("unlisted:"+key, replay, format, a...)
	}
}

// Par runs n seeded cases on all cores. A panic that reaches the caller is a
// violation when FaVe is on its stack.
func (t *T) Par(name string, n int, f func(i int, r *rand.Rand)) {
	t.ParW(name, n, runtime.NumCPU(), f)
}

func (t *T) ParW(name string, n, workers int, f func(i int, r *rand.Rand)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if t.Violations() >= t.MaxViol() {
					continue // enough to report
				}
				t.guard(fmt.Sprintf("%s/%d", name, i), func() { f(i, t.Rand(name, i)) })
				t.Step()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Rand is the generator of one case: the seed, the name and the index decide it.
func (t *T) Rand(name string, i int) *rand.Rand {
	h := fnv.New64a()
	_, _ = fmt.Fprintf(h, "%d/%s/%d", t.Seed, name, i)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

func (t *T) guard(name string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if FromFaVe(st) {
				t.Violate("panic", map[string]string{"case": name, "stack": st}, "panic in %s: %v", name, p)
				return
			}
			panic(fmt.Sprintf("harness: %v\n%s", p, st))
		}
	}()
	f()
}

// FromFaVe tells whether a stack has a frame of the code under test.
func FromFaVe(stack string) bool { return strings.Contains(stack, "fairDataSociety/FaVe") }

// Finish prints the verdict, writes the evidence and returns the exit code.
func (t *T) Finish() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	cov := map[string]interface{}{
		"evaluations":         t.evals,
		"distinct_nontrivial": len(t.distinct),
		"rule":                t.Rule,
		"samples":             t.samples,
		"observed":            t.counts,
	}
	if t.samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": t.Prop, "tier": t.Tier, "seed": t.Seed, "level": t.Level, "coverage": cov,
		"assumptions": t.Assumptions, "wall_s": time.Since(t.start).Seconds(), "violations": len(t.viols),
	}
	_ = os.MkdirAll(filepath.Join(t.dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(t.dir, "evidence", t.Prop+".json"), append(b, '\n'), 0o644)
	keys := make([]string, 0, len(t.counts))
	for k := range t.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Fprintf(t.out, "%s %s seed=%d: %d evaluations, %d distinct, %.1fs\n", t.Prop, t.Tier, t.Seed, t.evals, len(t.distinct), time.Since(t.start).Seconds())
	for _, k := range keys {
		fmt.Fprintf(t.out, "  observed %s=%d\n", k, t.counts[k])
	}
	if len(t.viols) == 0 {
		return 0
	}
	rd := filepath.Join(t.dir, "evidence", "replay")
	_ = os.MkdirAll(rd, 0o755)
	path := filepath.Join(rd, t.Prop+".json")
	b, err := json.MarshalIndent(map[string]interface{}{"property": t.Prop, "tier": t.Tier, "seed": t.Seed, "violations": t.viols}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%+v", t.viols))
	}
	_ = os.WriteFile(path, b, 0o644)
	for i, v := range t.viols {
		if i == 8 {
			break
		}
		fmt.Fprintf(t.out, "  [%s] %s\n", v.Class, v.What)
	}
	fmt.Fprintf(t.out, "VIOLATION property=%s replay=%s\n", t.Prop, path)
	return 1
}

// MaxViol is how many violations end a run.
func (t *T) MaxViol() int {
	if os.Getenv("VERIF_ALL") != "" {
		return 1 << 30
	}
	return 5
}
