// Package mon is the runtime-monitoring framework: deterministic workloads, oracles over observed
// executions, evidence counted from what was really observed, and three-valued verdicts
// (violated / held on what was observed / inconclusive).
package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID     string
	Race   bool             // run under the Go race detector
	Rule   string           // how cases are made and what makes one non-trivial
	Floor  map[string]int64 // counters that must reach these values or the run is inconclusive
	Run    func(c *Ctx)
	Assume []string
}

var Checks = map[string]*Check{}

func Register(c *Check) {
	if _, ok := Checks[c.ID]; ok {
		panic("duplicate " + c.ID)
	}
	Checks[c.ID] = c
}

type Violation struct {
	Sig     string `json:"sig"` // stable identity: section + failing input class
	Section string `json:"section"`
	Msg     string `json:"msg"`
	Case    int64  `json:"case"`
	Stack   string `json:"stack,omitempty"`
}

type Result struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct"`
	Samples     []string         `json:"samples"`
	Counters    map[string]int64 `json:"counters"`
	Sections    []string         `json:"sections"`
	Violations  []Violation      `json:"violations"`
	Inconcl     []string         `json:"inconclusive"`
}

type Ctx struct {
	Prop    string
	Tier    string
	Seed    int64
	Scratch string
	only    string
	section string

	mu    sync.Mutex
	res   Result
	seen  map[uint64]struct{}
	sampN map[string]int
	casen int64
	stop  map[string]bool

	events int64 // observed events, for Watch
}

func NewCtx(prop, tier string, seed int64, scratch, only string) *Ctx {
	return &Ctx{Prop: prop, Tier: tier, Seed: seed, Scratch: scratch, only: only,
		seen: map[uint64]struct{}{}, sampN: map[string]int{}, stop: map[string]bool{},
		res: Result{Counters: map[string]int64{}}}
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N scales a quick case count for the thorough tier.
func (c *Ctx) N(quick int) int {
	if c.Thorough() {
		return quick * 12
	}
	return quick
}

// N2 picks explicit counts.
func (c *Ctx) N2(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func fnv64(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// Rand gives the PRNG of one named stream: a function of the seed and the name only.
func (c *Ctx) Rand(name string) *rand.Rand {
	return rand.New(rand.NewSource(int64(fnv64(fmt.Sprintf("%d/%s/%s", c.Seed, c.Prop, name)))))
}

// Section runs one named workload with its own PRNG. A panic inside it is a violation.
func (c *Ctx) Section(name string, f func(r *rand.Rand)) {
	if c.only != "" && !strings.HasPrefix(name, c.only) {
		return
	}
	c.section = name
	c.mu.Lock()
	c.res.Sections = append(c.res.Sections, name)
	c.casen = 0
	c.mu.Unlock()
	c.Guard("section "+name, func() { f(c.Rand(name)) })
	c.Flush()
}

// Guard runs f, turning a panic into a violation.
func (c *Ctx) Guard(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, is := r.(stopSection); is {
				_ = s
				return
			}
			st := string(debug.Stack())
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(stopSection); !is {
						panic(x)
					}
				}
			}()
			c.violate("panic:"+PanicSite(st), fmt.Sprintf("%s panicked: %v", what, r), st)
		}
	}()
	f()
	return true
}

type stopSection struct{}

// PanicSite names the innermost go-common function in a stack trace.
func PanicSite(st string) string {
	i := strings.Index(st, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(st[i:], "\n") {
		if strings.HasPrefix(l, "github.com/ThinkiumGroup/go-common") {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return strings.TrimPrefix(l, "github.com/ThinkiumGroup/go-common")
		}
	}
	return "harness"
}

// Case records one evaluated case; key identifies it (distinctness); nontrivial by the check's rule.
func (c *Ctx) Case(nontrivial bool, key string) {
	atomic.AddInt64(&c.events, 1)
	c.mu.Lock()
	c.res.Evaluations++
	c.casen++
	if nontrivial {
		h := fnv64(c.section + "|" + key)
		if _, ok := c.seen[h]; !ok {
			if len(c.seen) < 4000000 {
				c.seen[h] = struct{}{}
			}
			c.res.Distinct++
			if c.sampN[c.section] < 2 {
				c.sampN[c.section]++
				if len(key) > 400 {
					key = key[:400] + "…"
				}
				c.res.Samples = append(c.res.Samples, c.section+": "+key)
			}
		}
	}
	c.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (c *Ctx) Count(name string, n int64) {
	atomic.AddInt64(&c.events, 1)
	c.mu.Lock()
	c.res.Counters[name] += n
	c.mu.Unlock()
}

// Violate records a violation of the property.
func (c *Ctx) Violate(sig, format string, args ...interface{}) {
	c.violate(sig, fmt.Sprintf(format, args...), "")
}

func (c *Ctx) violate(sig, msg, st string) {
	c.mu.Lock()
	if len(msg) > 6000 {
		msg = msg[:6000] + "…"
	}
	n := 0
	for _, v := range c.res.Violations {
		if v.Sig == sig {
			n++
		}
	}
	if n < 3 && len(c.res.Violations) < 60 {
		c.res.Violations = append(c.res.Violations, Violation{Sig: sig, Section: c.section, Msg: msg, Case: c.casen, Stack: st})
	}
	c.res.Counters["violations_raised"]++
	over := c.res.Counters["violations_raised"] > 400
	c.mu.Unlock()
	if over {
		c.Flush()
		panic(stopSection{})
	}
}

// Check is Violate unless ok.
func (c *Ctx) Check(ok bool, sig, format string, args ...interface{}) bool {
	if !ok {
		c.Violate(sig, format, args...)
	}
	return ok
}

// Inconclusive records that the run could not decide.
func (c *Ctx) Inconclusive(format string, args ...interface{}) {
	c.mu.Lock()
	c.res.Inconcl = append(c.res.Inconcl, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.res.Violations)
}

var flushMu sync.Mutex

// Flush writes the partial result (so that a crash keeps what was observed).
func (c *Ctx) Flush() {
	flushMu.Lock()
	defer flushMu.Unlock()
	c.mu.Lock()
	b, _ := json.MarshalIndent(&c.res, "", " ")
	c.mu.Unlock()
	p := filepath.Join(c.Scratch, "result.json")
	_ = os.WriteFile(p+".tmp", b, 0o644)
	_ = os.Rename(p+".tmp", p)
}

// CPU returns the CPU time this process has used.
func CPU() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Within runs a bounded workload and demands that it finishes. The decision is not a wall-clock one:
// it fires when the workload's goroutines are all parked on synchronisation (no CPU used between two
// samples far apart and the goroutine dump names a blocked frame of the code under test), or when
// the workload burned cpuLimit of CPU. Returns false if it did not finish.
func (c *Ctx) Within(what string, cpuLimit time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Guard(what, f)
	}()
	start := CPU()
	idle := 0
	last := CPU()
	for {
		select {
		case <-done:
			return true
		case <-time.After(2 * time.Second):
		}
		now := CPU()
		if now-last < 20*time.Millisecond {
			idle++
		} else {
			idle = 0
		}
		last = now
		if idle >= 8 {
			st := allStacks()
			if blk := blockedFrame(st); blk != "" {
				c.violate("stuck:"+blk, what+": no goroutine makes progress; blocked in "+blk, trim(st, 20000))
				return false
			}
		}
		if idle >= 90 {
			c.Inconclusive("%s: idle with no blocked frame of the code under test", what)
			return false
		}
		if now-start > cpuLimit {
			st := allStacks()
			c.violate("spin:"+what, what+": bounded workload did not finish within its CPU budget of "+cpuLimit.String(), trim(st, 20000))
			return false
		}
	}
}

// Watch guards a whole run against calls that never return: it reports a harness goroutine that sits
// in a call of the code under test while nothing progresses, once the process has been idle for long
// (blocked) or has burned much CPU (spinning) without a single observed event.
func (c *Ctx) Watch() {
	const spinCPU = 150 * time.Second
	var lastEv int64
	idle, last, since := 0, CPU(), CPU()
	for {
		time.Sleep(2 * time.Second)
		ev, now := atomic.LoadInt64(&c.events), CPU()
		if ev != lastEv {
			lastEv, idle, last, since = ev, 0, now, now
			continue
		}
		if now-last < 20*time.Millisecond {
			idle++
		} else {
			idle = 0
		}
		last = now
		sig := ""
		if idle >= 15 {
			sig = "stuck"
		} else if now-since > spinCPU {
			sig = "spin"
		}
		if sig == "" {
			continue
		}
		st := allStacks()
		blk := callFrame(st, sig == "spin")
		if blk == "" {
			idle, since = 0, now
			continue
		}
		func() {
			defer func() { _ = recover() }()
			c.violate(sig+":"+blk, fmt.Sprintf("no event observed any more: a call of %s does not return", blk), trim(st, 20000))
		}()
		c.Flush()
		os.Exit(0)
	}
}

// callFrame finds a goroutine of the harness that is inside the code under test, parked on a
// synchronisation object or (spinning) runnable, and returns the function it called.
func callFrame(st string, spinning bool) string {
	for _, g := range strings.Split(st, "\n\n") {
		nl := strings.IndexByte(g, '\n')
		if nl < 0 || !strings.Contains(g, "verif/harness/checks.") {
			continue
		}
		h := g[:nl]
		parked := strings.Contains(h, "sync.") || strings.Contains(h, "chan ") || strings.Contains(h, "semacquire") || strings.Contains(h, "select")
		if spinning == parked {
			continue
		}
		if spinning && !strings.Contains(h, "run") { // running, runnable
			continue
		}
		frame := ""
		for _, l := range strings.Split(g[nl+1:], "\n") {
			if strings.HasPrefix(l, "github.com/ThinkiumGroup/go-common") {
				if j := strings.LastIndex(l, "("); j > 0 {
					l = l[:j]
				}
				frame = strings.TrimPrefix(l, "github.com/ThinkiumGroup/go-common")
			}
			if strings.HasPrefix(l, "verif/harness/checks.") && frame != "" {
				return frame
			}
		}
	}
	return ""
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func allStacks() string {
	buf := make([]byte, 1<<22)
	return string(buf[:runtime.Stack(buf, true)])
}

// blockedFrame finds a goroutine parked on a mutex, channel, semaphore or condition whose stack is
// inside go-common, and returns that frame.
func blockedFrame(st string) string {
	for _, g := range strings.Split(st, "\n\n") {
		nl := strings.IndexByte(g, '\n')
		if nl < 0 {
			continue
		}
		h := g[:nl]
		if !(strings.Contains(h, "sync.") || strings.Contains(h, "chan ") || strings.Contains(h, "semacquire") || strings.Contains(h, "select")) {
			continue
		}
		for _, l := range strings.Split(g[nl+1:], "\n") {
			if strings.HasPrefix(l, "github.com/ThinkiumGroup/go-common") {
				if j := strings.LastIndex(l, "("); j > 0 {
					l = l[:j]
				}
				return strings.TrimPrefix(l, "github.com/ThinkiumGroup/go-common")
			}
		}
	}
	return ""
}

// Parallel runs n goroutines numbered 0..n-1 released together.
func Parallel(n int, f func(g int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			f(g)
		}(i)
	}
	close(start)
	wg.Wait()
}

// Workers runs cases 0..n-1 over the available cores; each case must use only its own PRNG.
func Workers(n int, f func(i int)) {
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Cases runs n independently seeded cases in parallel, each guarded.
func (c *Ctx) Cases(name string, n int, f func(i int, r *rand.Rand)) {
	sec := c.section
	Workers(n, func(i int) {
		c.Guard(fmt.Sprintf("%s/%s case %d", sec, name, i), func() {
			f(i, c.Rand(fmt.Sprintf("%s/%s/%d", sec, name, i)))
		})
	})
}

// Keys renders a counter map deterministically.
func Keys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Hex prints bytes compactly.
func Hex(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 80 {
		return fmt.Sprintf("%x…(%d)", b[:80], len(b))
	}
	return fmt.Sprintf("0x%x", b)
}

func Clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)), b...)
}

func Eq(a, b []byte) bool { return bytes.Equal(a, b) }

// Tick is a process-wide strictly increasing event clock for histories.
var tick int64

func Tick() int64 { return atomic.AddInt64(&tick, 1) }

// Floors makes the run inconclusive when a monitor saw fewer events than the check requires.
func (c *Ctx) Floors(f map[string]int64) {
	for k, n := range f {
		c.mu.Lock()
		got := c.res.Counters[k]
		c.mu.Unlock()
		if got < n {
			c.Inconclusive("observed only %d of %q (floor %d)", got, k, n)
		}
	}
}
