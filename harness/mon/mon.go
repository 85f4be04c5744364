// Package mon is the runtime-monitoring core shared by all harnesses: it runs
// the registered workload sections of one property as numbered deterministic
// cases, watches each case for monitor failures, unexpected panics, crashes,
// non-termination, dead locks and runaway memory, and records what the
// monitors observed.
package mon

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vp/fx"
)

// Section is one workload of a property: Quick/Thorough cases, each run by Run.
type Section struct {
	Name            string
	Quick, Thorough int
	Run             func(*Case)
	// CPU overrides the CPU seconds one case may use before it counts as
	// non-terminating (default 20).
	CPU int
	// OneShard runs every case of the section in shard 0 only.
	OneShard bool
	// Exhaustive marks a section that enumerates its finite space completely.
	Exhaustive bool
}

// Prop is a property with the rule by which its cases count.
type Prop struct {
	ID       string
	Rule     string
	Sections []Section
}

var props = map[string]*Prop{}

func Register(p *Prop) { props[p.ID] = p }

// Compose registers a property made of the sections of all registered properties
// whose id goes on with one of the prefixes after "<variant>:"; each runs one case
// out of every div, another one for each variant, so that together they run nearly all.
func Compose(id, rule string, div int, prefixes ...string) {
	p := &Prop{ID: id, Rule: rule}
	var ids []string
	for k := range props {
		if i := strings.Index(k, ":"); i > 0 {
			for _, pre := range prefixes {
				if strings.HasPrefix(k[i+1:], pre) {
					ids = append(ids, k)
				}
			}
		}
	}
	sort.Strings(ids)
	variants := map[string]int{}
	for _, k := range ids {
		name := k[:strings.Index(k, ":")]
		if _, ok := variants[name]; !ok {
			variants[name] = len(variants)
		}
		v := variants[name]
		for _, s := range props[k].Sections {
			s.Name = strings.Replace(k, ":", "/", 1) + "/" + s.Name
			if !s.Exhaustive {
				run, quick, thorough, div := s.Run, s.Quick, s.Thorough, div
				if quick <= 64 && div > 2 {
					div = 2 // few and different cases
				}
				s.Quick = (s.Quick + div - 1) / div
				s.Thorough = (s.Thorough + div - 1) / div
				s.Run = func(c *Case) {
					n := quick
					if c.Thorough() {
						n = thorough
					}
					i := c.Idx*div + (v+int(Mix(uint64(c.Idx))>>33))%div
					if i >= n {
						i = c.Idx
					}
					c.Idx = i
					run(c)
				}
			}
			p.Sections = append(p.Sections, s)
		}
	}
	Register(p)
}

type violation struct{ msg string }

// Case is one execution being monitored.
type Case struct {
	R       *Rand
	Idx     int
	Tier    string
	Tracing bool
	Sec     string

	mu    sync.Mutex
	trace []string
	wg    sync.WaitGroup
	pan   atomic.Value

	cpu0  time.Duration
	limit time.Duration
	asked uint32
	long  uint32
}

// Long tells that the case has used a third of the CPU time it may use. Cases that
// repeat an operation very often end then: how fast the code is, is no part of any
// property, while an operation that does not end is still noticed.
func (c *Case) Long() bool {
	if atomic.AddUint32(&c.asked, 1)%64 == 0 && atomic.LoadUint32(&c.long) == 0 && cpuTime()-c.cpu0 > c.limit/3 {
		atomic.StoreUint32(&c.long, 1)
		c.Count("cases_ended_early_as_slow", 1)
	}
	return atomic.LoadUint32(&c.long) != 0
}

// Used is the CPU time that f takes.
func Used(f func()) time.Duration {
	t := cpuTime()
	f()
	return cpuTime() - t
}

// Thorough tells whether the deep tier runs.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

// Logf records a step of the case; only the traced re-run of a failing case
// records, so hot loops should guard it with c.Tracing.
func (c *Case) Logf(f string, a ...interface{}) {
	if c.Tracing {
		c.mu.Lock()
		if len(c.trace) < 20000 {
			c.trace = append(c.trace, fmt.Sprintf(f, a...))
		} else {
			copy(c.trace[10000:], c.trace[10001:])
			c.trace[len(c.trace)-1] = fmt.Sprintf(f, a...)
		}
		c.mu.Unlock()
	}
}

// Failf reports a violation of the property by this case.
func (c *Case) Failf(f string, a ...interface{}) {
	panic(violation{fmt.Sprintf(f, a...)})
}

// Assert is Failf unless cond.
func (c *Case) Assert(cond bool, f string, a ...interface{}) {
	if !cond {
		c.Failf(f, a...)
	}
}

// Seen counts a distinct non-trivial observed case or state.
func (c *Case) Seen(h Hash) { st.seen(uint64(h)) }

// Count adds to a named counter of observed events.
func (c *Case) Count(name string, n int) { st.count(name, int64(n)) }

// Max keeps the maximum of a named gauge.
func (c *Case) Max(name string, n int) { st.max(name, int64(n)) }

// Eval counts n further evaluations (a case counts as one by itself).
func (c *Case) Eval(n int) { atomic.AddInt64(&st.evals, int64(n)) }

// Sample keeps one of a few written-out cases for the evidence.
func (c *Case) Sample(f string, a ...interface{}) {
	st.sample(c.Sec, f, a...)
}

// Finding reports a deviation that may be a listed known finding.
func (c *Case) Finding(key, what string) { st.finding(key, what, c) }

// Inconclusive counts an observation that decides nothing.
func (c *Case) Inconclusive(name string) { st.count("inconclusive:"+name, 1) }

// Go runs f on a new goroutine of the case; Wait joins all and reports the
// first failure or panic in any of them.
func (c *Case) Go(f func()) {
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		defer func() {
			if e := recover(); e != nil {
				c.pan.CompareAndSwap(nil, goPanic{e, string(debug.Stack())})
			}
		}()
		f()
	}()
}

type goPanic struct {
	v     interface{}
	stack string
}

func (c *Case) Wait() {
	c.wg.Wait()
	if p, ok := c.pan.Load().(goPanic); ok {
		if v, ok := p.v.(violation); ok {
			panic(v)
		}
		panic(violation{fmt.Sprintf("unexpected panic: %v\n%s", p.v, p.stack)})
	}
}

// Panics runs f and returns what it panicked with, nil if it did not.
func Panics(f func()) (p interface{}) {
	defer func() {
		if p = recover(); p != nil {
			if v, ok := p.(violation); ok {
				panic(v)
			}
		}
	}()
	f()
	return nil
}

// MustPanic fails unless f panics.
func (c *Case) MustPanic(what string, f func()) {
	if Panics(f) == nil {
		c.Failf("%s: expected a panic, got none", what)
	}
}

//----------------------------------------------------------------------------
// statistics of this process

type stats struct {
	mu       sync.Mutex
	hashes   map[uint64]struct{}
	counts   map[string]int64
	maxes    map[string]int64
	samples  []string
	perSec   map[string]int
	findings map[string]string
	evals    int64
}

var st = &stats{hashes: map[uint64]struct{}{}, counts: map[string]int64{}, maxes: map[string]int64{},
	perSec: map[string]int{}, findings: map[string]string{}}

const maxHashes = 400000

func (s *stats) seen(h uint64) {
	s.mu.Lock()
	if len(s.hashes) < maxHashes {
		s.hashes[h] = struct{}{}
	}
	s.mu.Unlock()
}
func (s *stats) count(n string, v int64) {
	s.mu.Lock()
	s.counts[n] += v
	s.mu.Unlock()
}
func (s *stats) max(n string, v int64) {
	s.mu.Lock()
	if o, ok := s.maxes[n]; !ok || v > o {
		s.maxes[n] = v
	}
	s.mu.Unlock()
}
func (s *stats) sample(sec, f string, a ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.perSec[sec] < 2 {
		s.perSec[sec]++
		t := fmt.Sprintf(f, a...)
		if len(t) > 600 {
			t = t[:600] + "..."
		}
		s.samples = append(s.samples, sec+": "+t)
	}
}
func (s *stats) finding(key, what string, c *Case) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.findings[key]; !ok {
		s.findings[key] = what
	}
}

//----------------------------------------------------------------------------
// runner

type caseRef struct {
	Section string `json:"section"`
	Idx     int    `json:"case"`
}

type report struct {
	Property  string           `json:"property"`
	Rule      string           `json:"rule"`
	Cases     int64            `json:"cases"`
	Evals     int64            `json:"evaluations"`
	PerSec    map[string]int   `json:"cases_per_section"`
	Counts    map[string]int64 `json:"counts"`
	Maxes     map[string]int64 `json:"maxes"`
	Samples   []string         `json:"samples"`
	Findings  map[string]string
	Truncated bool    `json:"truncated"`
	Exhaust   bool    `json:"exhaustive"`
	Fail      *failed `json:"fail"`
}

type failed struct {
	caseRef
	Seed       uint64   `json:"seed"`
	Tier       string   `json:"tier"`
	Msg        string   `json:"msg"`
	Reproduced bool     `json:"reproduced"`
	Trace      []string `json:"trace"`
	Stack      string   `json:"stack"`
}

var (
	curSec  atomic.Value
	curIdx  int64
	caseNo  int64
	caseCPU int64 // allowed cpu seconds of the current case
	outDir  string
	prop    *Prop
	rep     report
	seed    uint64
	tier    string
	endOnce sync.Once
)

// Section name and index as a number for seeding.
func caseSeed(seed uint64, id, sec string, idx int) uint64 {
	return uint64(HashInit.Add(seed).Str(id).Str(sec).Add(uint64(idx)))
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func finish(code int) {
	endOnce.Do(func() {
		st.mu.Lock()
		rep.Counts, rep.Maxes, rep.Samples, rep.Findings = st.counts, st.maxes, st.samples, st.findings
		rep.Evals = atomic.LoadInt64(&st.evals) + rep.Cases
		b, _ := json.Marshal(&rep)
		hs := make([]uint64, 0, len(st.hashes))
		for h := range st.hashes {
			hs = append(hs, h)
		}
		st.mu.Unlock()
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		hb := make([]byte, 8*len(hs))
		for i, h := range hs {
			binary.LittleEndian.PutUint64(hb[8*i:], h)
		}
		os.WriteFile(filepath.Join(outDir, "hashes.bin"), hb, 0644)
		os.WriteFile(filepath.Join(outDir, "report.json.tmp"), b, 0644)
		os.Rename(filepath.Join(outDir, "report.json.tmp"), filepath.Join(outDir, "report.json"))
		os.Exit(code)
	})
	select {} // another goroutine is ending the process
}

func watchdog() {
	last := int64(-1)
	var cpu0, cpuPrev time.Duration
	var idleSince time.Time
	for {
		time.Sleep(50 * time.Millisecond)
		n := atomic.LoadInt64(&caseNo)
		c := cpuTime()
		now := time.Now()
		if n != last {
			last, cpu0, cpuPrev, idleSince = n, c, c, now
			continue
		}
		if r := rssBytes(); r > 3<<30 {
			watchFail(fmt.Sprintf("runaway memory: the process reached %d MB resident in one case", r>>20))
		}
		if lim := time.Duration(atomic.LoadInt64(&caseCPU)) * time.Second; lim > 0 && c-cpu0 > lim {
			watchFail(fmt.Sprintf("non-termination: one case used more than %v of CPU time", lim))
		}
		if c-cpuPrev > 300*time.Millisecond {
			cpuPrev, idleSince = c, now
		}
		if now.Sub(idleSince) > 15*time.Second {
			if allBlocked() {
				watchFail("dead lock: every goroutine of the case is blocked for 15 s without using CPU")
			}
			cpuPrev, idleSince = c, now
		}
	}
}

// allBlocked is true if no goroutine but the caller is running, runnable,
// sleeping or in a system call, as the scheduler sees it.
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	first := true
	blocked := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		i, j := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if i < 0 || j < i {
			continue
		}
		state := strings.Split(g[i+1:j], ",")[0]
		if first { // the caller
			first = false
			continue
		}
		switch state {
		case "running", "runnable", "syscall", "sleep", "IO wait":
			return false
		}
		blocked++
	}
	return blocked > 0
}

func watchFail(msg string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	sec, _ := curSec.Load().(string)
	rep.Fail = &failed{caseRef: caseRef{sec, int(atomic.LoadInt64(&curIdx))}, Seed: seed, Tier: tier, Msg: msg, Stack: clip(string(buf), 20000)}
	finish(1)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func runCase(s *Section, idx int, tracing bool) (c *Case, fail *failed) {
	c = &Case{R: NewRand(caseSeed(seed, prop.ID, s.Name, idx)), Idx: idx, Tier: tier, Tracing: tracing, Sec: s.Name}
	lim := s.CPU
	if lim == 0 {
		lim = 20
	}
	if tier != "thorough" && lim > 120 {
		lim = 120
	}
	c.cpu0, c.limit = cpuTime(), time.Duration(lim)*time.Second
	atomic.StoreInt64(&caseCPU, int64(lim))
	curSec.Store(s.Name)
	atomic.StoreInt64(&curIdx, int64(idx))
	atomic.AddInt64(&caseNo, 1)
	defer func() {
		if e := recover(); e != nil {
			fail = &failed{caseRef: caseRef{s.Name, idx}, Seed: seed, Tier: tier, Stack: clip(string(debug.Stack()), 8000)}
			if v, ok := e.(violation); ok {
				fail.Msg = v.msg
			} else {
				fail.Msg = fmt.Sprintf("unexpected panic: %v", e)
			}
		}
	}()
	fx.Set(pauseMode(idx))
	defer fx.Set(0)
	s.Run(c)
	return
}

// pauseMode gives half the cases delays around the atomic operations and locks of
// the code under test, where it is built with vp/fx.
func pauseMode(idx int) int {
	if m := int(Mix(uint64(idx)+77) % 6); idx > 0 && m > 2 {
		return m - 2
	}
	return 0
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

// Fresh is what a process started with VP_FRESH prints.
var Fresh func() string

// Main runs the property named by VP_PROP.
func Main() {
	if os.Getenv("VP_FRESH") != "" { // a child process of randProcesses
		if Fresh != nil {
			fmt.Println(Fresh())
		}
		return
	}
	debug.SetMaxStack(256 << 20)
	debug.SetTraceback("all")
	id := os.Getenv("VP_PROP")
	tier = os.Getenv("VP_TIER")
	seed = uint64(envInt("VP_SEED", 1))
	shard, nshard := envInt("VP_SHARD", 0), envInt("VP_NSHARD", 1)
	outDir = os.Getenv("VP_OUT")
	if outDir == "" {
		outDir = "."
	}
	only := os.Getenv("VP_ONLY")
	prop = props[id]
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(3)
	}
	rep.Property, rep.Rule, rep.PerSec = id, prop.Rule, map[string]int{}
	jf, err := os.OpenFile(filepath.Join(outDir, "journal"), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go watchdog()
	budget := time.Duration(envInt("VP_BUDGET", 240)) * time.Second
	start := time.Now()
	rep.Exhaust = true
	for i := range prop.Sections {
		s := &prop.Sections[i]
		if !s.Exhaustive {
			rep.Exhaust = false
		}
		n := s.Quick
		if n >= 500 && !s.Exhaustive {
			n *= 3
		}
		if tier == "thorough" {
			n = s.Thorough
		}
		for idx := 0; idx < n || only != ""; idx++ {
			if only != "" {
				f := strings.SplitN(only, ":", 2)
				if f[0] != s.Name {
					break
				}
				idx, _ = strconv.Atoi(f[1])
			} else if s.OneShard {
				if shard != 0 {
					break
				}
			} else if idx%nshard != shard {
				continue
			}
			if el := time.Since(start); el > budget {
				rep.Truncated = true
				break
			}
			// journal the case, so that a crash of the process names it
			var jb [96]byte
			copy(jb[:], fmt.Sprintf("%s:%d\n", s.Name, idx))
			jf.WriteAt(jb[:], 0)
			c, fail := runCase(s, idx, only != "")
			rep.Cases++
			rep.PerSec[s.Name]++
			if only != "" && os.Getenv("VP_SHOW") != "" {
				for _, l := range c.trace {
					fmt.Println(l)
				}
			}
			if fail != nil {
				if only == "" {
					// re-run the same case with tracing for the replay file
					c2, f2 := runCase(s, idx, true)
					fail.Reproduced = f2 != nil
					fail.Trace = c2.trace
				} else {
					fail.Trace = c.trace
				}
				rep.Fail = fail
				finish(1)
			}
			if only != "" {
				break
			}
		}
	}
	// park the watchdog: the remaining work is ours
	atomic.StoreInt64(&caseCPU, 0)
	atomic.AddInt64(&caseNo, 1)
	if n := fx.Pauses(); n > 0 {
		(&Case{}).Count("delays injected between steps of the code (roughly)", n)
	}
	copyJ := [96]byte{}
	copy(copyJ[:], "done\n")
	jf.WriteAt(copyJ[:], 0)
	finish(0)
}

// OpenUnder lists the files below dir this process has open.
func OpenUnder(dir string) (open []string) {
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return nil
	}
	names, _ := d.Readdirnames(-1)
	d.Close()
	for _, n := range names {
		if t, err := os.Readlink("/proc/self/fd/" + n); err == nil && (t == dir || strings.HasPrefix(t, dir+"/")) {
			open = append(open, t)
		}
	}
	return
}

// NoneOpen asserts that no file below dir was left open.
func (c *Case) NoneOpen(dir string) {
	if l := OpenUnder(dir); len(l) > 0 {
		c.Failf("left open: %q", l)
	}
	c.Count("checks for files left open", 1)
}
