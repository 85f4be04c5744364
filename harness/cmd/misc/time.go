package main

import (
	"fmt"
	"math"
	"math/big"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	stdtime "time"
	"unsafe"

	"github.com/vipally/gx/time"
	"vp/fclk"
	"vp/mon"
)

func pickDur(r *mon.Rand) int64 {
	day := int64(24 * stdtime.Hour)
	switch r.Intn(10) {
	case 0:
		return int64(r.U64())
	case 1:
		return day * int64(r.Range(-4, 4))
	case 2: // around multiples of a day
		return day*int64(r.Range(-3, 106751)) + int64(r.Range(-2, 2))
	case 3:
		return []int64{0, 1, -1, day, day - 1, day + 1, -day, -day - 1, -day + 1, 7 * day, 7*day - 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 106751 * day}[r.Intn(16)]
	case 4:
		return int64(r.U64()) >> uint(r.Intn(64))
	case 5:
		u := []int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9, day, 7 * day}[r.Intn(8)]
		return u*int64(r.Range(-1000, 1000)) + int64(r.Range(-1, 1))
	case 6:
		return day*int64(r.Intn(106000)) + int64(r.Intn(24))*3600e9 + int64(r.Intn(60))*60e9
	case 7:
		return int64(r.U64() >> 1)
	default:
		return day*int64(r.Intn(400)) + int64(r.U64()%uint64(day))
	}
}

func ratio(d, unit int64) float64 {
	x, _ := new(big.Rat).SetFrac64(d, unit).Float64()
	return x
}

func close2(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-12*math.Max(math.Abs(a), math.Abs(b))
}

// durText checks the written form of d against d itself.
func durText(c *mon.Case, d int64) string {
	x := time.Duration(d)
	std := stdtime.Duration(d)
	s := x.String()
	c.Assert(fmt.Sprint(x) == s, "Sprint of %d gives %q, String %q", d, fmt.Sprint(x), s)
	if d < int64(24*stdtime.Hour) {
		c.Assert(s == std.String(), "String of %d (less than a day) is %q, expected %q", d, s, std.String())
		return s
	}
	i := strings.IndexByte(s, 'd')
	c.Assert(i > 0, "String of %d is %q: no days", d, s)
	days, err := strconv.ParseInt(s[:i], 10, 64)
	c.Assert(err == nil && days >= 1 && s[0] != '0' && s[0] != '+', "String of %d is %q: bad days", d, s)
	left, err := stdtime.ParseDuration(s[i+1:])
	c.Assert(err == nil && left >= 0 && left < 24*stdtime.Hour, "String of %d is %q: the rest is no time below a day", d, s)
	c.Assert(left.String() == s[i+1:], "String of %d is %q: the rest is not written as the standard library does", d, s)
	c.Assert(days*int64(24*stdtime.Hour)+int64(left) == d, "String of %d is %q, which is %d", d, s, days*int64(24*stdtime.Hour)+int64(left))
	return s
}

func runDur(c *mon.Case) {
	for k := 0; k < 40; k++ {
		d := pickDur(c.R)
		x, std := time.Duration(d), stdtime.Duration(d)
		c.Logf("duration %d", d)
		s := durText(c, d)
		c.Assert(x.Std() == std, "Std of %d is %d", d, x.Std())
		c.Assert(x.Hours() == std.Hours() && x.Minutes() == std.Minutes() && x.Seconds() == std.Seconds(), "Hours/Minutes/Seconds of %d differ from the standard library", d)
		day := int64(24 * stdtime.Hour)
		c.Assert(close2(x.Days(), ratio(d, day)), "Days of %d is %v, expected %v", d, x.Days(), ratio(d, day))
		c.Assert(close2(x.Weeks(), ratio(d, 7*day)), "Weeks of %d is %v, expected %v", d, x.Weeks(), ratio(d, 7*day))
		// two durations never share their text
		d2 := d + int64(c.R.Range(1, 3))
		if c.R.Bool() {
			d2 = pickDur(c.R)
		}
		if d2 != d {
			c.Assert(durText(c, d2) != s, "%d and %d are both written %q", d, d2, s)
		}
		p, err := time.ParseDuration(std.String())
		c.Assert(err == nil && int64(p) == d, "ParseDuration(%q) gives %d, %v", std.String(), int64(p), err)
		junk := []string{"", "x", "5", "1d", "3h2", "--1s", "9999999999h", "1h 2m"}[c.R.Intn(8)]
		p, err = time.ParseDuration(junk)
		sp, serr := stdtime.ParseDuration(junk)
		c.Assert((err != nil) == (serr != nil) && int64(p) == int64(sp), "ParseDuration(%q) gives %d, %v; the standard library %d, %v", junk, int64(p), err, sp, serr)
		c.Seen(mon.HashInit.Add(uint64(d)))
		c.Sample("%d -> %q", d, s)
	}
	c.Eval(40 * 6)
	// elapsed time
	t0 := stdtime.Now()
	a := stdtime.Since(t0)
	m := time.Since(t0)
	b := stdtime.Since(t0)
	c.Assert(int64(a) <= int64(m) && int64(m) <= int64(b), "Since gives %d between %d and %d", int64(m), a, b)
	for _, off := range []stdtime.Duration{stdtime.Nanosecond, stdtime.Second, stdtime.Hour, 400 * 24 * stdtime.Hour} {
		for _, t0 := range []stdtime.Time{stdtime.Now().Add(off), stdtime.Now().Add(-off), stdtime.Now().Add(off).UTC()} { // to come, gone
			a := stdtime.Since(t0)
			m := time.Since(t0)
			b := stdtime.Since(t0)
			c.Assert(int64(a) <= int64(m) && int64(m) <= int64(b), "Since(%v) gives %d between %d and %d", t0, int64(m), a, b)
		}
	}
	n0 := stdtime.Now()
	n1 := time.RuntimeNow()
	n2 := stdtime.Now()
	c.Assert(!n1.Before(n0) && !n2.Before(n1), "RuntimeNow is not between two readings of the clock")
}

// pin keeps the goroutine on one CPU.
func pin(r *mon.Rand) (undo func(), ok bool) {
	runtime.LockOSThread()
	var old, one [16]uint64
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&old))); e != 0 {
		return runtime.UnlockOSThread, false
	}
	var cpus []int
	for i := 0; i < 1024; i++ {
		if old[i/64]&(1<<uint(i%64)) != 0 {
			cpus = append(cpus, i)
		}
	}
	if len(cpus) == 0 {
		return runtime.UnlockOSThread, false
	}
	k := cpus[r.Intn(len(cpus))]
	one[k/64] |= 1 << uint(k%64)
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&one))); e != 0 {
		return runtime.UnlockOSThread, false
	}
	return func() {
		syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&old)))
		runtime.UnlockOSThread()
	}, true
}

func cpuNs() int64 {
	var ts syscall.Timespec
	syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 2, uintptr(unsafe.Pointer(&ts)), 0) // CLOCK_PROCESS_CPUTIME_ID
	return ts.Nano()
}

func runTSC(c *mon.Case) {
	undo, ok := pin(c.R)
	defer undo()
	if !ok {
		c.Inconclusive("cannot pin to a CPU")
		return
	}
	n := 20000
	last := uint64(0)
	pairs := 0
	var ones, vones [8]int
	for i := 0; i < n; i++ {
		a := readTSC()
		v := time.RDTSC()
		b := readTSC()
		if a > b { // the counter itself is not monotone here
			c.Inconclusive("the CPU's counter went backwards")
			continue
		}
		c.Assert(a <= v && v <= b, "RDTSC gives %#x between two readings %#x and %#x of the CPU's counter", v, a, b)
		c.Assert(v >= last, "RDTSC went backwards from %#x to %#x on one CPU", last, v)
		last = v
		pairs++
		for k := uint(0); k < 8; k++ {
			ones[k] += int(a >> k & 1)
			vones[k] += int(v >> k & 1)
		}
	}
	for k := 0; k < 8 && pairs > n/2; k++ { // all the counter's digits, not a rounded reading
		if ones[k] > pairs/10 && ones[k] < pairs*9/10 {
			c.Assert(vones[k] > 0 && vones[k] < pairs, "bit %d of RDTSC never changes, the CPU's counter has it set %d times of %d", k, ones[k], pairs)
			c.Count("digits of the counter seen to change", 1)
		}
	}
	c.Count("bracketed RDTSC readings", pairs)
	c.Eval(pairs)
	c.Seen(mon.HashInit.Add(last))
	c.Sample("last RDTSC reading %#x", last)
}

func runTSCLong(c *mon.Case) {
	// across a wrap of the lower half: sleep until the counter passes 2^32
	undo, ok := pin(c.R)
	defer undo()
	if !ok {
		c.Inconclusive("cannot pin to a CPU")
		return
	}
	a := readTSC()
	v := time.RDTSC()
	next := (a>>32 + 1) << 32
	t0 := stdtime.Now()
	prev := v
	for readTSC() < next && stdtime.Since(t0) < 20*stdtime.Second {
		w := time.RDTSC()
		c.Assert(w >= prev, "RDTSC went backwards from %#x to %#x on one CPU", prev, w)
		prev = w
		stdtime.Sleep(2 * stdtime.Millisecond)
	}
	if readTSC() < next {
		c.Inconclusive("the counter is slow")
		return
	}
	w := time.RDTSC()
	b := readTSC()
	c.Assert(w >= next && w <= b && w > v, "RDTSC gives %#x after the CPU's counter passed %#x (now %#x)", w, next, b)
	c.Count("2^32 boundaries crossed", 1)
	c.Seen(mon.HashInit.Add(w))
}

func runClock(c *mon.Case) {
	last := uint64(0)
	for i := 0; i < 2000; i++ {
		a := cpuNs()
		v := time.Clock()
		b := cpuNs()
		c.Assert(uint64(a/1000) <= v && v <= uint64(b/1000)+1, "Clock gives %d us between %d ns and %d ns of CPU time", v, a, b)
		c.Assert(v >= last, "Clock went backwards from %d to %d", last, v)
		last = v
	}
	for i := 0; i < 200; i++ {
		a := stdtime.Now()
		v := time.RuntimeNow()
		b := stdtime.Now()
		c.Assert(!v.Before(a) && !v.After(b), "RuntimeNow gives %v between %v and %v", v, a, b)
		_, x := a.Zone()
		_, y := v.Zone()
		c.Assert(x == y, "RuntimeNow is in another zone: %v, want as %v", v, a)
	}
	// a process that has used very much CPU time
	defer fclk.Set(0)
	for i := 0; i < 200; i++ {
		off := []int64{1<<31 - 5, 1<<32 - 5, 1 << 32, 1<<40 + 12345, 1 << 53, 1<<53 + 1, int64(c.R.U64() >> uint(c.R.Range(2, 30)))}[c.R.Intn(7)]
		fclk.Set(off)
		k := fclk.Calls()
		a := cpuNs()
		v := time.Clock()
		b := cpuNs()
		if fclk.Calls() == k {
			c.Inconclusive("Clock does not ask clock()")
			break
		}
		c.Assert(uint64(a/1000+off) <= v && v <= uint64(b/1000+off)+1, "Clock gives %d us between %d ns and %d ns of CPU time and an offset of %d us", v, a, b, off)
		c.Count("Clock readings far ahead", 1)
	}
	c.Eval(2000)
	c.Count("bracketed Clock readings", 2000)
	c.Seen(mon.HashInit.Add(last).Add(5))
}

func init() {
	mon.Register(&mon.Prop{ID: "C31",
		Rule: "one evaluation = one decided claim about one duration; distinct = distinct durations",
		Sections: []mon.Section{
			{Name: "text", Quick: 1500, Thorough: 60000, Run: runDur},
		}})
	mon.Register(&mon.Prop{ID: "C32",
		Rule: "one evaluation = one reading bracketed by two independent readings of the same counter; distinct = distinct final readings",
		Sections: []mon.Section{
			{Name: "rdtsc", Quick: 24, Thorough: 400, Run: runTSC, CPU: 120},
			{Name: "wrap", Quick: 2, Thorough: 20, Run: runTSCLong, CPU: 120},
			{Name: "clock", Quick: 24, Thorough: 400, Run: runClock, CPU: 120},
		}})
}
