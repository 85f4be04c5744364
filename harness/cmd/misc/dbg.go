package main

import (
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/vipally/gx/debug"
	"vp/mon"
)

type frame struct {
	fn, file string
	line     int
}

func (f frame) String() string { return fmt.Sprintf("%s %s:%d", f.fn, f.file, f.line) }

// here returns the stack of its caller as the runtime reports it.
//
//go:noinline
func here() (l []frame) {
	pcs := make([]uintptr, 400)
	n := runtime.Callers(2, pcs)
	fs := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fs.Next()
		if f.PC != 0 {
			l = append(l, frame{f.Function, f.File, f.Line})
		}
		if !more {
			return
		}
	}
}

//go:noinline
func hereTo(at *[]frame) bool {
	*at = here()[1:]
	return true
}

var (
	reFrame = regexp.MustCompile(`Func\{([^{}]*)\} File(?:Line)?\{(.*?) : (\d+)\}`)
	reFL    = regexp.MustCompile(`FileLine\{(.*?) : (\d+)\}`)
	reFn    = regexp.MustCompile(`Func\{([^{}]*)\}`)
)

func parseFrame(s string) (f frame, ok bool) {
	m := reFrame.FindStringSubmatch(s)
	if m == nil {
		return
	}
	n, _ := strconv.Atoi(m[3])
	return frame{m[1], m[2], n}, true
}

type obs struct {
	kind string
	arg  int
	got  string
	head string
	list []string
	want []frame // the stack at the place of the call
}

// probe calls one reporting function of the package and the reference on the
// same line.
//
//go:noinline
func probe(r *mon.Rand, depth int) (o obs) {
	depth = len(here())
	o.arg = r.Range(0, depth+3)
	switch r.Intn(10) {
	case 8:
		o.kind = "CallStackInfo"
		o.head = []string{"", "at", "Caller:", "{odd} %s %d"}[r.Intn(4)]
		o.got, o.want = debug.CallStackInfo(1+o.arg, 4, o.head), here()
	case 0:
		o.kind = "Bt"
		o.got, o.want = debug.Bt(), here()
	case 1:
		o.kind = "BtFileLine"
		o.got, o.want = debug.BtFileLine(), here()
	case 2:
		o.kind = "BtFunc"
		o.got, o.want = debug.BtFunc(), here()
	case 3:
		o.kind = "Caller"
		o.got, o.want = debug.Caller(o.arg), here()
	case 4:
		o.kind = "CallerFileLine"
		o.got, o.want = debug.CallerFileLine(o.arg), here()
	case 5:
		o.kind = "CallerFunc"
		o.got, o.want = debug.CallerFunc(o.arg), here()
	case 6:
		o.kind = "Bts"
		o.got, o.want = debug.Bts(), here()
	case 7:
		o.kind = "CallStackList"
		o.arg = debug.BtMe + r.Range(0, depth+3)
		o.list, o.want = debug.CallStackList(o.arg), here()
	default:
		o.kind = "Assert"
		o.got, o.want = assertText(here())
	}
	return
}

// assertText fails an assertion and returns the panic's text; want begins with
// this function's own frame at the line of the assertion.
//
//go:noinline
func assertText(outer []frame) (s string, want []frame) {
	var at []frame
	defer func() {
		e := recover()
		s = fmt.Sprint(e)
		want = append(at[:1:1], outer...)
		if e == nil {
			s = "NO PANIC"
		}
	}()
	_, _ = hereTo(&at), debug.Assert(false)
	return
}

type walker interface {
	step(r *mon.Rand, depth int, out *obs)
}
type byMethod struct{ next []walker }
type byPtr struct{ next []walker }

//go:noinline
func (m byMethod) step(r *mon.Rand, depth int, out *obs) { descend(r, depth, out) }

//go:noinline
func (m *byPtr) step(r *mon.Rand, depth int, out *obs) {
	if depth >= 0 {
		descend(r, depth, out)
	}
}

//go:noinline
func generic[T any](r *mon.Rand, depth int, out *obs, _ T) {
	descend(r, depth, out)
	runtime.Gosched()
}

//go:noinline
func descend(r *mon.Rand, depth int, out *obs) {
	if depth <= 0 {
		*out = probe(r, depth)
		return
	}
	depth--
	switch r.Intn(9) {
	case 0:
		descend(r, depth, out)
	case 8:
		if r.Bool() {
			generic(r, depth, out, 1)
		} else {
			generic(r, depth, out, map[string][]int{})
		}
	case 6:
		elsewhere(r, depth, out)
	case 7:
		farDown(r, depth, out)
	case 1:
		byMethod{}.step(r, depth, out)
	case 2:
		new(byPtr).step(r, depth, out)
	case 3:
		func() {
			descend(r, depth, out)
			runtime.Gosched()
		}()
	case 4:
		var w walker = byMethod{}
		if r.Bool() {
			w = &byPtr{}
		}
		w.step(r, depth, out)
	default:
		defer func() { out.arg += 0 }()
		descend(r, depth, out)
	}
}

// elsewhere and farDown are said to be in other files, at lines past 65535.
//
//go:noinline
func elsewhere(r *mon.Rand, depth int, out *obs) {
//line /no/such dir/elsewhere.go:65533
	descend(r, depth, out)
	if depth < 0 {
		return
	}
	if r.Intn(8) == 0 {
//line a.go:1
		*out = probe(r, depth)
	}
}

//go:noinline
func farDown(r *mon.Rand, depth int, out *obs) {
//line /x/far : down.go:900000
	descend(r, depth, out)
	runtime.Gosched()
}

//line dbg.go:1000

const maxList = 50

func checkObs(c *mon.Case, o obs) {
	c.Logf("%s(%d) on a stack of %d frames", o.kind, o.arg, len(o.want))
	at := func(i int) (frame, bool) {
		if i < len(o.want) {
			return o.want[i], true
		}
		return frame{}, false
	}
	single := func(i int) {
		w, ok := at(i)
		if !ok {
			c.Assert(strings.TrimSpace(o.got) == "" || !strings.Contains(o.got, "{"), "%s(%d) beyond the bottom of the stack (%d frames) gives %q", o.kind, o.arg, len(o.want), o.got)
			c.Count("beyond the stack", 1)
			return
		}
		switch {
		case strings.HasSuffix(o.kind, "FileLine"):
			m := reFL.FindStringSubmatch(o.got)
			c.Assert(m != nil && m[1] == w.file && m[2] == strconv.Itoa(w.line), "%s(%d) gives %q, expected %s", o.kind, o.arg, o.got, w)
		case strings.HasSuffix(o.kind, "Func"):
			m := reFn.FindStringSubmatch(o.got)
			c.Assert(m != nil && m[1] == w.fn, "%s(%d) gives %q, expected %s", o.kind, o.arg, o.got, w)
		default:
			f, ok := parseFrame(o.got)
			c.Assert(ok && f == w, "%s(%d) gives %q, expected %s", o.kind, o.arg, o.got, w)
		}
	}
	list := func(lines []string, want []frame) {
		n := len(want)
		if n > maxList {
			n = maxList
		}
		c.Assert(len(lines) == n, "%s(%d) lists %d frames of a stack of %d", o.kind, o.arg, len(lines), len(want))
		for i := range lines {
			f, ok := parseFrame(lines[i])
			c.Assert(ok && f == want[i], "%s(%d): frame %d is %q, expected %s", o.kind, o.arg, i, lines[i], want[i])
		}
		c.Count("frames compared", n)
		c.Max("frames in one list", n)
	}
	numbered := func(s string) (l []string) {
		for i, x := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
			c.Assert(strings.HasPrefix(x, fmt.Sprintf("#%d ", i)), "%s: line %d is %q", o.kind, i, x)
			l = append(l, x)
		}
		return
	}
	switch o.kind {
	case "Bt", "BtFileLine", "BtFunc":
		single(0)
	case "Caller", "CallerFileLine", "CallerFunc":
		single(1 + o.arg)
	case "CallStackInfo":
		if _, ok := at(o.arg); ok {
			c.Assert(strings.HasPrefix(o.got, o.head+" "), "CallStackInfo headed %q gives %q", o.head, o.got)
			o.got = o.got[len(o.head):]
		}
		single(o.arg)
	case "Bts":
		list(numbered(o.got), o.want)
	case "CallStackList":
		k := o.arg - debug.BtMe
		if k > len(o.want) {
			k = len(o.want)
		}
		list(o.list, o.want[k:])
	case "Assert":
		c.Assert(o.got != "NO PANIC", "Assert(false) did not panic")
		i := strings.IndexByte(o.got, '\n')
		c.Assert(i >= 0 && strings.Contains(strings.ToLower(o.got[:i]), "assert"), "Assert(false) panicked with %q", o.got)
		lines := numbered(o.got[i+1:])
		// the frames of the assertion itself come first, then its caller
		k := 0
		for k < len(lines) {
			f, ok := parseFrame(lines[k])
			if !ok || !strings.HasPrefix(f.fn, "github.com/vipally/gx/debug.") {
				break
			}
			k++
		}
		c.Assert(k <= 3, "the text of Assert(false) begins with %d frames of its own", k)
		want := o.want
		if len(want) > maxList-k {
			want = want[:maxList-k]
		}
		list(lines[k:], want)
	}
	c.Count(o.kind, 1)
	h := mon.HashInit.Str(o.kind).Add(uint64(o.arg))
	for _, f := range o.want {
		h = h.Str(f.fn).Add(uint64(f.line))
	}
	c.Seen(h)
	c.Sample("%s(%d), %d frames: %s", o.kind, o.arg, len(o.want), clipS(o.got, 160))
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func dbgDepth(r *mon.Rand) int {
	switch r.Intn(4) {
	case 0:
		return r.Intn(4)
	case 1:
		return r.Range(15, 60)
	case 2:
		return r.Intn(120)
	}
	return r.Intn(15)
}

func dbgRun(c *mon.Case) {
	for i := 0; i < 8; i++ {
		var o obs
		descend(c.R, dbgDepth(c.R), &o)
		checkObs(c, o)
	}
	b := debug.Assert(true)
	c.Assert(b, "Assert(true) returns false")
	c.Eval(8)
}

func dbgConc(c *mon.Case) {
	for g := 0; g < 6; g++ {
		r := mon.NewRand(c.R.U64())
		c.Go(func() {
			for i := 0; i < 6; i++ {
				var o obs
				descend(r, dbgDepth(r), &o)
				checkObs(c, o)
			}
		})
	}
	c.Wait()
	c.Eval(36)
}

func init() {
	mon.Register(&mon.Prop{ID: "C27",
		Rule: "one evaluation = one report of a call stack compared frame by frame with the runtime's own unwinding at the same line; distinct = distinct (function, argument, stack)",
		Sections: []mon.Section{
			{Name: "stacks", Quick: 700, Thorough: 20000, Run: dbgRun},
			{Name: "goroutines", Quick: 60, Thorough: 1500, Run: dbgConc},
		}})
}
