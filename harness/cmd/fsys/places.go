package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vipally/gx/fs"
	"vp/mon"
)

// A site is one call of each function of the package, and beside it (on the line
// below, in a function of the same kind) one of the monitor's own view.
type site struct {
	what     string
	fn       string // what Func gave
	ffile    string // what FileLine gave
	fline    int
	rfile    string // what RelateFileLine gave
	rline    int
	at       frame // the monitor's frame
	off      [3]int
	from, to string // the name of the monitor's function and of the observed one
}

type frame struct {
	fn, file string
	line     int
}

// atFar stands in a file that is said to be elsewhere, with very many lines.
func atFar() (out []site) {
	for i := 0; i < 2; i++ {
//line /elsewhere/of/no/gopath/far.go:65530
		a, b, e := fs.Func(), fs2(fs.FileLine()), me()
		d := fs2(fs.RelateFileLine())
		out = append(out, site{"a place far away", a, b.s, b.n, d.s, d.n, e, [3]int{0, 0, -1}, "", ""})
//line /elsewhere/of/no/gopath/far.go:900001
		a, b, e = fs.Func(), fs2(fs.FileLine()), me()
		d = fs2(fs.RelateFileLine())
		out = append(out, site{"a place far down", a, b.s, b.n, d.s, d.n, e, [3]int{0, 0, -1}, "", ""})
//line far/rel.go:70000
		a, b, e = fs.Func(), fs2(fs.FileLine()), me()
		d = fs2(fs.RelateFileLine())
		out = append(out, site{"a line past 65535", a, b.s, b.n, d.s, d.n, e, [3]int{0, 0, -1}, "", ""})
	}
	return
}

//line places.go:1000

type textNum struct {
	s string
	n int
}

func fs2(s string, n int) textNum { return textNum{s, n} }

// me is the frame of its caller, inlined or not.
//
//go:noinline
func me() frame {
	var pc [1]uintptr
	runtime.Callers(2, pc[:])
	f, _ := runtime.CallersFrames(pc[:]).Next()
	return frame{f.Function, f.File, f.Line}
}

// small functions that end with the call, in lines below each other

func inlFunc() string        { return fs.Func() }
func inlFile() (string, int) { return fs.FileLine() }
func inlRel() (string, int)  { return fs.RelateFileLine() }
func inlMe() frame           { return me() }

type spotA struct{ x int }

func (spotA) vFunc() string        { return fs.Func() }
func (spotA) vFile() (string, int) { return fs.FileLine() }
func (spotA) vRel() (string, int)  { return fs.RelateFileLine() }
func (spotA) vMe() frame           { return me() }

func (*spotA) pFunc() string        { return fs.Func() }
func (*spotA) pFile() (string, int) { return fs.FileLine() }
func (*spotA) pRel() (string, int)  { return fs.RelateFileLine() }
func (*spotA) pMe() frame           { return me() }

type spotI interface {
	vFunc() string
	vFile() (string, int)
	vRel() (string, int)
	vMe() frame
	pFunc() string
	pFile() (string, int)
	pRel() (string, int)
	pMe() frame
}

type spotE struct {
	y [3]int
	spotA
}

//go:noinline
func farFunc(n int) string {
	if n > 0 {
		return farFunc(n - 1)
	}
	return fs.Func()
}

//go:noinline
func farMe(n int) frame {
	if n > 0 {
		return farMe(n - 1)
	}
	return me()
}

var (
	initFunc             = fs.Func()
	initFile, initLine   = fs.FileLine()
	initRel, initRelLine = fs.RelateFileLine()
	initMe               = me()
)

var hookFunc, hookMe = func() string { return fs.Func() }, func() frame { return me() }

func placeSites() (out []site) {
	add := func(what, fn string, ff string, fl int, rf string, rl int, at frame, from, to string) {
		out = append(out, site{what, fn, ff, fl, rf, rl, at, [3]int{3, 2, 1}, from, to})
	}
	{
		a := inlFunc()
		f, l := inlFile()
		g, m := inlRel()
		add("a small function", a, f, l, g, m, inlMe(), "inlMe", "inlFunc")
	}
	s := spotA{}
	{
		a := s.vFunc()
		f, l := s.vFile()
		g, m := s.vRel()
		add("a method", a, f, l, g, m, s.vMe(), "vMe", "vFunc")
	}
	{
		a := (&s).pFunc()
		f, l := (&s).pFile()
		g, m := (&s).pRel()
		add("a pointer method", a, f, l, g, m, (&s).pMe(), "pMe", "pFunc")
	}
	for _, i := range []spotI{&s, &spotE{}} {
		a := i.vFunc()
		f, l := i.vFile()
		g, m := i.vRel()
		add("a method through an interface", a, f, l, g, m, i.vMe(), "vMe", "vFunc")
		a = i.pFunc()
		f, l = i.pFile()
		g, m = i.pRel()
		add("a pointer method through an interface", a, f, l, g, m, i.pMe(), "pMe", "pFunc")
	}
	{ // method values and expressions
		v, vf, vr, vm := s.vFunc, s.vFile, s.vRel, s.vMe
		a := v()
		f, l := vf()
		g, m := vr()
		add("a method value", a, f, l, g, m, vm(), "vMe", "vFunc")
		x := spotE.vFunc
		y := (*spotE).pMe
		out = append(out, site{what: "a method expression", fn: x(spotE{}), at: spotA{}.vMe(), off: [3]int{3, -1, -1}, from: "vMe", to: "vFunc"})
		out = append(out, site{what: "a method expression", fn: (*spotE).pFunc(&spotE{}), at: y(&spotE{}), off: [3]int{3, -1, -1}, from: "pMe", to: "pFunc"})
	}
	one := func(what string, fn string, at frame) {
		out = append(out, site{what: what, fn: fn, at: at, off: [3]int{0, -1, -1}})
	}
	all := func(what string, fn string, ff string, fl int, rf string, rl int, at frame) {
		out = append(out, site{what, fn, ff, fl, rf, rl, at, [3]int{0, 0, 0}, "", ""})
	}
	pair := func(f string, l int) []interface{} { return []interface{}{f, l} }
	// everything on one line, and spread over lines
	a, b, d, e := fs.Func(), pair(fs.FileLine()), pair(fs.RelateFileLine()), me()
	all("one line", a, b[0].(string), b[1].(int), d[0].(string), d[1].(int), e)
	one("arguments over several lines",
		fs.Func(), me())
	x := []string{
		"first",
		fs.Func(), fmt.Sprint(me().line),
		"last",
	}
	out = append(out, site{what: "an element of a literal", fn: x[1], at: frame{me().fn, "", atoi(x[2])}, off: [3]int{0, -1, -1}})
	// deferred, panicking, in goroutines, timers and call-backs
	func() {
		defer func() { one("a deferred function", fs.Func(), me()) }()
		func() {
			defer func() {
				recover()
				one("a deferred function after a panic", fs.Func(), me())
			}()
			var m map[string]int
			m["x"] = 1
		}()
	}()
	var mu sync.Mutex
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		f, m := fs.Func(), me()
		mu.Lock()
		one("a goroutine", f, m)
		mu.Unlock()
	}()
	time.AfterFunc(0, func() {
		defer wg.Done()
		f, m := fs.Func(), me()
		mu.Lock()
		one("a timer", f, m)
		mu.Unlock()
	})
	wg.Wait()
	ch := make(chan site, 1)
	go func(f func() string, g func() frame) {
		ch <- site{what: "functions given to a goroutine", fn: f(), at: g(), off: [3]int{0, -1, -1}, from: ".func2", to: ".func1"}
	}(hookFunc, hookMe)
	s2 := <-ch
	// the names of the two literals differ in their number only
	if i, j := strings.LastIndex(s2.fn, "."), strings.LastIndex(s2.at.fn, "."); i > 0 && j > 0 && s2.fn[:i] == s2.at.fn[:j] {
		s2.from, s2.to = s2.at.fn[j:], s2.fn[i:strings.Index(s2.fn+" :", " :")]
	}
	out = append(out, s2)
	k := []int{2, 1}
	sort.Slice(k, func(i, j int) bool { one("a comparison", fs.Func(), me()); return k[i] < k[j] })
	once := sync.Once{}
	once.Do(func() { one("once", fs.Func(), me()) })
	for i := 0; i < 3; i++ {
		func() func() { return func() { one("a nested literal", fs.Func(), me()) } }()()
		switch f, m := fs.Func(), me(); {
		default:
			one("a switch", f, m)
		}
	}
	for _, n := range []int{0, 1, 7, 300} {
		out = append(out, site{what: fmt.Sprintf("%d calls deep", n), fn: farFunc(n), at: farMe(n), off: [3]int{8, -1, -1}, from: "farMe", to: "farFunc"})
	}
	out = append(out, atFar()...)
	out = append(out, site{"a package variable", initFunc, initFile, initLine, initRel, initRelLine, initMe, [3]int{3, 2, 1}, "", ""})
	return
}

func atoi(s string) (n int) {
	fmt.Sscan(s, &n)
	return
}

func runSites(c *mon.Case) {
	for _, s := range placeSites() {
		want := fmt.Sprintf("%s : %d", strings.Replace(s.at.fn, s.from, s.to, 1), s.at.line-s.off[0])
		c.Assert(s.fn == want, "Func in %s gives %q, expected %q", s.what, s.fn, want)
		if s.off[1] >= 0 {
			c.Assert(s.ffile == s.at.file && s.fline == s.at.line-s.off[1], "FileLine in %s gives %s:%d, expected %s:%d", s.what, s.ffile, s.fline, s.at.file, s.at.line-s.off[1])
			c.Assert(clean(fs.GoPath()+"/"+s.rfile) == clean(s.at.file) && s.rline == s.at.line-s.off[2], "RelateFileLine in %s gives %s:%d, expected %s:%d from GOPATH", s.what, s.rfile, s.rline, s.at.file, s.at.line-s.off[2])
		}
		c.Count(s.what, 1)
		c.Seen(mon.HashInit.Str(s.fn))
		c.Sample("%s: %s", s.what, s.fn)
	}
	c.Eval(30)
}
