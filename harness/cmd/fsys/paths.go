package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	"github.com/vipally/gx/fs"
	"vp/mon"
)

// clean is the lexical rule written out: elements are kept, "." dropped, ".."
// takes the element before it, doubled slashes count once.
func clean(s string) string {
	abs := strings.HasPrefix(s, "/")
	var out []string
	for _, e := range strings.Split(s, "/") {
		switch e {
		case "", ".":
		case "..":
			if n := len(out); n > 0 && out[n-1] != ".." {
				out = out[:n-1]
			} else if !abs {
				out = append(out, "..")
			}
		default:
			out = append(out, e)
		}
	}
	j := strings.Join(out, "/")
	if abs {
		return "/" + j
	}
	if j == "" {
		return "."
	}
	return j
}

func genPath(r *mon.Rand) string {
	if r.Intn(20) == 0 {
		return []string{"", "/", ".", "..", "//", "/..", "../..", "./", "/.", "a/..", "/a/../..", "...", "a//", "///a"}[r.Intn(14)]
	}
	var b strings.Builder
	if r.Intn(3) == 0 {
		b.WriteString("/")
	} else if r.Intn(12) == 0 {
		b.WriteString(strings.Repeat("../", r.Sizes(6, 4, 80)))
	}
	max := 7
	if r.Intn(60) == 0 {
		max = 300
	}
	if r.Intn(300) == 0 { // very long
		b.WriteString(strings.Repeat(entNames[r.Intn(len(entNames))]+"/", r.Range(100, 3000)))
	}
	for i, n := 0, r.Range(1, max); i < n; i++ {
		if i > 0 {
			b.WriteString(strings.Repeat("/", 1+r.Intn(2)*r.Intn(3)))
		}
		switch r.Intn(6) {
		case 0:
			b.WriteString("..")
		case 1:
			b.WriteString(".")
		default:
			b.WriteString(entNames[r.Intn(len(entNames))])
			if r.Intn(12) == 0 {
				b.WriteString([]string{" ", "  ", "\t", "\n", "\x00", "\xff", ".", "\u00a0", ":", "\\"}[r.Intn(10)])
			}
		}
	}
	if r.Intn(4) == 0 {
		b.WriteString("/")
	}
	return b.String()
}

func runPaths(c *mon.Case) {
	r := c.R
	for k := 0; k < 12; k++ {
		raw := genPath(r)
		want := clean(raw)
		p := fs.FilePath(raw)
		c.Logf("path %q", raw)
		c.Assert(p.String() == want && p.S() == want && fs.FormatPath(raw) == want && p.StringSys() == want, "FilePath(%q) is %q, expected %q", raw, p.String(), want)
		c.Assert(fs.FilePath(p.String()) == p, "FilePath(%q) changes when it is formatted again", raw)
		var q fs.FilePathObject
		q.Set(raw)
		c.Assert(q == p, "Set(%q) gives %q", raw, q)

		// elements
		el := p.SplitAll()
		c.Assert(len(el) > 0, "SplitAll(%q) gives nothing", want)
		for i, e := range el {
			if i == 0 && strings.HasPrefix(want, "/") {
				c.Assert(e == "/", "SplitAll(%q) begins with %q", want, e)
				continue
			}
			c.Assert(e != "" && !strings.Contains(e, "/"), "SplitAll(%q) has the element %q", want, e)
		}
		c.Assert(fs.Joins(el...) == want, "SplitAll(%q) gives %q, which join to %q", want, el, fs.Joins(el...))
		abs := strings.HasPrefix(want, "/")
		n := len(strings.Split(strings.TrimPrefix(want, "/"), "/"))
		if want == "/" {
			n = 0
		}
		if abs {
			n++
		}
		c.Assert(len(el) == n, "SplitAll(%q) gives %d elements %q, expected %d", want, len(el), el, n)

		// parts
		d, f := p.Split()
		c.Assert(d+f == want && !strings.Contains(f, "/") && (d == "" || strings.HasSuffix(d, "/")), "Split(%q) gives %q and %q", want, d, f)
		d2, f2 := fs.Split(raw)
		i := strings.LastIndexByte(raw, '/') + 1
		c.Assert(d2 == raw[:i] && f2 == raw[i:] && fs.FileName(raw) == f2, "Split(%q) gives %q and %q, FileName %q", raw, d2, f2, fs.FileName(raw))
		c.Assert(p.Base() == el[len(el)-1], "Base(%q) is %q, the last element %q", want, p.Base(), el[len(el)-1])
		if want != "/" && want != "." && !strings.HasSuffix(want, "..") {
			c.Assert(fs.Joins(p.Dir(), p.Base()) == want, "Dir(%q) is %q, Base %q", want, p.Dir(), p.Base())
		}
		c.Assert(p.Dir() == clean(d) || d == "" && p.Dir() == ".", "Dir(%q) is %q", want, p.Dir())
		ext := ""
		if j := strings.LastIndexByte(f, '.'); j >= 0 {
			ext = f[j:]
		}
		c.Assert(p.Ext() == ext, "Ext(%q) is %q, expected %q", want, p.Ext(), ext)
		c.Assert(p.VolumeName() == "", "VolumeName(%q) is %q", want, p.VolumeName())

		// joining
		other, third := genPath(r), genPath(r)
		j := clean(path.Join(want, other))
		c.Assert(p.Join(other) == joinRef(want, other), "%q.Join(%q) is %q, expected %q (%q)", want, other, p.Join(other), joinRef(want, other), j)
		c.Assert(p.Joins(other, third) == joinRef(want, other, third), "%q.Joins(%q,%q) is %q, expected %q", want, other, third, p.Joins(other, third), joinRef(want, other, third))
		c.Assert(fs.Joins(raw, other, third) == joinRef(raw, other, third), "Joins(%q,%q,%q) is %q, expected %q", raw, other, third, fs.Joins(raw, other, third), joinRef(raw, other, third))

		if r.Chance(1, 4) { // many elements
			var many []string
			for i, n := 0, r.Sizes(12, 20, 400); i < n; i++ {
				many = append(many, []string{"", "..", ".", "x", entNames[r.Intn(len(entNames))], "/y", "z/"}[r.Intn(7)])
			}
			c.Assert(fs.Joins(many...) == joinRef(many...), "Joins(%q) is %q, expected %q", many, fs.Joins(many...), joinRef(many...))
			w := joinRef(append([]string{want}, many...)...)
			c.Assert(p.Joins(many...) == w, "%q.Joins(%q) is %q, expected %q", want, many, p.Joins(many...), w)
			c.Max("elements joined", len(many))
		}
		// a list of paths
		lp := strings.Repeat(":", r.Intn(3)) + raw + []string{":", "::", ":a", ":/b:../c:"}[r.Intn(4)] + strings.Repeat("x:", r.Intn(3))
		lw, lg := filepath.SplitList(clean(lp)), fs.FilePath(lp).SplitList()
		c.Assert(sameList(lg, lw), "SplitList(%q) gives %q, expected %q", clean(lp), lg, lw)

		// relations: going from the root by the relation gets to the path
		root := genPath(r)
		cr := clean(root)
		if r.Intn(3) == 0 {
			raw2 := joinRef(root, genPath(r))
			p = fs.FilePath(raw2)
			want = clean(raw2)
		}
		rel := p.Relate(root)
		c.Assert(fs.RelatePath(want, root) == rel.String(), "RelatePath and Relate differ")
		if std, err := filepath.Rel(cr, want); err == nil {
			c.Assert(!strings.HasPrefix(rel.String(), "/"), "%q relative to %q is %q, an absolute path", want, cr, rel)
			c.Assert(clean(cr+"/"+rel.String()) == want, "%q relative to %q is %q, which leads to %q", want, cr, rel, clean(cr+"/"+rel.String()))
			c.Assert(rel.String() == clean(std), "%q relative to %q is %q, expected %q", want, cr, rel, std)
			c.Count("relations", 1)
		}
		if strings.HasPrefix(want, "/") {
			if e := os.Getenv("GOPATH"); strings.HasPrefix(e, "/") && !strings.ContainsAny(e, ";:") {
				c.Assert(clean(fs.GoPath()) == clean(e+"/src"), "GOPATH is %q and the source root %q", e, fs.GoPath())
				c.Count("source root checked", 1)
			}
			gp, wp := p.RelateGoPath(), p.RelateWorkPath()
			c.Assert(clean(fs.GoPath()+"/"+gp.String()) == want && fs.RelateGoPath(want) == gp.String(), "%q relative to GOPATH %q is %q", want, fs.GoPath(), gp)
			c.Assert(clean(fs.WorkPath()+"/"+wp.String()) == want && fs.RelateWorkPath(want) == wp.String(), "%q relative to the working directory %q is %q", want, fs.WorkPath(), wp)
		}
		pre := genPath(r)
		if r.Bool() {
			pre = want[:r.Intn(len(want)+1)]
		}
		c.Assert(p.HasPrefix(pre) == strings.HasPrefix(want, clean(pre)), "%q.HasPrefix(%q) is %v", want, pre, p.HasPrefix(pre))
		pat := []string{"*", "*.txt", "a/*", "/*", "?", "[a-z]", "[z", want, want + "/", "./" + want, strings.Replace(want, "/", "//", 1), "*/", "x/../" + want, "a//*", "./*", "[!a]*", "\\*", "", "*/*/*"}[r.Intn(19)]
		ok, err := p.Match(pat)
		sok, serr := filepath.Match(pat, want)
		c.Assert(ok == sok && (err != nil) == (serr != nil), "%q.Match(%q) is %v, %v", want, pat, ok, err)
		a, err := p.Abs()
		c.Assert(err == nil && strings.HasPrefix(a, "/"), "Abs(%q) is %q, %v", want, a, err)
		if strings.HasPrefix(want, "/") {
			c.Assert(a == want, "Abs(%q) is %q", want, a)
		} else {
			c.Assert(a == clean(fs.WorkPath()+"/"+want), "Abs(%q) is %q in %q", want, a, fs.WorkPath())
		}
		c.Seen(mon.HashInit.Str(raw))
		c.Sample("%q -> %q, elements %q", raw, want, el)
	}
	c.Eval(12 * 15)
}

// joinRef joins the elements that are not empty and cleans the result.
func joinRef(el ...string) string {
	var l []string
	for _, e := range el {
		if e != "" {
			l = append(l, e)
		}
	}
	if len(l) == 0 {
		return "." // FilePath of nothing
	}
	return clean(strings.Join(l, "/"))
}

// runChdir moves the process about: the package's idea of the working
// directory follows.
func runChdir(c *mon.Case) {
	dir, done := scratch(c)
	old, err := os.Getwd()
	must(c, err)
	defer done()
	defer func() {
		os.Chdir(old)
		fs.Chdir(old)
	}()
	c.Assert(fs.WorkPath() == old, "WorkPath is %q in %q", fs.WorkPath(), old)
	r := c.R
	for _, d := range []string{"a", "a/b", "a/b/c", "d"} {
		must(c, os.MkdirAll(filepath.Join(dir, d), 0755))
	}
	for i := 0; i < 8; i++ {
		to := filepath.Join(dir, []string{"", "a", "a/b", "a/b/c", "d", "missing", "a/../d", "a//b/."}[r.Intn(8)])
		if r.Intn(6) == 0 {
			to = []string{"/", "//", "/.", dir + "/../", "/.."}[r.Intn(5)]
		}
		if r.Bool() {
			if rel, err := filepath.Rel(fs.WorkPath(), to); err == nil {
				to = rel
			}
		}
		err := fs.Chdir(to)
		now, _ := os.Getwd()
		c.Logf("Chdir(%q): %v", to, err)
		if strings.Contains(to, "missing") {
			c.Assert(err != nil, "Chdir(%q) into nothing succeeded", to)
		} else {
			c.Assert(err == nil, "Chdir(%q): %v", to, err)
		}
		c.Assert(fs.WorkPath() == now, "WorkPath is %q in %q", fs.WorkPath(), now)
		a, err := fs.FilePath("x/../y").Abs()
		c.Assert(err == nil && a == clean(now+"/y"), "Abs is %q in %q", a, now)
		c.Assert(fs.RelateWorkPath(clean(now+"/q/r")) == "q/r", "RelateWorkPath is %q in %q", fs.RelateWorkPath(now+"/q/r"), now)
		c.Seen(mon.HashInit.Str(strings.TrimPrefix(now, dir)))
	}
	// a change made behind the package's back: absolute forms are still the system's
	must(c, os.Chdir(filepath.Join(dir, []string{"", "a", "a/b", "d"}[r.Intn(4)])))
	real, _ := os.Getwd()
	for _, x := range []string{"x/../y", "..", ".", "a/b"} {
		a, err := fs.FilePath(x).Abs()
		c.Assert(err == nil && a == clean(real+"/"+x), "Abs(%q) is %q in %q", x, a, real)
	}
	// and a change of its own is made, wherever the process is by then
	to := []string{fs.WorkPath(), filepath.Join(dir, "a"), real, "."}[r.Intn(4)]
	want := to
	if to == "." {
		want = real
	}
	err = fs.Chdir(to)
	now, _ := os.Getwd()
	c.Assert(err == nil && now == want && fs.WorkPath() == now, "Chdir(%q) from %q gives %v, leads to %q, and WorkPath is %q", to, real, err, now, fs.WorkPath())
	tmp, had := os.LookupEnv("TMPDIR")
	for i := 0; i < 4; i++ { // the environment may change at any time
		if i > 0 {
			os.Setenv("TMPDIR", []string{"", dir, dir + "//a/./", "rel/tmp", "/", dir + "/missing"}[r.Intn(6)])
		}
		c.Assert(fs.TempDir() == clean(os.TempDir()), "TempDir is %q, TMPDIR %q", fs.TempDir(), os.Getenv("TMPDIR"))
	}
	os.Setenv("TMPDIR", tmp)
	if !had {
		os.Unsetenv("TMPDIR")
	}
	c.Eval(24)
	c.Count("directory changes", 8)
}

//-----------------------------------------------------------------------------

func runSize(c *mon.Case) {
	r := c.R
	units := []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"}
	for k := 0; k < 40; k++ {
		var n uint64
		switch r.Intn(5) {
		case 0:
			n = r.U64() >> uint(r.Intn(64))
		case 1: // around the borders
			n = uint64(1)<<uint(10*r.Intn(7)) + uint64(r.Intn(5)) - 2
		case 2:
			n = (uint64(1)<<uint(r.Intn(64)) - 1) + uint64(r.Intn(2))
		case 3:
			n = []uint64{0, 1, 1023, 1024, 1025, math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1}[r.Intn(8)]
		default:
			n = uint64(r.Range(1, 1023)) << uint(10*r.Intn(6))
		}
		s := fs.FileSize(n).String()
		c.Logf("%d -> %q", n, s)
		u := 0
		for u < 6 && n>>uint(10*(u+1)) > 0 {
			u++
		}
		c.Assert(strings.HasSuffix(s, units[u]), "%d is written %q, expected the unit %s", n, s, units[u])
		num := strings.TrimSuffix(s, units[u])
		v, err := strconv.ParseFloat(num, 64)
		i := strings.IndexByte(num, '.')
		c.Assert(err == nil && i > 0 && len(num)-i == 4, "%d is written %q, no number with three decimals", n, s)
		// |shown*unit - n| is at most half of the last decimal
		d := new(big.Rat).SetInt(new(big.Int).SetUint64(n))
		d.Quo(d, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(10*u))))
		sv, _ := new(big.Rat).SetString(num)
		d.Sub(d, sv).Abs(d)
		c.Assert(d.Cmp(big.NewRat(5001, 10000000)) <= 0, "%d is written %q, which is off by more than rounding", n, s)
		c.Assert(v < 1024.0005, "%d is written %q", n, s)
		var x fs.FileSize
		x.Set(n)
		c.Assert(x.N() == n && x.String() == s && fmt.Sprint(x) == s, "Set(%d).N() is %d", n, x.N())
		c.Seen(mon.HashInit.Add(n))
		c.Sample("%d -> %s", n, s)
	}
	c.Eval(40 * 4)
}

//-----------------------------------------------------------------------------
// where am I

//go:noinline
func here() (file string, line int, fn string) {
	pc, f, l, _ := runtime.Caller(1)
	return f, l, runtime.FuncForPC(pc).Name()
}

type place struct {
	file, rel, fn      string
	line, relLine      int
	wfile, wfn         string
	wline, rline, frow int
}

//go:noinline
func whereA() (p place) {
	p.file, p.line = fs.FileLine()
	p.rel, p.relLine = fs.RelateFileLine()
	p.fn = fs.Func()
	p.wfile, p.wline, p.wfn = here()
	p.rline, p.frow, p.wline = p.wline-2, p.wline-1, p.wline-3
	return
}

type spot struct{}

//go:noinline
func (spot) where() (p place) {
	p.file, p.line = fs.FileLine()
	p.rel, p.relLine = fs.RelateFileLine()
	p.fn = fs.Func()
	p.wfile, p.wline, p.wfn = here()
	p.rline, p.frow, p.wline = p.wline-2, p.wline-1, p.wline-3
	return
}

//go:noinline
func whereG[T any](_ T) (p place) {
	p.file, p.line = fs.FileLine()
	p.rel, p.relLine = fs.RelateFileLine()
	p.fn = fs.Func()
	p.wfile, p.wline, p.wfn = here()
	p.rline, p.frow, p.wline = p.wline-2, p.wline-1, p.wline-3
	return
}

type spotG[T any] struct{ x T }

//go:noinline
func (s *spotG[T]) where() (p place) {
	func() {
		p.file, p.line = fs.FileLine()
		p.rel, p.relLine = fs.RelateFileLine()
		p.fn = fs.Func()
		p.wfile, p.wline, p.wfn = here()
		p.rline, p.frow, p.wline = p.wline-2, p.wline-1, p.wline-3
	}()
	return
}

func runPlace(c *mon.Case) {
	viaClosure := func() (p place) {
		p.file, p.line = fs.FileLine()
		p.rel, p.relLine = fs.RelateFileLine()
		p.fn = fs.Func()
		p.wfile, p.wline, p.wfn = here()
		p.rline, p.frow, p.wline = p.wline-2, p.wline-1, p.wline-3
		return
	}
	fns := []func() place{whereA, spot{}.where, viaClosure,
		func() place { return whereG(1) }, func() place { return whereG("") }, (&spotG[int]{}).where, (&spotG[spot]{}).where, func() place {
			ch := make(chan place)
			go func() { ch <- whereA() }()
			return <-ch
		}}
	for i, f := range fns {
		p := f()
		c.Assert(p.file == p.wfile && p.line == p.wline, "#%d: FileLine gives %s:%d, expected %s:%d", i, p.file, p.line, p.wfile, p.wline)
		c.Assert(p.relLine == p.rline, "#%d: RelateFileLine gives line %d, expected %d", i, p.relLine, p.rline)
		c.Assert(clean(fs.GoPath()+"/"+p.rel) == clean(p.wfile), "#%d: RelateFileLine gives %q, which is %q from GOPATH, expected %q", i, p.rel, clean(fs.GoPath()+"/"+p.rel), p.wfile)
		c.Assert(p.fn == fmt.Sprintf("%s : %d", p.wfn, p.frow), "#%d: Func gives %q, expected %q", i, p.fn, fmt.Sprintf("%s : %d", p.wfn, p.frow))
		c.Seen(mon.HashInit.Str(p.fn))
		c.Sample("%s at %s:%d", p.fn, p.rel, p.line)
	}
	c.Eval(len(fns) * 3)
}

func init() {
	mon.Register(&mon.Prop{ID: "C35",
		Rule: "one evaluation = one decided claim about one path; distinct = distinct raw paths",
		Sections: []mon.Section{
			{Name: "paths", Quick: 2000, Thorough: 60000, Run: runPaths},
			{Name: "chdir", Quick: 40, Thorough: 600, Run: runChdir},
		}})
	mon.Register(&mon.Prop{ID: "C43",
		Rule: "one evaluation = one decided claim about the text of one size; distinct = distinct sizes",
		Sections: []mon.Section{
			{Name: "text", Quick: 2000, Thorough: 60000, Run: runSize},
		}})
	mon.Register(&mon.Prop{ID: "C45",
		Rule: "one evaluation = one reported place compared with the runtime's own; distinct = distinct places",
		Sections: []mon.Section{
			{Name: "places", Quick: 50, Thorough: 500, Run: runPlace},
			{Name: "sites", Quick: 50, Thorough: 500, Run: runSites},
		}})
}
