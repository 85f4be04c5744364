package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vipally/gx/fs"
	"vp/mon"
)

type listed struct {
	rel  string
	kind byte // d, f (anything that is no directory)
	leaf bool // a directory without a directory in it
	top  bool
}

func (e *ent) list(rel string, out []listed) []listed {
	leaf := true
	for _, k := range e.kids {
		p := k.name
		if rel != "" {
			p = rel + "/" + k.name
		}
		if k.kind == 'd' {
			leaf = false
			out = k.list(p, out)
		} else {
			out = append(out, listed{rel: p, kind: 'f', top: rel == ""})
		}
	}
	return append(out, listed{rel: rel, kind: 'd', leaf: leaf, top: rel != "" && !strings.Contains(rel, "/")})
}

// wanted is the declarative reading of the options over the tree as written.
func wanted(e *ent, dir string, opt fs.FsOption) (l []string) {
	has := func(o fs.FsOption) bool { return opt&o == o }
	for _, x := range e.list("", nil) {
		take := false
		switch {
		case x.kind == 'f':
			take = has(fs.FsFile) && (x.top || has(fs.FsDeep) || has(fs.FsLeaf))
		case has(fs.FsLeaf):
			take = has(fs.FsDir) && x.leaf
		case x.rel != "":
			take = has(fs.FsDir) && (x.top || has(fs.FsDeep))
		}
		if !take {
			continue
		}
		full := clean(dir + "/" + x.rel)
		if has(fs.FsFullPath) {
			l = append(l, full)
		} else {
			l = append(l, full[strings.LastIndexByte(full, '/')+1:])
		}
	}
	sort.Strings(l)
	return
}

func sorted(l []string) []string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return l
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runListing(c *mon.Case) {
	r := c.R
	// also where an empty directory has the size 0
	base, done := scratchIn(c, []string{"", "", "", "/dev/shm"}[c.Idx%4])
	defer done()
	dir := filepath.Join(base, "t")
	e := growTree(r, genTree(r, r.Intn(5), r.Range(1, 7), true))
	writeTree(c, dir, e)
	addHard(c, dir, e)
	before := snapshot(base)
	arg := dir
	if r.Bool() { // the same directory by another name
		if rel, err := filepath.Rel(mustWd(c), dir); err == nil {
			arg = rel
		}
	}
	for opt := fs.FsOption(0); opt < 32; opt++ {
		got, err := fs.CollectSubs(arg, opt)
		c.Assert(err == nil, "CollectSubs(options %b): %v", opt, err)
		want := wanted(e, arg, opt)
		c.Assert(sameList(sorted(got), want), "CollectSubs(%q, options %b [1 dir, 2 file, 4 full, 8 deep, 16 leaf]) gives %q, expected %q", arg, opt, sorted(got), want)
		c.Count("entries listed", len(got))
	}
	// the same directory spelled in another way
	odd := []string{arg + "/", arg + "//", filepath.Dir(arg) + "/./" + filepath.Base(arg), arg + "/../" + filepath.Base(arg), "./" + arg}[r.Intn(5)]
	if filepath.IsAbs(arg) && odd == "./"+arg {
		odd = "/" + arg
	}
	noDir := true // in the root
	for _, k := range e.kids {
		noDir = noDir && k.kind != 'd'
	}
	for opt := fs.FsOption(0); opt < 32; opt++ {
		if noDir && opt&(fs.FsLeaf|fs.FsDir|fs.FsFullPath) == fs.FsLeaf|fs.FsDir { // the name of the root itself
			continue
		}
		got, err := fs.CollectSubs(odd, opt)
		c.Assert(err == nil, "CollectSubs(%q, options %b): %v", odd, opt, err)
		for i, s := range got {
			if s == odd { // the root itself, as it was given
				got[i] = clean(s)
			}
		}
		want := wanted(e, odd, opt)
		c.Assert(sameList(sorted(got), want), "CollectSubs(%q, options %b [1 dir, 2 file, 4 full, 8 deep, 16 leaf]) gives %q, expected %q", odd, opt, sorted(got), want)
	}
	for _, x := range []struct {
		name string
		f    func(string) ([]string, error)
		opt  fs.FsOption
	}{{"GetLeafDirs", fs.GetLeafDirs, fs.FsDir | fs.FsLeaf | fs.FsFullPath}, {"GetSubDirs", fs.GetSubDirs, fs.FsDir}, {"GetSubFiles", fs.GetSubFiles, fs.FsFile},
		{"GetSubs", fs.GetSubs, fs.FsDir | fs.FsFile}, {"GetDeepFiles", fs.GetDeepFiles, fs.FsFile | fs.FsDeep}} {
		got, err := x.f(arg)
		c.Assert(err == nil, "%s: %v", x.name, err)
		want := wanted(e, arg, x.opt)
		c.Assert(sameList(sorted(got), want), "%s(%q) gives %q, expected %q", x.name, arg, sorted(got), want)
	}
	// statistics and walking
	nd, nf, size := 0, 0, uint64(0)
	for _, x := range e.list("", nil) {
		if x.kind == 'd' {
			nd++
		} else {
			nf++
		}
	}
	var sum func(e *ent)
	sum = func(e *ent) {
		size += uint64(len(e.data)) + uint64(e.holes)
		if e.kind == 'l' {
			size += uint64(len(e.to))
		}
		for _, k := range e.kids {
			sum(k)
		}
	}
	sum(e)
	gd, gf, gs, info := fs.FilePath(arg).Statistic()
	c.Assert(gd == nd && gf == nf && gs == size && info == "", "Statistic gives %d dirs, %d files, %d bytes, %q; expected %d, %d, %d", gd, gf, gs, info, nd, nf, size)
	var walked []string
	err := fs.FilePath(arg).Walk(func(p string, fi fs.FileInfo, err error) error {
		c.Assert(err == nil && fi != nil, "Walk reports %v at %q", err, p)
		walked = append(walked, p)
		return nil
	})
	var all []string
	for _, x := range e.list("", nil) {
		all = append(all, clean(arg+"/"+x.rel))
	}
	c.Assert(err == nil && sameList(sorted(walked), sorted(all)), "Walk visits %q, expected %q", sorted(walked), sorted(all))
	stop := fmt.Errorf("stop")
	n := 0
	err = fs.FilePath(arg).Walk(func(p string, fi fs.FileInfo, err error) error { n++; return stop })
	c.Assert(err == stop && n == 1, "Walk gives %v after %d calls when the first is to stop it", err, n)
	// told to skip: a directory with all in it, or the rest of the directory a file is in
	skip := all[r.Intn(len(all))]
	record := func(l *[]string) func(p string, dir bool, err error) error {
		return func(p string, dir bool, err error) error {
			*l = append(*l, fmt.Sprint(p, dir, err))
			if p == skip {
				return filepath.SkipDir
			}
			return nil
		}
	}
	var l1, l2 []string
	r1, r2 := record(&l1), record(&l2)
	e1 := fs.FilePath(arg).Walk(func(p string, fi fs.FileInfo, err error) error { return r1(p, fi.IsDir(), err) })
	e2 := filepath.Walk(arg, func(p string, fi os.FileInfo, err error) error { return r2(p, fi.IsDir(), err) })
	c.Assert(fmt.Sprint(e1) == fmt.Sprint(e2) && sameList(l1, l2), "Walk that is told to skip %q visits %q (%v), expected %q (%v)", skip, l1, e1, l2, e2)
	if d := diffSnap(before, snapshot(base)); d != "" {
		c.Failf("listing changed the tree: %s", d)
	}
	c.NoneOpen(base)
	c.Eval(72)
	c.Seen(hashTree(mon.HashInit, e))
	c.Max("entries in one tree", len(all))
	c.Sample("%d directories, %d files, %d bytes", nd, nf, size)
}

func mustWd(c *mon.Case) string {
	d, err := os.Getwd()
	must(c, err)
	return d
}

// runListingFault: what cannot be read is reported, never left out silently.
func runListingFault(c *mon.Case) {
	r := c.R
	base, done := scratch(c)
	defer done()
	missing := filepath.Join(base, "missing")
	file := filepath.Join(base, "file")
	must(c, os.WriteFile(file, []byte("x"), 0644))
	for _, p := range []string{missing, file, filepath.Join(file, "x"), ""} {
		for opt := fs.FsOption(0); opt < 32; opt++ {
			got, err := fs.CollectSubs(p, opt)
			c.Assert(err != nil && len(got) == 0, "CollectSubs(%q, options %b) gives %q, %v", p, opt, got, err)
		}
		for _, f := range []func(string) ([]string, error){fs.GetLeafDirs, fs.GetSubDirs, fs.GetSubFiles, fs.GetSubs, fs.GetDeepFiles} {
			_, err := f(p)
			c.Assert(err != nil, "a listing of %q gives no error", p)
		}
	}
	_, _, _, info := fs.FilePath(missing).Statistic()
	c.Assert(strings.Contains(info, missing), "Statistic of a missing path reports %q", info)
	if os.Geteuid() == 0 {
		c.Inconclusive("running as root: no directory is unreadable")
		return
	}
	// one directory somewhere below cannot be read
	dir := filepath.Join(base, "t")
	e := genTree(r, 3, 5, false)
	writeTree(c, dir, e)
	var dirs []string
	for _, x := range e.list("", nil) {
		if x.kind == 'd' {
			dirs = append(dirs, x.rel)
		}
	}
	if len(dirs) < 2 {
		must(c, os.Mkdir(filepath.Join(dir, "only"), 0755))
		dirs = append(dirs, "only")
	}
	bad := dirs[r.Intn(len(dirs))]
	badp := filepath.Join(dir, bad)
	must(c, os.Chmod(badp, 0))
	defer os.Chmod(badp, 0755)
	for opt := fs.FsOption(0); opt < 32; opt++ {
		got, err := fs.CollectSubs(dir, opt)
		if bad == "" || opt&(fs.FsDeep|fs.FsLeaf) != 0 {
			c.Assert(err != nil, "CollectSubs(options %b) gives %d entries and no error although %q cannot be read", opt, len(got), bad)
			c.Count("unreadable directories reported", 1)
		} else {
			c.Assert(err == nil, "CollectSubs(options %b): %v", opt, err)
		}
	}
	_, err := fs.GetDeepFiles(dir)
	_, err2 := fs.GetLeafDirs(dir)
	c.Assert(err != nil && err2 != nil, "GetDeepFiles and GetLeafDirs give %v and %v although %q cannot be read", err, err2, bad)
	nd, nf, size, info := fs.FilePath(dir).Statistic()
	wd, wf, ws := 0, 0, uint64(0)
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			wd++
		} else if err == nil {
			wf++
			ws += uint64(fi.Size())
		}
		return nil
	})
	c.Assert((nd == wd || nd == wd+1) && nf == wf && size == ws, "Statistic gives %d directories, %d files and %d bytes, expected %d, %d and %d: %q cannot be read", nd, nf, size, wd, wf, ws, bad)
	c.Assert(strings.Contains(info, clean(badp)), "Statistic reports %q although %q cannot be read", info, bad)
	// very many that cannot be read: each is reported, all else is counted
	if c.Idx%4 == 0 {
		many := filepath.Join(base, "many")
		n, ok := r.Sizes(20, 3, 300)+1, 0
		for i := 0; i < n; i++ {
			d := filepath.Join(many, fmt.Sprintf("%03d-%s", i, strings.Repeat("long", r.Intn(20))))
			must(c, os.MkdirAll(d, 0755))
			must(c, os.WriteFile(filepath.Join(many, fmt.Sprintf("%03d-z", i)), []byte("123"), 0644))
			if r.Intn(4) > 0 {
				must(c, os.Chmod(d, []os.FileMode{0, 0300, 0}[r.Intn(3)]))
				defer os.Chmod(d, 0755)
			} else {
				ok++
			}
		}
		nd, nf, size, info := fs.FilePath(many).Statistic()
		c.Assert((nd == ok+1 || nd == n+1) && nf == n && size == uint64(3*n), "Statistic gives %d directories, %d files and %d bytes, expected %d to %d, %d and %d: %d directories cannot be read", nd, nf, size, ok+1, n+1, n, 3*n, n-ok)
		filepath.Walk(many, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				c.Assert(strings.Contains(info, p), "Statistic does not report %q, which cannot be read (of %d in %d bytes)", p, n-ok, len(info))
				c.Count("unreadable directories reported", 1)
			}
			return nil
		})
	}
	c.NoneOpen(base)
	c.Eval(140)
	c.Seen(hashTree(mon.HashInit.Str(bad), e))
}

// runListingWide lists a directory with very many entries.
func runListingWide(c *mon.Case) {
	r := c.R
	base, done := scratch(c)
	defer done()
	dir := filepath.Join(base, "w")
	must(c, os.Mkdir(dir, 0755))
	n := []int{4097, 10500, 17000}[c.Idx%3] + r.Intn(50)
	e := &ent{kind: 'd'}
	for i := 0; i < n; i++ {
		e.kids = append(e.kids, &ent{name: fmt.Sprintf("f%d", i), kind: 'f'})
	}
	if r.Bool() {
		e.kids = append(e.kids, &ent{name: "sub", kind: 'd'})
	}
	writeTree(c, dir, e)
	for _, opt := range []fs.FsOption{fs.FsFile, fs.FsDir | fs.FsLeaf, fs.FsDir | fs.FsFile | fs.FsFullPath, fs.FsFile | fs.FsDeep, fs.FsDir} {
		got, err := fs.CollectSubs(dir, opt)
		c.Assert(err == nil, "CollectSubs(options %b) of %d entries: %v", opt, len(e.kids), err)
		want := wanted(e, dir, opt)
		c.Assert(sameList(sorted(got), want), "CollectSubs(options %b) of %d entries gives %d, expected %d", opt, len(e.kids), len(got), len(want))
	}
	nd, nf, _, info := fs.FilePath(dir).Statistic()
	c.Assert(nf == n && nd == 1+len(e.kids)-n && info == "", "Statistic gives %d directories and %d files (%q) of %d entries", nd, nf, info, len(e.kids))
	c.NoneOpen(base)
	c.Eval(6)
	c.Max("entries in one directory", len(e.kids))
	c.Seen(mon.HashInit.Add(uint64(n)))
}

func init() {
	mon.Register(&mon.Prop{ID: "C36",
		Rule: "one evaluation = one listing with one set of options of a tree the harness wrote; distinct = distinct trees",
		Sections: []mon.Section{
			{Name: "trees", Quick: 350, Thorough: 8000, Run: runListing},
			{Name: "wide", Quick: 3, Thorough: 12, Run: runListingWide, CPU: 60},
			{Name: "faults", Quick: 120, Thorough: 2500, Run: runListingFault},
		}})
}
