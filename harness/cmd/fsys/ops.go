package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/vipally/gx/fs"
	"vp/mon"
)

// contained tells whether code that moves and removes files may run: only as
// a user who owns nothing but the scratch directory.
func contained(c *mon.Case) bool {
	if os.Geteuid() == 0 {
		c.Inconclusive("running as root: files are not moved")
		return false
	}
	return true
}

// runMove: a moved, renamed or linked file is found at the documented place.
func runMove(c *mon.Case) {
	if !contained(c) {
		return
	}
	r := c.R
	base, done := scratch(c)
	defer done()
	old := mustWd(c)
	defer os.Chdir(old)
	// two equal trees: one for the package, one for the reference
	for _, d := range []string{"A", "B"} {
		for _, s := range []string{"w/x/y", "w/z", "w/x/full"} {
			must(c, os.MkdirAll(filepath.Join(base, d, s), 0755))
		}
		must(c, os.WriteFile(filepath.Join(base, d, "w/f"), []byte("content of f"), 0644))
		must(c, os.WriteFile(filepath.Join(base, d, "w/x/g"), []byte("content of g"), 0600))
		must(c, os.WriteFile(filepath.Join(base, d, "w/x/full/h"), []byte("content of h"), 0644))
		for n, to := range map[string]string{"w/lf": "f", "w/x/la": filepath.Join(base, d, "w/f"), "w/ld": "x", "w/x/ln": "nowhere", "w/ll": "lf"} {
			must(c, os.Symlink(to, filepath.Join(base, d, n)))
		}
	}
	A, B := filepath.Join(base, "A"), filepath.Join(base, "B")
	must(c, os.Chdir(filepath.Join(A, "w")))
	srcs := []string{"f", "x/g", "x/full/h", "x/full", "z", "x", "missing", "x/missing/q", "lf", "x/la", "ld", "x/ln", "ll"}
	dsts := []string{"new", "x/new", "../new", "./new", "x/../new", "z/../z/new", "f", "g", "full", "y", "h", "nodir/new", "x/y/new", "../../w/new2", "new/", "z/", "y//", "x/./", "lf", "ld", "ld/new", "la", "ld/", "", " new", "new ", "new\t", "x/ new", "z/.new", "new.", "~new", "$HOME", "a:b", "a\\b", "new*", "x/\xff", strings.Repeat("n", 255), strings.Repeat("n", 256)}
	for step := 0; step < 6; step++ {
		src := srcs[r.Intn(len(srcs))]
		dst := dsts[r.Intn(len(dsts))]
		me := src // relative to the working directory A/w
		if r.Bool() {
			me = filepath.Join(A, "w", src)
		}
		// where it has to go: absolute as it is, else from the directory of me
		rel := clean(clean("w/"+src+"/..") + "/" + dst)
		arg := dst
		if r.Intn(10) == 0 { // onto itself
			dst = clean("/" + src)
			dst = dst[strings.LastIndexByte(dst, '/')+1:]
			arg = dst
			rel = clean("w/" + src)
		}
		self := rel == clean("w/"+src)
		if strings.HasPrefix(rel, "..") {
			continue
		}
		wantPath := clean(clean(me+"/..") + "/" + dst)
		if src == me && !strings.Contains(src, "/") {
			wantPath = clean(dst)
		}
		if r.Intn(3) == 0 && !self {
			arg = filepath.Join(A, rel)
			wantPath = arg
			if r.Intn(3) == 0 {
				arg += "/"
			}
		}
		refSrc, refDst := filepath.Join(B, "w", src), filepath.Join(B, rel)
		op := []string{"Rename", "Move", "Link", "Symlink"}[r.Intn(4)]
		p := fs.FilePath(me)
		var n fs.FilePathObject
		var err, rerr error
		switch op {
		case "Rename":
			n, err = p.Rename(arg)
			rerr = os.Rename(refSrc, refDst)
		case "Move":
			n, err = p.Move(arg)
			rerr = os.Rename(refSrc, refDst)
		case "Link":
			n, err = p.Link(arg)
			rerr = os.Link(refSrc, refDst)
		default:
			n, err = p.Symlink(arg)
			text := refSrc
			if me == src { // a relative source is the link's text as it is
				text = clean(me)
			}
			rerr = os.Symlink(text, refDst)
		}
		c.Logf("%s(%q -> %q) in A/w: %q, %v; reference %v", op, me, arg, n, err, rerr)
		what := fmt.Sprintf("%q.%s(%q)", me, op, arg)
		c.Assert((err != nil) == (rerr != nil), "%s gives %v, the reference %v", what, err, rerr)
		c.Assert(n.String() == wantPath, "%s reports the new path %q (and %v), expected %q", what, n, err, wantPath)
		if err == nil {
			_, e := os.Lstat(filepath.Join(A, rel))
			_, re := os.Lstat(refDst) // a path through the moved link leads nowhere
			c.Assert((e == nil) == (re == nil), "%s reports success and there is nothing at %q", what, rel)
			c.Count(op+" done", 1)
		} else {
			c.Count(op+" refused", 1)
		}
		ref := snapshot(B)
		for k, v := range ref { // absolute links stay in their own tree
			if strings.HasPrefix(v, "link "+B+"/") {
				ref[k] = "link " + A + strings.TrimPrefix(v, "link "+B)
			}
		}
		if d := diffSnap(ref, snapshot(A)); d != "" {
			c.Failf("%s: the tree is not as it should be: %s", what, d)
		}
		if op == "Link" && err == nil {
			a, e1 := os.Lstat(me)
			b, e2 := os.Lstat(filepath.Join(A, rel))
			c.Assert(self || e1 == nil && e2 == nil && os.SameFile(a, b), "%s made no hard link", what)
		}
		c.Seen(mon.HashInit.Str(op).Str(me[len(me)-1:]).Str(src).Str(arg[strings.LastIndexByte(arg, '/')+1:]).Str(dst))
	}
	c.Eval(6)
}

// runCross: what cannot be moved as a whole stays where it is.
func runCross(c *mon.Case) {
	if !contained(c) {
		return
	}
	r := c.R
	base, done := scratch(c)
	defer done()
	far, err := os.MkdirTemp("/dev/shm", "vp")
	if err != nil {
		c.Inconclusive("no second file system")
		return
	}
	defer os.RemoveAll(far)
	var s1, s2 syscall.Stat_t
	if syscall.Stat(base, &s1) != nil || syscall.Stat(far, &s2) != nil || s1.Dev == s2.Dev {
		c.Inconclusive("no second file system")
		return
	}
	src := filepath.Join(base, "src")
	if r.Bool() {
		must(c, os.WriteFile(src, r.Bytes(r.Intn(100)), 0644))
	} else {
		must(c, os.MkdirAll(filepath.Join(src, "in"), 0755))
		must(c, os.WriteFile(filepath.Join(src, "in", "f"), r.Bytes(r.Intn(100)), 0644))
	}
	dst := filepath.Join(far, "dst")
	if r.Intn(3) == 0 {
		must(c, os.WriteFile(dst, []byte("there already"), 0644))
	}
	from, to := snapshot(base), snapshot(far)
	ref := os.Rename(src, dst)
	c.Assert(ref != nil, "harness: rename between file systems works")
	for _, op := range []string{"Rename", "Move", "Link"} {
		var n fs.FilePathObject
		var err error
		switch op {
		case "Rename":
			n, err = fs.FilePath(src).Rename(dst)
		case "Move":
			n, err = fs.FilePath(src).Move(dst)
		default:
			n, err = fs.FilePath(src).Link(dst)
		}
		c.Assert(err != nil, "%s to another file system gives %q, nil; the system refuses it", op, n)
		if d := diffSnap(from, snapshot(base)) + diffSnap(to, snapshot(far)); d != "" {
			c.Failf("%s to another file system is refused (%v) and leaves %s", op, err, d)
		}
	}
	os.Remove(dst)
	n, err := fs.FilePath(src).Symlink(dst)
	t, rerr := os.Readlink(dst)
	c.Assert(err == nil && rerr == nil && t == src && n.String() == dst, "Symlink to another file system gives %q, %v; there is %q, %v", n, err, t, rerr)
	c.Eval(4)
	c.Count("refused between file systems", 3)
	c.Seen(mon.HashInit.Str(fmt.Sprint(len(from), len(to))))
}

// runCopy decides the operations that report success and may do nothing.
func runCopy(c *mon.Case) {
	if !contained(c) {
		return
	}
	base, done := scratch(c)
	defer done()
	src := filepath.Join(base, "src")
	data := c.R.Bytes(c.R.Sizes(2000, 10, 300000))
	must(c, os.WriteFile(src, data, 0644))
	before := snapshot(base)
	for _, arg := range []string{"dst", filepath.Join(base, "dst2")} {
		dst := arg
		if arg == "dst" {
			dst = filepath.Join(base, "dst")
		}
		n, err := fs.FilePath(src).Copy(arg)
		b, rerr := os.ReadFile(dst)
		switch {
		case err != nil: // refused: nothing may be half done
			_, e := os.Lstat(dst)
			c.Assert(os.IsNotExist(e), "Copy failed (%v) and left something", err)
		case rerr == nil && bytes.Equal(b, data) && n.String() == dst:
			sb, e := os.ReadFile(src)
			c.Assert(e == nil && bytes.Equal(sb, data), "Copy changed its source")
			before = snapshot(base)
		case n == "" && os.IsNotExist(rerr):
			c.Finding("copy-noop", "FilePathObject.Copy returns no error and copies nothing")
		default:
			c.Failf("Copy(%q) gives %q, nil; at the destination: %d bytes of %d, %v", arg, n, len(b), len(data), rerr)
		}
		if d := diffSnap(before, snapshot(base)); d != "" {
			c.Failf("Copy(%q): %s", arg, d)
		}
	}
	// Create of a missing file
	p := filepath.Join(base, "made")
	err := fs.Create(p)
	_, serr := os.Stat(p)
	if err == nil && serr != nil {
		c.Finding("create-noop", "fs.Create returns no error for a missing path and creates nothing")
	}
	// Create of what exists, in a process of its own
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VP_CHILD=create", "VP_ARG="+src)
	out, err := cmd.CombinedOutput()
	var xe *exec.ExitError
	switch {
	case err == nil, errors.As(err, &xe) && xe.ExitCode() == 7:
	case xe != nil && xe.ExitCode() == 8, strings.Contains(string(out), "stack overflow") && strings.Contains(string(out), "fs.Create"):
		c.Finding("create-recursion", "fs.Create of a path that exists calls itself without end")
	default:
		c.Failf("fs.Create of an existing file: %v\n%.500s", err, out)
	}
	b, rerr := os.ReadFile(src)
	c.Assert(rerr == nil && (bytes.Equal(b, data) || len(b) == 0), "fs.Create damaged an existing file")
	c.Eval(4)
	c.Seen(mon.HashInit.Bytes(data))
}

// errClass reduces an error to what a caller can act on.
func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case os.IsNotExist(err):
		return "not exist"
	case os.IsExist(err):
		return "exist"
	case os.IsPermission(err):
		return "permission"
	}
	var pe *os.PathError
	if errors.As(err, &pe) {
		return pe.Err.Error()
	}
	return "error"
}

// runAdapt applies the same random operations through FilePath to one tree and
// through package os to another.
func runAdapt(c *mon.Case) {
	if !contained(c) {
		return
	}
	r := c.R
	base, done := scratch(c)
	defer done()
	A, B := filepath.Join(base, "A"), filepath.Join(base, "B")
	e := genTree(r, 2, 4, false)
	writeTree(c, A, e)
	writeTree(c, B, e)
	paths := []string{"p", "q", "p/q", "p/q/r", "s", "l-dir", "l-file", "l-none", "l-loop", "l-dir/p", "l-up/p"}
	for _, d := range []string{A, B} {
		for n, to := range map[string]string{"l-dir": "p", "l-file": "s", "l-none": "nowhere", "l-loop": "l-loop", "l-up": "."} {
			os.Symlink(to, filepath.Join(d, n))
		}
	}
	for _, x := range e.list("", nil) {
		if x.rel != "" {
			paths = append(paths, x.rel, x.rel+"/p")
		}
	}
	perm := func() os.FileMode {
		if r.Intn(3) == 0 {
			return os.FileMode(r.Intn(512)) | []os.FileMode{0, 0, os.ModeSticky, os.ModeSetgid}[r.Intn(4)]
		}
		return []os.FileMode{0755, 0700, 0777}[r.Intn(3)]
	}
	// the modes of new directories, which are then opened to the harness
	modes := func(rel string) {
		at := ""
		for _, x := range strings.Split(rel, "/") {
			at = filepath.Join(at, x)
			pa, pb := filepath.Join(A, at), filepath.Join(B, at)
			fa, e1 := os.Lstat(pa)
			fb, e2 := os.Lstat(pb)
			c.Assert(errClass(e1) == errClass(e2), "after making %q: %q gives %v, the twin %v", rel, at, e1, e2)
			if e1 != nil || !fa.IsDir() || !fb.IsDir() {
				return
			}
			c.Assert(fa.Mode() == fb.Mode(), "after making %q: %q has the mode %v, the twin %v", rel, at, fa.Mode(), fb.Mode())
			if fa.Mode()&0700 != 0700 {
				must(c, os.Chmod(pa, fa.Mode()|0700))
				must(c, os.Chmod(pb, fb.Mode()|0700))
			}
		}
	}
	// files of an old date: an operation that touches one brings it up to date
	old := time.Unix(1000000000, 0)
	age := func(rel string) {
		for _, d := range []string{A, B} {
			if fi, err := os.Lstat(filepath.Join(d, rel)); err == nil && fi.Mode().IsRegular() {
				os.Chtimes(filepath.Join(d, rel), old, old)
			}
		}
	}
	aged := func(what, rel string) {
		fa, e1 := os.Lstat(filepath.Join(A, rel))
		fb, e2 := os.Lstat(filepath.Join(B, rel))
		if e1 == nil && e2 == nil && fa.Mode().IsRegular() && fb.Mode().IsRegular() {
			c.Assert(fa.ModTime().Equal(old) == fb.ModTime().Equal(old), "%s(%q) leaves the time %v, package os %v (both were %v)", what, rel, fa.ModTime(), fb.ModTime(), old)
		}
	}
	wd := mustWd(c)
	defer os.Chdir(wd)
	steps := r.Range(5, 40)
	defer syscall.Umask(syscall.Umask([]int{022, 0, 002, 027, 077}[r.Intn(5)]))
	for i := 0; i < steps; i++ {
		rel := paths[r.Intn(len(paths))]
		raw := A + "/" + rel
		if r.Intn(3) == 0 {
			raw = A + "/./" + rel + "/x/.."
		}
		relative := r.Intn(4) == 0
		if relative { // from the working directory
			must(c, os.Chdir(A))
			raw = rel
			if r.Intn(3) == 0 {
				raw = "./x/../" + rel
			}
		}
		p, ref := fs.FilePath(raw), filepath.Join(B, rel)
		what, ge, we := "", error(nil), error(nil)
		gv, wv := "", ""
		switch r.Intn(16) {
		case 0:
			m := perm()
			what = "Mkdir"
			ge, we = p.Mkdir(fs.FileMode(m)), os.Mkdir(ref, m)
			modes(rel)
		case 1:
			m := perm()
			what = "MkdirAll"
			ge, we = p.MkdirAll(fs.FileMode(m)), os.MkdirAll(ref, m)
			modes(rel)
		case 2:
			what = "Remove"
			ge, we = p.Remove(), os.Remove(ref)
		case 3:
			what = "RemoveAll"
			ge, we = p.RemoveAll(), os.RemoveAll(ref)
		case 4:
			what = "Truncate"
			n := int64(r.Intn(200))
			if fi, e := os.Stat(ref); e == nil && !fi.IsDir() && r.Intn(3) == 0 {
				n = fi.Size() + int64(r.Intn(3)-1)
			} else if r.Intn(8) == 0 {
				n = int64(r.U64()>>uint(r.Range(24, 63))) * int64(1-2*r.Intn(2))
			}
			age(rel)
			ge, we = p.Truncate(n), os.Truncate(ref, n)
			aged(what, rel)
			if n > 1<<20 { // huge and sparse: not to be read by what follows
				fa, e1 := os.Stat(A + "/" + rel)
				fb, e2 := os.Stat(ref)
				if e1 == nil && e2 == nil && !fa.IsDir() && !fb.IsDir() {
					c.Assert(fa.Size() == fb.Size(), "Truncate(%q, %d) leaves %d bytes, package os %d", rel, n, fa.Size(), fb.Size())
					os.Truncate(A+"/"+rel, 100)
					os.Truncate(ref, 100)
				}
			}
		case 5, 6:
			what = "Create"
			b := r.Bytes(r.Intn(50))
			age(rel)
			f, e1 := p.Create()
			g, e2 := os.Create(ref)
			ge, we = e1, e2
			gv, wv = fdText(f, e1), fdText(g, e2)
			if e1 == nil {
				f.Write(b)
				f.Close()
			}
			if e2 == nil {
				g.Write(b)
				g.Close()
			}
			aged(what, rel)
		case 7:
			what = "Open"
			age(rel)
			if fi, e := os.Lstat(ref); e == nil && fi.Mode().IsRegular() && r.Bool() {
				m := os.FileMode([]int{0, 0200, 0400, 0600, 0300}[r.Intn(5)])
				os.Chmod(A+"/"+rel, m)
				os.Chmod(ref, m)
			}
			f, e1 := p.Open()
			g, e2 := os.Open(ref)
			ge, we = e1, e2
			gv, wv = fdText(f, e1), fdText(g, e2)
			gv, wv = gv+slurp(f, e1), wv+slurp(g, e2)
			aged(what, rel)
		case 8, 9:
			what = "OpenFile"
			fl := []int{os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_WRONLY | os.O_CREATE | os.O_EXCL, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_TRUNC, os.O_RDONLY, os.O_WRONLY | os.O_CREATE | os.O_TRUNC, os.O_RDONLY | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_SYNC, os.O_RDWR | os.O_CREATE | os.O_APPEND, os.O_RDONLY | os.O_CREATE, os.O_RDONLY | syscall.O_NOFOLLOW, os.O_RDONLY | syscall.O_DIRECTORY, os.O_WRONLY, os.O_RDWR | os.O_TRUNC | os.O_APPEND}[r.Intn(15)]
			m := os.FileMode(0600 | r.Intn(8)*8)
			if r.Chance(1, 3) {
				m = os.FileMode([]int{0, 0400, 0444, 0200, 0100, 0777, 0440, 0666}[r.Intn(8)])
			}
			b := r.Bytes(r.Intn(20))
			f, e1 := p.OpenFile(fl, fs.FileMode(m))
			g, e2 := os.OpenFile(ref, fl, m)
			ge, we = e1, e2
			gv, wv = fdText(f, e1), fdText(g, e2)
			if e1 == nil {
				n1, x1 := f.Write(b)
				gv += fmt.Sprint(n1, errClass(x1), slurp(f, nil))
			}
			if e2 == nil {
				n2, x2 := g.Write(b)
				wv += fmt.Sprint(n2, errClass(x2), slurp(g, nil))
			}
		case 10:
			what = "Chmod"
			m := os.FileMode(0700 | r.Intn(64))
			if fi, e := os.Stat(ref); e == nil && !fi.IsDir() && r.Chance(1, 3) {
				m = os.FileMode(r.Intn(512))
			}
			if r.Intn(3) == 0 {
				m |= []os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSticky, os.ModeSetuid | os.ModeSticky}[r.Intn(4)]
			}
			ge, we = p.Chmod(fs.FileMode(m)), os.Chmod(ref, m)
		case 11:
			what = "Chtimes"
			t := time.Unix(int64(r.Range(1, 1<<32)), int64(r.Intn(2)*r.Intn(1000000000)))
			a := time.Unix(int64(r.Range(1, 1<<32)), int64(r.Intn(2)*r.Intn(1000000000)))
			if r.Chance(1, 8) {
				t = time.Unix(-int64(r.Intn(1<<31)), 0)
			}
			ge, we = p.Chtimes(a, t), os.Chtimes(ref, a, t)
			if ge == nil {
				fi, e1 := os.Stat(p.String())
				c.Assert(e1 == nil && fi.ModTime().Equal(t), "Chtimes(%q) left the time %v, expected %v", rel, fi.ModTime(), t)
				gfi, e2 := os.Stat(ref)
				must(c, e2)
				x, y := fi.Sys().(*syscall.Stat_t), gfi.Sys().(*syscall.Stat_t)
				c.Assert(x.Atim == y.Atim && x.Mtim == y.Mtim, "Chtimes(%q) left the times %v and %v, package os %v and %v", rel, x.Atim, x.Mtim, y.Atim, y.Mtim)
			}
		case 12:
			what = "Stat"
			f, e1 := p.Stat()
			g, e2 := os.Stat(ref)
			ge, we, gv, wv = e1, e2, statText(f, e1), statText(g, e2)
		case 13:
			what = "Lstat"
			f, e1 := p.Lstat()
			g, e2 := os.Lstat(ref)
			ge, we, gv, wv = e1, e2, statText(f, e1), statText(g, e2)
		case 14:
			what = "Readlink"
			text := []string{"to/" + rel, "to//" + rel, "./" + rel, "to/../" + rel, rel + "/", "nowhere/.", "./.", "a\\b", " sp ", "//x/./y/", strings.Repeat("long/", r.Range(20, 700))}[r.Intn(11)]
			if r.Chance(1, 2) { // in place of what is there
				os.Remove(p.String())
				os.Remove(ref)
			}
			os.Symlink(text, p.String())
			os.Symlink(text, ref)
			gv, ge = p.Readlink()
			wv, we = os.Readlink(ref)
		default:
			what = "EvalSymlinks"
			gv, ge = p.EvalSymlinks()
			if relative {
				must(c, os.Chdir(B))
				wv, we = filepath.EvalSymlinks(rel)
				must(c, os.Chdir(A))
			} else {
				wv, we = filepath.EvalSymlinks(ref)
			}
			gv, wv = strings.TrimPrefix(gv, A), strings.TrimPrefix(wv, B)
		}
		c.Logf("%s(%q): %v, reference %v", what, rel, ge, we)
		c.Assert(errClass(ge) == errClass(we), "%s(%q) gives %v, package os %v", what, rel, ge, we)
		c.Assert(gv == wv, "%s(%q) gives %q, package os %q", what, rel, gv, wv)
		if d := diffSnap(snapshot(B), snapshot(A)); d != "" {
			c.Failf("%s(%q): not what package os does: %s", what, rel, d)
		}
		c.Count(what+": "+map[bool]string{true: "done", false: "refused"}[ge == nil], 1)
		c.Seen(mon.HashInit.Str(what).Str(rel).Str(errClass(ge)))
	}
	// ownership: only to oneself
	uid, gid := os.Getuid(), os.Getgid()
	c.Assert(errClass(fs.FilePath(A).Chown(uid, gid)) == errClass(os.Chown(B, uid, gid)), "Chown to oneself differs from package os")
	c.Assert(errClass(fs.FilePath(A).Lchown(uid, gid)) == errClass(os.Lchown(B, uid, gid)), "Lchown to oneself differs from package os")
	// a dangling and a good link: owner changes follow the link, or not
	for _, l := range []string{"to-nothing", "to-dir"} {
		for _, d := range []string{A, B} {
			os.Symlink(map[string]string{"to-nothing": "nowhere-at-all", "to-dir": "."}[l], filepath.Join(d, l))
		}
		pa, pb := fs.FilePath(filepath.Join(A, l)), filepath.Join(B, l)
		c.Assert(errClass(pa.Chown(uid, gid)) == errClass(os.Chown(pb, uid, gid)), "Chown of a link %s differs from package os", l)
		c.Assert(errClass(pa.Lchown(uid, gid)) == errClass(os.Lchown(pb, uid, gid)), "Lchown of a link %s differs from package os", l)
		c.Assert(errClass(pa.Chown(-1, 0)) == errClass(os.Chown(pb, -1, 0)) && errClass(pa.Lchown(0, -1)) == errClass(os.Lchown(pb, 0, -1)), "Chown of a link %s to root differs from package os", l)
		c.Assert(errClass(pa.Chown(-1, gid)) == errClass(os.Chown(pb, -1, gid)) && errClass(pa.Lchown(uid, -1)) == errClass(os.Lchown(pb, uid, -1)), "Chown of a link %s differs from package os", l)
	}
	// groups the user is in
	os.Chmod(A, 0755)
	os.Chmod(B, 0755)
	for k := 0; k < 6; k++ {
		gs, _ := os.Getgroups()
		gs = append(gs, gid, gid, 0, -1, 4711)
		g, u := gs[r.Intn(len(gs))], []int{-1, -1, uid, 0, 4711}[r.Intn(5)]
		l := []string{"own-file", "own-link", "own-dir"}[r.Intn(3)]
		for _, d := range []string{A, B} {
			os.WriteFile(filepath.Join(d, "own-file"), nil, 0644)
			os.Mkdir(filepath.Join(d, "own-dir"), 0755)
			os.Symlink("own-file", filepath.Join(d, "own-link"))
		}
		var ge, we error
		what := "Chown"
		if r.Bool() {
			ge, we = fs.FilePath(filepath.Join(A, l)).Chown(u, g), os.Chown(filepath.Join(B, l), u, g)
		} else {
			what = "Lchown"
			ge, we = fs.FilePath(filepath.Join(A, l)).Lchown(u, g), os.Lchown(filepath.Join(B, l), u, g)
		}
		c.Assert(errClass(ge) == errClass(we), "%s(%q, %d, %d) gives %v, package os %v", what, l, u, g, ge, we)
		for _, x := range []string{"own-file", "own-link", "own-dir", "."} {
			fa, e1 := os.Lstat(filepath.Join(A, x))
			fb, e2 := os.Lstat(filepath.Join(B, x))
			must(c, e1)
			must(c, e2)
			sa, sb := fa.Sys().(*syscall.Stat_t), fb.Sys().(*syscall.Stat_t)
			c.Assert(sa.Uid == sb.Uid && sa.Gid == sb.Gid, "%s(%q, %d, %d) leaves %q with owner %d:%d, package os %d:%d", what, l, u, g, x, sa.Uid, sa.Gid, sb.Uid, sb.Gid)
		}
		if ge == nil {
			c.Count("owner changed", 1)
		}
	}
	c.Assert(errClass(fs.FilePath(A).Chown(0, 0)) == errClass(os.Chown(B, 0, 0)), "Chown to root differs from package os")
	var fd [2]int
	if syscall.Pipe2(fd[:], syscall.O_CLOEXEC) == nil {
		f := fs.FilePath("/some/name").NewFile(uintptr(fd[1]))
		c.Assert(f != nil && f.Name() == "/some/name", "NewFile gives %v", f)
		f.WriteString("x")
		b := make([]byte, 1)
		f.Close()
		syscall.Read(fd[0], b)
		syscall.Close(fd[0])
		c.Assert(b[0] == 'x', "NewFile writes elsewhere")
	}
	c.Eval(steps)
}

// fdText is how a file is open: the flags the system keeps.
func fdText(f *os.File, err error) string {
	if err != nil {
		return ""
	}
	b, _ := os.ReadFile(fmt.Sprintf("/proc/self/fdinfo/%d", f.Fd()))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "flags:") {
			return l + " "
		}
	}
	return ""
}

func slurp(f *os.File, err error) string {
	if err != nil {
		return ""
	}
	defer f.Close()
	b, _ := io.ReadAll(f)
	return string(b)
}

func statText(fi os.FileInfo, err error) string {
	if err != nil {
		return ""
	}
	s := int64(0)
	if !fi.IsDir() {
		s = fi.Size()
	}
	return fmt.Sprintf("%s %v %d", fi.Name(), fi.Mode(), s)
}

func init() {
	mon.Register(&mon.Prop{ID: "C38",
		Rule: "one evaluation = one operation whose whole effect on the tree is compared with that of package os on the documented destination; distinct = distinct (operation, source, destination)",
		Sections: []mon.Section{
			{Name: "move", Quick: 500, Thorough: 12000, Run: runMove},
			{Name: "cross", Quick: 12, Thorough: 200, Run: runCross},
			{Name: "copy", Quick: 6, Thorough: 40, Run: runCopy},
		}})
	mon.Register(&mon.Prop{ID: "C46",
		Rule: "one evaluation = one operation applied through FilePath to one tree and through package os to a twin, trees and results compared; distinct = distinct (operation, path, outcome)",
		Sections: []mon.Section{
			{Name: "twins", Quick: 490, Thorough: 6000, Run: runAdapt},
		}})
}
