package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vipally/gx/fs"
	gxhash "github.com/vipally/gx/hash"
	"vp/mon"
)

type method struct {
	name string
	m    gxhash.HashMethod
	ref  func() hash.Hash
}

var methods = []method{
	{"MD5", fs.MD5, md5.New}, {"SHA1", fs.SHA1, sha1.New}, {"SHA256", fs.SHA256, sha256.New}, {"SHA512", fs.SHA512, sha512.New},
	{"CRC32", fs.CRC32, func() hash.Hash { return crc32.NewIEEE() }},
	{"CRC64", fs.CRC64, func() hash.Hash { return crc64.New(crc64.MakeTable(crc64.ISO)) }},
}

// rnode is the expected hash tree.
type rnode struct {
	path, hash string
	size       uint64
	dir        bool
	kids       []*rnode
}

func (e *ent) hashOf(path string, leaf func(data []byte) string, dirf func(kids []string, size uint64) string) *rnode {
	if e.kind == 'L' { // a link stands for what it leads to
		return e.tgt.hashOf(path, leaf, dirf)
	}
	n := &rnode{path: path, dir: e.kind == 'd'}
	if !n.dir {
		n.size = uint64(len(e.data))
		n.hash = leaf(e.data)
		return n
	}
	for _, k := range e.kids {
		q := k.hashOf(clean(path+"/"+k.name), leaf, dirf)
		n.kids = append(n.kids, q)
		n.size += q.size
	}
	sort.SliceStable(n.kids, func(i, j int) bool {
		a, b := n.kids[i], n.kids[j]
		if a.size != b.size {
			return a.size < b.size
		}
		return a.hash < b.hash
	})
	var hs []string
	for _, k := range n.kids {
		hs = append(hs, k.hash)
	}
	n.hash = dirf(hs, n.size)
	return n
}

func (n *rnode) all(out []string) []string {
	out = append(out, fmt.Sprintf("%q %s %d %v", n.path, n.hash, n.size, n.dir))
	for _, k := range n.kids {
		out = k.all(out)
	}
	return out
}

func gotNode(h fs.FileHash) string {
	return fmt.Sprintf("%q %s %d %v", h.Path, h.Hash, h.Size.N(), h.IsDir)
}

// compare checks the tree node by node; entries of equal size and hash may be
// in either order.
func compare(c *mon.Case, what string, got *fs.FileHashTreeNode, want *rnode) {
	c.Assert(got != nil, "%s gives no tree", what)
	all := got.All()
	var gl []string
	for _, h := range all {
		gl = append(gl, gotNode(h))
	}
	wl := want.all(nil)
	c.Assert(len(gl) > 0 && gl[0] == wl[0], "%s: the root is %s, expected %s", what, gl[0], wl[0])
	c.Assert(sameList(sorted(gl), sorted(wl)), "%s: the tree has %q, expected %q", what, sorted(gl), sorted(wl))
	v := got.Visitor()
	for i := 0; i < len(gl); i++ {
		c.Assert(v.Next() && gotNode(v.Get()) == gl[i], "%s: the visitor's entry %d is %s, expected %s", what, i, gotNode(v.Get()), gl[i])
	}
	c.Assert(!v.Next(), "%s: the visitor goes on after %d entries", what, len(gl))
	var rec func(g *fs.FileHashTreeNode, w *rnode)
	byPath := map[string]*rnode{}
	var index func(w *rnode)
	index = func(w *rnode) {
		byPath[w.path] = w
		for _, k := range w.kids {
			index(k)
		}
	}
	index(want)
	rec = func(g *fs.FileHashTreeNode, w *rnode) {
		c.Assert(g.NumChildren() == len(w.kids), "%s: %q has %d children, expected %d", what, w.path, g.NumChildren(), len(w.kids))
		for i, k := range g.Children() {
			h := k.All()[0]
			x := w.kids[i]
			c.Assert(h.Size.N() == x.size && h.Hash == x.hash, "%s: child %d of %q is %s, expected one of size %d and hash %s", what, i, w.path, gotNode(h), x.size, x.hash)
			y := byPath[h.Path]
			c.Assert(y != nil && clean(w.path) == clean(h.Path[:strings.LastIndexByte(h.Path, '/')+1]), "%s: %q is listed below %q", what, h.Path, w.path)
			rec(k, y)
		}
	}
	rec(got, want)
	c.Count("tree entries compared", len(gl))
}

func fpLeaf(data []byte) string {
	h := gxhash.NewFingerprint()
	h.Write(data)
	h.Resetsize(int64(len(data)))
	return h.String()
}

func fpDir(kids []string, size uint64) string {
	h := gxhash.NewFingerprint()
	for _, k := range kids {
		h.Write([]byte(k))
	}
	h.Resetsize(int64(size))
	return h.String()
}

func runHash(c *mon.Case) {
	r := c.R
	base, done := scratch(c)
	defer done()
	e := growTree(r, genTree(r, r.Intn(4), r.Range(1, 6), false))
	if c.Idx%60 == 7 { // some tens of megabytes
		in := e
		for len(in.kids) > 0 && in.kids[0].kind == 'd' && r.Bool() {
			in = in.kids[0]
		}
		for i := 0; i < 3; i++ {
			data := make([]byte, r.Range(6<<20, 9<<20))
			r.Fill(data[:r.Intn(100000)])
			data[len(data)-1] = byte(i)
			in.kids = append(in.kids, &ent{name: fmt.Sprintf("large%d", i), kind: 'f', data: data})
		}
		c.Count("large trees", 1)
	}
	dir := filepath.Join(base, "t")
	writeTree(c, dir, e)
	addHard(c, dir, e)
	addLinks(c, dir, e)
	before := snapshot(base)
	p := dir
	if r.Bool() {
		if rel, err := filepath.Rel(mustWd(c), dir); err == nil {
			p = rel
		}
	}
	m := methods[r.Intn(len(methods))]
	salt := []string{"", "", "s", "salt\x00", strings.Repeat("long", 100), " s ", "\n", "\ts\r\n", "\xff\xfe", "盐", "%s", strings.Repeat("L", 70000)}[r.Intn(12)]
	leaf := func(data []byte) string {
		h := m.ref()
		h.Write([]byte(salt))
		h.Write(data)
		return hex.EncodeToString(h.Sum(nil))
	}
	dirf := func(kids []string, size uint64) string {
		return leaf([]byte(strings.Join(kids, "")))
	}
	c.Logf("%s of %q with salt %q", m.name, p, salt)
	got, err := fs.FilePath(p).Hash(m.m, salt)
	c.Assert(err == nil, "Hash(%s): %v", m.name, err)
	compare(c, "Hash("+m.name+")", got, e.hashOf(p, leaf, dirf))
	fp, err := fs.FilePath(p).Fingerprint()
	c.Assert(err == nil, "Fingerprint: %v", err)
	compare(c, "Fingerprint", fp, e.hashOf(p, fpLeaf, fpDir))

	// the same contents under other names and in another order: same hash
	e2 := rename(r, e)
	dir2 := filepath.Join(base, "u")
	writeTree(c, dir2, e2)
	got2, err := fs.FilePath(dir2).Hash(m.m, salt)
	c.Assert(err == nil && got2.All()[0].Hash == got.All()[0].Hash, "Hash(%s): two trees with the same contents under other names differ", m.name)
	fp2, err := fs.FilePath(dir2).Fingerprint()
	c.Assert(err == nil && fp2.All()[0].Hash == fp.All()[0].Hash, "Fingerprint: two trees with the same contents under other names differ")

	// one byte of one file changed: another hash all the way up
	var files []*ent
	var walk func(x *ent)
	walk = func(x *ent) {
		if x.kind == 'f' {
			files = append(files, x)
		}
		for _, k := range x.kids {
			walk(k)
		}
	}
	walk(e2)
	if len(files) > 0 {
		f := files[r.Intn(len(files))]
		f.data = append([]byte(nil), f.data...)
		if len(f.data) > 0 && r.Intn(3) > 0 {
			f.data[r.Intn(len(f.data))] ^= 1 << uint(r.Intn(8))
		} else {
			f.data = append(f.data, byte(r.Intn(2)))
		}
		writeTree(c, dir2, e2)
		got3, err := fs.FilePath(dir2).Hash(m.m, salt)
		c.Assert(err == nil && got3.All()[0].Hash != got.All()[0].Hash, "Hash(%s) of a tree stays although a file changed", m.name)
		fp3, err := fs.FilePath(dir2).Fingerprint()
		c.Assert(err == nil && fp3.All()[0].Hash != fp.All()[0].Hash, "Fingerprint of a tree stays although a file changed")
		c.Count("changes noticed", 1)
	}
	os.RemoveAll(dir2)
	if d := diffSnap(before, snapshot(base)); d != "" {
		c.Failf("hashing changed the tree: %s", d)
	}
	c.Eval(6)
	c.Seen(hashTree(mon.HashInit.Str(m.name).Str(salt), e))
	c.Sample("%s, salt of %d bytes, %d entries: %s", m.name, len(salt), len(got.All()), got.All()[0].Hash)
}

// rename copies the tree with fresh names in another order.
func rename(r *mon.Rand, e *ent) *ent {
	if e.kind == 'L' {
		e = e.tgt
	}
	n := &ent{name: e.name, kind: e.kind, data: e.data}
	perm := make([]int, len(e.kids))
	for i := range perm {
		j := r.Intn(i + 1)
		perm[i] = perm[j]
		perm[j] = i
	}
	for i, j := range perm {
		k := rename(r, e.kids[j])
		k.name = fmt.Sprintf("n%d-%d", i, r.Intn(1000))
		n.kids = append(n.kids, k)
	}
	return n
}

// runHashFault: a tree that cannot be read completely has no hash.
func runHashFault(c *mon.Case) {
	r := c.R
	base, done := scratch(c)
	defer done()
	try := func(what, p string) {
		m := methods[r.Intn(len(methods))]
		_, err := fs.FilePath(p).Hash(m.m, "s")
		c.Assert(err != nil, "Hash(%s) of %s gives no error", m.name, what)
		_, err = fs.FilePath(p).Fingerprint()
		c.Assert(err != nil, "Fingerprint of %s gives no error", what)
		c.NoneOpen(base)
		c.Count("unreadable: "+what, 1)
	}
	try("a missing file", filepath.Join(base, "missing"))
	dir := filepath.Join(base, "t")
	e := genTree(r, 3, 4, false)
	writeTree(c, dir, e)
	dirs := []string{}
	for _, x := range e.list("", nil) {
		if x.kind == 'd' {
			dirs = append(dirs, x.rel)
		}
	}
	in := filepath.Join(dir, dirs[r.Intn(len(dirs))])
	must(c, os.Chmod(in, 0755)) // the fault goes in here
	switch r.Intn(3) {
	case 0: // reading fails in the middle
		b := make([]byte, 8)
		f, err := os.Open("/proc/self/mem")
		if err != nil {
			c.Inconclusive("no /proc/self/mem")
			return
		}
		_, err = f.Read(b)
		f.Close()
		if err == nil {
			c.Inconclusive("/proc/self/mem can be read")
			return
		}
		must(c, os.Symlink("/proc/self/mem", filepath.Join(in, "zz-fault")))
		try("a file that fails to be read", filepath.Join(in, "zz-fault"))
		try("a tree with a file that fails to be read", dir)
	case 1:
		must(c, os.Symlink("nowhere", filepath.Join(in, "zz-fault")))
		try("a tree with a dangling link", dir)
	default:
		if os.Geteuid() == 0 {
			c.Inconclusive("running as root: no file is unreadable")
			return
		}
		f := filepath.Join(in, "zz-fault")
		if r.Bool() {
			must(c, os.WriteFile(f, []byte("x"), 0))
		} else {
			must(c, os.Mkdir(f, 0))
			defer os.Chmod(f, 0755)
		}
		try("a file without permission", f)
		try("a tree with a file without permission", dir)
	}
	c.Eval(4)
	c.Seen(hashTree(mon.HashInit.Str(in[len(base):]), e))
}

// runHashFile compares single files of many sizes.
func runHashFile(c *mon.Case) {
	r := c.R
	base, done := scratch(c)
	defer done()
	n := r.Size(200000)
	if c.Idx%16 == 3 {
		n = r.Range(1<<19, 5<<20)
	} else if r.Intn(3) == 0 {
		n = (1 << uint(r.Intn(18))) + r.Range(-1, 1)
	}
	data := r.Bytes(n)
	p := filepath.Join(base, "f")
	must(c, os.WriteFile(p, data, 0600))
	for _, m := range methods {
		got, err := fs.FilePath(p).Hash(m.m, "")
		c.Assert(err == nil, "Hash(%s): %v", m.name, err)
		h := m.ref()
		h.Write(data)
		want := fmt.Sprintf("%q %x %d false", p, h.Sum(nil), n)
		c.Assert(gotNode(got.All()[0]) == want && got.NumChildren() == 0, "Hash(%s) of a file of %d bytes is %s, expected %s", m.name, n, gotNode(got.All()[0]), want)
	}
	fp, err := fs.FilePath(p).Fingerprint()
	c.Assert(err == nil, "Fingerprint: %v", err)
	want := fmt.Sprintf("%q %s %d false", p, fpLeaf(data), n)
	c.Assert(gotNode(fp.All()[0]) == want, "Fingerprint of a file of %d bytes is %s, expected %s", n, gotNode(fp.All()[0]), want)
	c.NoneOpen(base)
	c.Eval(7)
	c.Seen(mon.HashInit.Add(uint64(n)))
	c.Max("file size", n)
}

// runHashLarge: every method over all of a file beyond 16 MB.
func runHashLarge(c *mon.Case) {
	base, done := scratch(c)
	defer done()
	r := c.R
	n := 1<<24 + r.Range(1, 1<<23)
	data := make([]byte, n)
	for i := 0; i < n; i += r.Range(1, 4096) {
		data[i] = byte(r.U64())
	}
	data[n-1] = byte(r.Range(1, 255)) // the end counts
	p := filepath.Join(base, "large")
	must(c, os.WriteFile(p, data, 0644))
	for _, m := range methods {
		t, err := fs.FilePath(p).Hash(m.m, "s")
		c.Assert(err == nil, "Hash(%s) of %d bytes: %v", m.name, n, err)
		h := m.ref()
		h.Write([]byte("s"))
		h.Write(data)
		want := fmt.Sprintf("%q %x %d false", p, h.Sum(nil), n)
		c.Assert(gotNode(t.All()[0]) == want, "Hash(%s) of a file of %d bytes is %s, expected %s", m.name, n, gotNode(t.All()[0]), want)
	}
	fp, err := fs.FilePath(p).Fingerprint()
	c.Assert(err == nil, "Fingerprint of %d bytes: %v", n, err)
	want := fmt.Sprintf("%q %s %d false", p, fpLeaf(data), n)
	c.Assert(gotNode(fp.All()[0]) == want, "Fingerprint of a file of %d bytes is %s, expected %s", n, gotNode(fp.All()[0]), want)
	c.Eval(len(methods) + 1)
	c.Seen(mon.HashInit.Add(uint64(n)).Add(5))
	c.Sample("a file of %d bytes under all methods", n)
}

// runHashHuge: sizes beyond 32 bits.
func runHashHuge(c *mon.Case) {
	base, done := scratch(c)
	defer done()
	n := int64(1<<32 + c.R.Range(1, 1<<20))
	dir := filepath.Join(base, "d")
	must(c, os.MkdirAll(filepath.Join(dir, "in"), 0755))
	p := filepath.Join(dir, "in", "huge")
	must(c, os.WriteFile(p, nil, 0644))
	if err := os.Truncate(p, n); err != nil {
		c.Inconclusive("no file beyond 4 GB")
		return
	}
	must(c, os.WriteFile(filepath.Join(dir, "small"), []byte("abc"), 0644))
	h := crc32.NewIEEE()
	zero := make([]byte, 1<<20)
	for k := n; k > 0; k -= int64(len(zero)) {
		if int64(len(zero)) > k {
			zero = zero[:k]
		}
		h.Write(zero)
	}
	crc := func(s string) string { return fmt.Sprintf("%08x", crc32.ChecksumIEEE([]byte(s))) }
	huge := fmt.Sprintf("%08x", h.Sum32())
	got, err := fs.FilePath(dir).Hash(fs.CRC32, "")
	c.Assert(err == nil, "Hash(CRC32) of a tree with a file of %d bytes: %v", n, err)
	small, in := crc("abc"), crc(huge)
	want := &rnode{dir, crc(small + in), uint64(n + 3), true, []*rnode{
		{dir + "/small", small, 3, false, nil},
		{dir + "/in", in, uint64(n), true, []*rnode{{p, huge, uint64(n), false, nil}}}}}
	compare(c, "Hash(CRC32) of a huge tree", got, want)
	nd, nf, size, info := fs.FilePath(dir).Statistic()
	c.Assert(nd == 2 && nf == 2 && size == uint64(n+3) && info == "", "Statistic of a huge tree gives %d, %d, %d, %q", nd, nf, size, info)
	c.NoneOpen(base)
	c.Eval(2)
	c.Seen(mon.HashInit.Add(uint64(n)))
	c.Sample("a file of %d bytes", n)
}

// runHashWide: a directory with some thousands of entries, many of them alike.
func runHashWide(c *mon.Case) {
	r := c.R
	base, done := scratch(c)
	defer done()
	dir := filepath.Join(base, "w")
	e := &ent{kind: 'd'}
	for i, n := 0, []int{2100, 4200, 1050}[c.Idx%3]+r.Intn(40); i < n; i++ {
		k := &ent{name: fmt.Sprintf("f%d", i), kind: 'f', data: r.Bytes(r.Intn(3))}
		if r.Intn(50) == 0 {
			k = &ent{name: k.name, kind: 'd', kids: []*ent{k}}
		}
		e.kids = append(e.kids, k)
	}
	writeTree(c, dir, e)
	m := methods[r.Intn(len(methods))]
	leaf := func(data []byte) string {
		h := m.ref()
		h.Write(data)
		return hex.EncodeToString(h.Sum(nil))
	}
	got, err := fs.FilePath(dir).Hash(m.m, "")
	c.Assert(err == nil, "Hash(%s): %v", m.name, err)
	compare(c, "Hash("+m.name+")", got, e.hashOf(dir, leaf, func(kids []string, size uint64) string { return leaf([]byte(strings.Join(kids, ""))) }))
	fp, err := fs.FilePath(dir).Fingerprint()
	c.Assert(err == nil, "Fingerprint: %v", err)
	compare(c, "Fingerprint", fp, e.hashOf(dir, fpLeaf, fpDir))
	c.NoneOpen(base)
	c.Eval(2)
	c.Max("entries in one directory", len(e.kids))
	c.Seen(hashTree(mon.HashInit.Str(m.name), e))
}

func init() {
	mon.Register(&mon.Prop{ID: "C37",
		Rule: "one evaluation = one hash tree of a tree the harness wrote, compared entry by entry with an independent computation; distinct = distinct (method, salt, tree)",
		Sections: []mon.Section{
			{Name: "trees", Quick: 350, Thorough: 8000, Run: runHash},
			{Name: "files", Quick: 200, Thorough: 3000, Run: runHashFile},
			{Name: "large", Quick: 2, Thorough: 20, Run: runHashLarge},
			{Name: "wide", Quick: 2, Thorough: 12, Run: runHashWide, CPU: 60},
			{Name: "huge", Quick: 1, Thorough: 3, Run: runHashHuge, CPU: 120},
			{Name: "faults", Quick: 150, Thorough: 2500, Run: runHashFault},
		}})
}
