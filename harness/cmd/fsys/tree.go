package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"vp/mon"
)

// ent is one entry of a tree the harness has written itself.
type ent struct {
	name  string
	kind  byte // d, f, l, p, s
	data  []byte
	holes int64       // of a file that is all holes
	to    string      // of a link
	tgt   *ent        // what a link (kind L) leads to
	mode  os.FileMode // if it is not the usual one
	when  int64       // if it has a date of its own
	kids  []*ent
}

var entNames = []string{"a", "b", "B", "x.txt", "no ext", ".hidden", "..x", "...", "日本", "long-long-long-long-name.tar.gz", "a.", "-", "~", "%s", "a\\b", "\n", "*", "[z", "Read.ME", "P.JPG", "a.b.C"}

func genTree(r *mon.Rand, depth, width int, links bool) *ent {
	root := &ent{kind: 'd'}
	var fillDir func(d *ent, depth int)
	fillDir = func(d *ent, depth int) {
		n := r.Intn(width + 1)
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			nm := entNames[r.Intn(len(entNames))]
			if r.Bool() {
				nm = fmt.Sprintf("%s%d", nm, r.Intn(20))
			}
			if used[nm] {
				continue
			}
			used[nm] = true
			e := &ent{name: nm, kind: 'f'}
			switch {
			case depth > 0 && r.Intn(5) < 2:
				e.kind = 'd'
				fillDir(e, depth-1)
			case links && r.Intn(6) == 0:
				e.kind = 'l'
				e.to = []string{"nowhere", ".", "..", "a", "x.txt"}[r.Intn(5)]
			case links && r.Intn(12) == 0: // a named pipe or a socket
				e.kind = "ps"[r.Intn(2)]
			case links && r.Intn(40) == 0: // holes only
				e.holes = int64(r.U64() >> uint(r.Range(20, 60)))
			default:
				e.data = r.Bytes(r.Size(300))
				if r.Intn(30) == 0 {
					e.data = r.Bytes(r.Intn(70000))
				}
				if r.Intn(3) == 0 { // equal contents and sizes
					e.data = []byte(strings.Repeat("z", r.Intn(4)))
				}
			}
			if e.kind != 'l' && r.Intn(6) == 0 { // unusual modes
				e.mode = []os.FileMode{0700, 0777, 0755 | os.ModeSticky, 0755 | os.ModeSetgid, 0711, 0500, 0750 | os.ModeSticky | os.ModeSetgid, 0755 | os.ModeSetuid}[r.Intn(8)]
			}
			if r.Intn(8) == 0 { // and dates
				e.when = []int64{1, 1000000000, 1 << 32, -5, 4000000000}[r.Intn(5)]
			}
			d.kids = append(d.kids, e)
		}
	}
	fillDir(root, depth)
	return root
}

// growTree makes one tree in 40 wide or deep.
func growTree(r *mon.Rand, e *ent) *ent {
	switch r.Intn(80) {
	case 0:
		for i, n := 0, r.Range(200, 700); i < n; i++ {
			k := &ent{name: fmt.Sprintf("wide%d", i), kind: 'f', data: r.Bytes(r.Intn(4))}
			if r.Intn(5) == 0 {
				k = &ent{name: fmt.Sprintf("wide%d", i), kind: 'd'}
			}
			e.kids = append(e.kids, k)
		}
	case 1:
		d := e
		for i, n := 0, r.Range(20, 150); i < n; i++ {
			k := &ent{name: fmt.Sprintf("deep%d", i), kind: 'd'}
			d.kids = append(d.kids, k)
			if r.Bool() {
				d.kids = append(d.kids, &ent{name: "f", kind: 'f', data: r.Bytes(r.Intn(9))})
			}
			d = k
		}
	}
	return e
}

func writeTree(c *mon.Case, dir string, e *ent) {
	must(c, os.MkdirAll(dir, 0755))
	for _, k := range e.kids {
		p := filepath.Join(dir, k.name)
		switch k.kind {
		case 'd':
			writeTree(c, p, k)
		case 'l', 'L':
			must(c, os.Symlink(k.to, p))
		case 'p', 's':
			if syscall.Mknod(p, map[byte]uint32{'p': syscall.S_IFIFO, 's': syscall.S_IFSOCK}[k.kind]|0644, 0) != nil {
				k.kind = 'f'
				must(c, os.WriteFile(p, nil, 0644))
			}
		default:
			must(c, os.WriteFile(p, k.data, 0644))
			if k.holes > 0 && os.Truncate(p, k.holes) != nil {
				k.holes = 0
			}
		}
		if k.kind == 'l' || k.kind == 'L' {
			continue
		}
		if k.when != 0 {
			os.Chtimes(p, time.Unix(k.when, 0), time.Unix(k.when, 0))
		}
		if k.mode != 0 {
			os.Chmod(p, k.mode)
		}
	}
}

// must is for the harness's own file operations.
func must(c *mon.Case, err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// everyDir calls f for every directory of the tree with its path.
func (e *ent) everyDir(rel string, f func(rel string, d *ent)) {
	if e.kind != 'd' {
		return
	}
	f(rel, e)
	for _, k := range e.kids {
		k.everyDir(filepath.Join(rel, k.name), f)
	}
}

// addHard gives files of a tree that has been written second names.
func addHard(c *mon.Case, root string, e *ent) {
	type at struct {
		rel string
		e   *ent
	}
	var dirs, files []at
	e.everyDir("", func(rel string, d *ent) {
		dirs = append(dirs, at{rel, d})
		for _, k := range d.kids {
			if k.kind == 'f' {
				files = append(files, at{filepath.Join(rel, k.name), k})
			}
		}
	})
	for i := 0; i < 3 && len(files) > 0; i++ {
		d, f := dirs[c.R.Intn(len(dirs))], files[c.R.Intn(len(files))]
		nm := fmt.Sprintf("hard%d", i)
		if d.e.mode&0200 == 0 && d.e.mode != 0 || os.Link(filepath.Join(root, f.rel), filepath.Join(root, d.rel, nm)) != nil {
			continue
		}
		d.e.kids = append(d.e.kids, &ent{name: nm, kind: 'f', data: f.e.data, holes: f.e.holes})
		c.Count("hard links", 1)
	}
}

// addLinks puts links to files, and one to a directory, into a tree that has
// been written.
func addLinks(c *mon.Case, root string, e *ent) {
	type at struct {
		rel string
		e   *ent
	}
	r := c.R
	var dirs, files []at
	e.everyDir("", func(rel string, d *ent) {
		dirs = append(dirs, at{rel, d})
		for _, k := range d.kids {
			if k.kind == 'f' {
				files = append(files, at{filepath.Join(rel, k.name), k})
			}
		}
	})
	put := func(nm string, d, t at) {
		to := filepath.Join(root, t.rel)
		if rel, err := filepath.Rel(filepath.Join(root, d.rel), to); err == nil && r.Intn(3) > 0 {
			to = rel
		}
		if d.e.mode&0200 == 0 && d.e.mode != 0 || os.Symlink(to, filepath.Join(root, d.rel, nm)) != nil {
			return
		}
		d.e.kids = append(d.e.kids, &ent{name: nm, kind: 'L', to: to, tgt: t.e})
		c.Count("links in hashed trees", 1)
	}
	if len(files) > 0 {
		for i, n := 0, r.Intn(4); i < n; i++ {
			put(fmt.Sprintf("link%d", i), dirs[r.Intn(len(dirs))], files[r.Intn(len(files))])
		}
	}
	d, t := dirs[r.Intn(len(dirs))], dirs[r.Intn(len(dirs))]
	if t.rel != "" && d.rel != t.rel && !strings.HasPrefix(d.rel, t.rel+"/") {
		put("linkd", d, t)
	}
}

func scratch(c *mon.Case) (dir string, done func()) {
	return scratchIn(c, "")
}

// scratchIn makes a scratch directory below another directory, on another
// file system perhaps.
func scratchIn(c *mon.Case, where string) (dir string, done func()) {
	d, err := os.MkdirTemp(where, "s")
	if err != nil && where != "" {
		d, err = os.MkdirTemp("", "s")
	}
	must(c, err)
	return d, func() {
		if os.RemoveAll(d) != nil { // directories without permission
			filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
				if fi != nil && fi.IsDir() {
					os.Chmod(p, 0700)
				}
				return nil
			})
			os.RemoveAll(d)
		}
	}
}

// snapshot describes everything below dir.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			m[rel] = "error"
			return nil
		}
		switch {
		case fi.IsDir():
			m[rel] = fmt.Sprintf("dir %v", fi.Mode())
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "link " + t
		case !fi.Mode().IsRegular():
			m[rel] = fmt.Sprintf("special %v", fi.Mode())
		case fi.Size() > 1<<26:
			m[rel] = fmt.Sprintf("file %v of %d bytes at %v", fi.Mode(), fi.Size(), fi.ModTime())
		default:
			b, _ := os.ReadFile(p)
			if len(b) > 1<<16 {
				m[rel] = fmt.Sprintf("file %v of %d bytes, %x", fi.Mode(), len(b), sha256.Sum256(b))
				break
			}
			m[rel] = fmt.Sprintf("file %v %q", fi.Mode(), b)
		}
		return nil
	})
	return m
}

func diffSnap(a, b map[string]string) string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, k+" is gone")
		} else if v != w {
			l = append(l, fmt.Sprintf("%s: %.60s -> %.60s", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k+" is new")
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func hashTree(h mon.Hash, e *ent) mon.Hash {
	h = h.Add(uint64(e.kind)).Str(e.name).Add(uint64(len(e.kids)))
	for _, k := range e.kids {
		h = hashTree(h, k)
	}
	return h
}
