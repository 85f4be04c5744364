package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/vipally/gx/stl"
	"vp/mon"
)

//----------------------------------------------------------------------------
// C09 sort slices

// sslice adapts both generated sort slices to int values.
type sslice struct {
	name          string
	push          func(int) int
	insert        func(int, int) int
	remove, get   func(int) (int, bool)
	pop           func() (int, bool)
	mustGet       func(int) int
	length        func() int
	buffer        func() []int
	sort          func()
	less          func(i, j int) bool
	swap          func(i, j int)
	init          func(int)
	nodeIdentical func() bool
}

func intSlice(capa int, zero bool) *sslice {
	s := &stl.IntSortSlice{}
	if !zero {
		s = stl.NewIntSortSlice(capa)
	}
	return &sslice{name: "IntSortSlice", push: s.Push, insert: s.Insert, remove: s.Remove, get: s.Get, pop: s.Pop,
		mustGet: s.MustGet, length: s.Len, buffer: s.Buffer, sort: s.Sort, less: s.Less, swap: s.Swap, init: s.Init}
}

func nodeSlice(capa int, zero bool) *sslice {
	s := &stl.IntTreeNodeSortSlice{}
	if !zero {
		s = stl.NewIntTreeNodeSortSlice(capa)
	}
	// a node of value v: the only public way to make one is to add a child
	mk := func(v int) *stl.IntTreeNode { return (&stl.IntTreeNode{}).AddChild(v, 0) }
	val := func(n *stl.IntTreeNode) int { return n.All()[0] }
	opt := func(n *stl.IntTreeNode, ok bool) (int, bool) {
		if !ok {
			if n != nil {
				return -777, false
			}
			return 0, false
		}
		return val(n), true
	}
	return &sslice{name: "IntTreeNodeSortSlice",
		push:   func(v int) int { return s.Push(mk(v)) },
		insert: func(v, i int) int { return s.Insert(mk(v), i) },
		remove: func(i int) (int, bool) { return opt(s.Remove(i)) },
		get:    func(i int) (int, bool) { return opt(s.Get(i)) },
		pop:    func() (int, bool) { return opt(s.Pop()) },
		mustGet: func(i int) int {
			n := s.MustGet(i)
			if n == nil { // there must be a panic instead
				return -777
			}
			return val(n)
		},
		length: s.Len,
		buffer: func() []int {
			var r []int
			for _, n := range s.Buffer() {
				r = append(r, val(n))
			}
			return r
		},
		sort: s.Sort, less: s.Less, swap: s.Swap, init: s.Init}
}

type ssMon struct {
	c   *mon.Case
	s   *sslice
	ref []int
}

func (m *ssMon) check(what string) {
	c, s, n := m.c, m.s, len(m.ref)
	if s.length() != n || !eqInts(s.buffer(), m.ref) {
		c.Failf("%s after %s: %v (Len %d), want %v", s.name, what, s.buffer(), s.length(), m.ref)
	}
	for _, i := range []int{-1, 0, n / 2, n - 1, n, n + 1, -1 << 62, 1<<62 + 5} {
		v, ok := s.get(i)
		if in := i >= 0 && i < n; ok != in || ok && v != m.ref[i] || !ok && v != 0 {
			c.Failf("%s after %s: Get(%d) = %d,%v with %d element(s)", s.name, what, i, v, ok, n)
		}
	}
}

const (
	ssPush = iota
	ssPop
	ssInsert
	ssRemove
	ssSort
	ssSwap
	ssMust
	ssInit
)

func (m *ssMon) do(op, i, v int) {
	c, s, n := m.c, m.s, len(m.ref)
	what := fmt.Sprintf("op %s(idx %d, value %d)", []string{"Push", "Pop", "Insert", "Remove", "Sort", "Swap", "MustGet", "Init"}[op], i, v)
	if c.Tracing {
		c.Logf("%v: %s", m.ref, what)
	}
	in := i >= 0 && i < n
	switch op {
	case ssPush:
		r := s.push(v)
		m.ref = append(m.ref, v)
		if r != n+1 {
			c.Failf("%s: %s returned %d with %d element(s)", s.name, what, r, n+1)
		}
	case ssPop:
		r, ok := s.pop()
		if ok != (n > 0) || ok && r != m.ref[n-1] {
			c.Failf("%s: %s = %d,%v on %v", s.name, what, r, ok, m.ref)
		}
		if ok {
			m.ref = m.ref[:n-1]
		}
	case ssInsert:
		r := s.insert(v, i)
		if r != n+1 {
			c.Failf("%s: %s returned %d with %d element(s)", s.name, what, r, n+1)
		}
		if !in {
			i = n
		}
		t := append([]int{}, m.ref[:i]...)
		t = append(t, v)
		m.ref = append(t, m.ref[i:]...)
	case ssRemove:
		r, ok := s.remove(i)
		if ok != in || ok && r != m.ref[i] {
			c.Failf("%s: %s = %d,%v on %v", s.name, what, r, ok, m.ref)
		}
		if ok {
			t := append([]int{}, m.ref[:i]...)
			m.ref = append(t, m.ref[i+1:]...)
		}
	case ssSort:
		s.sort()
		t := append([]int{}, m.ref...)
		sort.Ints(t)
		m.ref = t
	case ssSwap:
		if n > 0 {
			a, b := ((i%n)+n)%n, ((v%n)+n)%n
			if s.less(a, b) != (m.ref[a] < m.ref[b]) {
				c.Failf("%s: Less(%d,%d) wrong on %v", s.name, a, b, m.ref)
			}
			s.swap(a, b)
			t := append([]int{}, m.ref...)
			t[a], t[b] = t[b], t[a]
			m.ref = t
		}
	case ssMust:
		p := mon.Panics(func() {
			if r := s.mustGet(i); in && r != m.ref[i] {
				c.Failf("%s: MustGet(%d) = %d on %v", s.name, i, r, m.ref)
			}
		})
		if (p != nil) == in {
			c.Failf("%s: MustGet(%d) with %d element(s): panic=%v", s.name, i, n, p)
		}
	case ssInit:
		k := ((i % 7) + 7) % 7
		s.init(k)
		m.ref = nil
	}
	m.check(what)
}

func ssHistory(c *mon.Case, mk func(int, bool) *sslice) {
	r := c.R
	m := &ssMon{c: c, s: mk(r.Intn(20), r.Chance(1, 5))}
	m.check("New")
	g := valueGen(r)
	ops := r.Range(20, 150)
	h := mon.HashInit.Str(m.s.name)
	if r.Chance(1, 60) { // a long slice to begin with
		for k := r.Range(200, 1200); k > 0; k-- {
			m.do(ssPush, 0, g())
		}
	}
	grow := 5
	for k := 0; k < ops; k++ {
		if k%32 == 0 {
			grow = r.Range(1, 9)
		}
		var op int
		x := r.Intn(40)
		switch {
		case x == 0 && r.Chance(1, 4):
			op = ssInit
		case x < 3:
			op = ssSort
		case x < 6:
			op = ssSwap
		case x < 9:
			op = ssMust
		case r.Intn(10) < grow:
			op = []int{ssPush, ssInsert, ssInsert}[r.Intn(3)]
		default:
			op = []int{ssPop, ssRemove, ssRemove}[r.Intn(3)]
		}
		n := len(m.ref)
		i := r.Range(-1, n+1)
		if r.Chance(1, 6) {
			i = []int{0, n - 1, n, -1, -5, 1 << 40}[r.Intn(6)]
		}
		v := g()
		m.do(op, i, v)
		h = h.Add(uint64(op)).Add(uint64(i))
		c.Max("length", len(m.ref))
	}
	c.Eval(ops)
	c.Seen(h)
	c.Sample("%s: %d operations ending with %d element(s)", m.s.name, ops, len(m.ref))
}

// ssCensus: all op sequences of length 3 (thorough 4) on 0..4 elements.
func ssCensus(c *mon.Case, mk func(int, bool) *sslice) {
	depth := 2
	if c.Thorough() {
		depth = 3
	}
	type o struct{ op, i int }
	for n := 0; n <= 4; n++ {
		for capa := n; capa <= n+2; capa++ {
			var all []o
			for op := ssPush; op <= ssMust; op++ {
				if op == ssPush || op == ssPop || op == ssSort {
					all = append(all, o{op, 0})
					continue
				}
				for i := -1; i <= n+2; i++ {
					all = append(all, o{op, i})
				}
			}
			var seq []o
			var rec func()
			rec = func() {
				if len(seq) == depth {
					m := &ssMon{c: c, s: mk(capa, false)}
					for k := 0; k < n; k++ {
						m.do(ssPush, 0, (k*5+3)%7)
					}
					h := mon.HashInit.Add(uint64(n*100 + capa))
					for k, x := range seq {
						m.do(x.op, x.i, 20-k)
						h = h.Add(uint64(x.op*100 + x.i))
					}
					c.Eval(1)
					c.Seen(h)
					return
				}
				for _, x := range all {
					seq = append(seq, x)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		}
	}
	c.Sample("every sequence of %d operations on 0..4 elements with 0..2 spare capacity", depth)
}

//----------------------------------------------------------------------------
// C10 tree

type tnode struct {
	n    *stl.IntTreeNode
	v    int
	kids []*tnode
}

type treeMon struct {
	c    *mon.Case
	root *tnode
	all  []*tnode // every attached node
	next int
}

func (t *tnode) pre(out []*tnode) []*tnode {
	out = append(out, t)
	for _, k := range t.kids {
		out = k.pre(out)
	}
	return out
}

func (m *treeMon) check(what string) {
	c := m.c
	m.all = m.root.pre(m.all[:0])
	for _, t := range m.all {
		ch := t.n.Children()
		if len(ch) != len(t.kids) || t.n.NumChildren() != len(t.kids) {
			c.Failf("after %s: node %d has %d children (NumChildren %d), want %d", what, t.v, len(ch), t.n.NumChildren(), len(t.kids))
		}
		for i, k := range t.kids {
			g, ok := t.n.GetChild(i)
			if ch[i] != k.n || !ok || g != k.n {
				c.Failf("after %s: child %d of node %d is the wrong node", what, i, t.v)
			}
		}
		for _, i := range []int{-1, len(t.kids), len(t.kids) + 1} {
			if g, ok := t.n.GetChild(i); ok || g != nil {
				c.Failf("after %s: GetChild(%d) of %d children reported ok", what, i, len(t.kids))
			}
		}
	}
	m.visit(what, m.root)
	// and a subtree
	if len(m.all) > 1 {
		m.visit(what, m.all[int(mon.Mix(uint64(m.next))%uint64(len(m.all)))])
	}
}

// visit compares All and the visitor of one subtree with its pre-order.
func (m *treeMon) visit(what string, t *tnode) {
	c := m.c
	want := t.pre(nil)
	all := t.n.All()
	if len(all) != len(want) {
		c.Failf("after %s: All has %d value(s), want %d", what, len(all), len(want))
	}
	for i := range want {
		if all[i] != want[i].v {
			c.Failf("after %s: All position %d is %d, want %d", what, i, all[i], want[i].v)
		}
	}
	v := t.n.Visitor()
	if x := v.Get(); x != 0 {
		c.Failf("after %s: a visitor that has not moved gives %d", what, x)
	}
	for i := range want {
		if !v.Next() || v.Get() != want[i].v {
			c.Failf("after %s: visitor Next misses position %d (%d) of %v, got %d", what, i, want[i].v, all, v.Get())
		}
	}
	for k := 0; k < 3; k++ {
		if v.Next() {
			c.Failf("after %s: visitor Next goes on behind the last node", what)
		}
		if x := v.Get(); x != 0 {
			c.Failf("after %s: a visitor behind the last node gives %d", what, x)
		}
	}
	v = t.n.Visitor()
	for i := len(want) - 1; i >= 0; i-- {
		if !v.Prev() || v.Get() != want[i].v {
			c.Failf("after %s: visitor Prev misses position %d (%d) of %v, got %d", what, i, want[i].v, all, v.Get())
		}
	}
	for k := 0; k < 3; k++ {
		if v.Prev() {
			c.Failf("after %s: visitor Prev goes on before the first node", what)
		}
		if x := v.Get(); x != 0 {
			c.Failf("after %s: a visitor before the first node gives %d", what, x)
		}
	}
	// to and fro inside
	v = t.n.Visitor()
	pos, h := 0, mon.Mix(uint64(m.next)+99)
	if h&2 == 0 {
		v.Next()
	} else {
		v.Prev()
		pos = len(want) - 1
	}
	run := 1
	dir := h&1 == 0
	for k := 0; k < 2*len(want)+6 && len(want) > 1; k++ {
		if run--; run <= 0 {
			h = mon.Mix(h)
			run, dir = int(h%5)+1, h>>60&1 == 0
		}
		fwd := dir
		if pos == 0 {
			fwd = true
		} else if pos == len(want)-1 {
			fwd = false
		}
		var ok bool
		if fwd {
			pos++
			ok = v.Next()
		} else {
			pos--
			ok = v.Prev()
		}
		if !ok || v.Get() != want[pos].v {
			c.Failf("after %s: visitor going to and fro: position %d should be %d, got %d (%v) of %v", what, pos, want[pos].v, v.Get(), ok, all)
		}
	}
	c.Count("visits", 3)
	c.Count("nodes visited", 4*len(want))
}

func (m *treeMon) shape(h mon.Hash, t *tnode) mon.Hash {
	h = h.Add(uint64(len(t.kids)))
	for _, k := range t.kids {
		h = m.shape(h, k)
	}
	return h
}

func newTree(c *mon.Case) *treeMon {
	m := &treeMon{c: c, root: &tnode{n: &stl.IntTreeNode{}}, next: 0}
	m.all = []*tnode{m.root}
	return m
}

func (m *treeMon) add(p *tnode, idx int, v int, k *tnode) *tnode {
	n := len(p.kids)
	if k == nil {
		k = &tnode{v: v}
		k.n = p.n.AddChild(v, idx)
	} else if r := p.n.AddChildNode(k.n, idx); r != k.n {
		m.c.Failf("AddChildNode returned another node")
	}
	if k.n == nil {
		m.c.Failf("AddChild returned no node")
	}
	if idx < 0 || idx >= n {
		idx = n
	}
	t := append([]*tnode{}, p.kids[:idx]...)
	t = append(t, k)
	p.kids = append(t, p.kids[idx:]...)
	return k
}

func (m *treeMon) remove(p *tnode, idx int) *tnode {
	n := len(p.kids)
	g, ok := p.n.RemoveChild(idx)
	if in := idx >= 0 && idx < n; ok != in || ok && g != p.kids[idx].n {
		m.c.Failf("RemoveChild(%d) of %d children: ok=%v or the wrong node", idx, n, ok)
	}
	if !ok {
		return nil
	}
	k := p.kids[idx]
	t := append([]*tnode{}, p.kids[:idx]...)
	p.kids = append(t, p.kids[idx+1:]...)
	return k
}

func treeHistory(c *mon.Case) {
	r := c.R
	m := newTree(c)
	m.check("New")
	ops := r.Range(5, 120)
	mode := r.Intn(4) // 0 random, 1 deep, 2 wide, 3 mixed
	var free []*tnode
	few := r.Chance(1, 3) // many nodes with one value
	if r.Chance(1, 50) {  // a large tree to begin with
		ops = r.Range(5, 20)
		list := []*tnode{m.root}
		for k := r.Range(250, 1200); k > 0; k-- {
			p := m.root
			switch {
			case mode == 1:
				p = list[len(list)-1]
			case mode == 0 || mode == 3 && r.Bool():
				p = list[r.Intn(len(list))]
			}
			m.next++
			v := m.next
			if few {
				v = 1 + r.Intn(3)
			}
			list = append(list, m.add(p, r.Range(-1, len(p.kids)), v, nil))
		}
		m.check("building a large tree")
	}
	for k := 0; k < ops; k++ {
		p := m.all[r.Intn(len(m.all))]
		switch mode {
		case 1:
			p = m.all[len(m.all)-1]
		case 2:
			p = m.root
		}
		n := len(p.kids)
		idx := r.Range(-1, n+1)
		x := r.Intn(20)
		switch {
		case x < 12:
			m.next++
			v := m.next
			if r.Chance(1, 2) {
				v = -m.next * 3
			}
			if few {
				v = r.Intn(3)
			}
			m.add(p, idx, v, nil)
			c.Logf("add %d to %d at %d", v, p.v, idx)
			m.check("AddChild")
		case x < 16:
			q := m.remove(p, idx)
			c.Logf("remove child %d of %d", idx, p.v)
			if q != nil {
				free = append(free, q)
			}
			m.check("RemoveChild")
		case x < 18 && len(free) > 0:
			q := free[len(free)-1]
			free = free[:len(free)-1]
			m.add(p, idx, 0, q)
			c.Logf("put subtree %d under %d at %d", q.v, p.v, idx)
			m.check("AddChildNode")
		default:
			p.n.SortChildren()
			c.Logf("sort children of %d", p.v)
			sort.SliceStable(p.kids, func(i, j int) bool { return p.kids[i].v < p.kids[j].v })
			// children with one value may come in any order
			for i, n := range p.n.Children() {
				for j := i; j < len(p.kids) && p.kids[j].v == p.kids[i].v; j++ {
					if p.kids[j].n == n {
						p.kids[i], p.kids[j] = p.kids[j], p.kids[i]
						break
					}
				}
			}
			m.check("SortChildren")
			for i := range p.kids {
				if i > 0 && (p.kids[i-1].n.Less(p.kids[i].n) != (p.kids[i-1].v < p.kids[i].v) || p.kids[i].n.Less(p.kids[i-1].n)) {
					c.Failf("Less disagrees with the order of %d and %d", p.kids[i-1].v, p.kids[i].v)
				}
			}
		}
		c.Max("nodes", len(m.all))
		c.Seen(m.shape(mon.HashInit, m.root))
	}
	c.Eval(ops)
	c.Sample("history of %d operations (mode %d) ending with the pre-order %.200s", ops, mode, fmt.Sprint(m.root.n.All()))
}

// treeWide: very many children under one node, and a very long chain.
func treeWide(c *mon.Case) {
	r := c.R
	m := newTree(c)
	p := m.root
	n := r.Range(33000, 70000)
	switch c.Idx % 3 {
	case 1:
		n = r.Range(1500, 3000)
	case 2:
		n = r.Range(3000, 8000)
	}
	hubs := []*tnode{p}
	for i := 0; i < n; i++ {
		if c.Idx%3 == 2 && i > 20 { // many children of nodes here and there
			if p = hubs[r.Intn(len(hubs))]; r.Chance(1, 1500) && len(p.kids) > 0 {
				hubs = append(hubs, p.kids[r.Intn(len(p.kids))])
			}
			if i == 21 {
				hubs = append(hubs, m.root.kids[0], m.root.kids[20])
			}
		}
		m.next++
		v := r.Range(-n, n)
		k := &tnode{v: v, n: p.n.AddChild(v, -1)}
		p.kids = append(p.kids, k)
		if c.Idx%3 == 1 && i%10 != 0 {
			p = k
		}
	}
	m.check("building a large tree")
	p = m.root
	for i := 0; i < 4; i++ {
		m.next++
		m.add(p, r.Intn(len(p.kids)), 5, nil)
		m.remove(p, r.Intn(len(p.kids)))
	}
	m.check("changing a large tree")
	p.n.SortChildren()
	want := map[*tnode]bool{}
	byNode := map[interface{}]*tnode{}
	for _, k := range p.kids {
		want[k] = true
		byNode[k.n] = k
	}
	for i, n := range p.n.Children() {
		k := byNode[n]
		if !want[k] || i > 0 && p.kids[i-1].v > k.v {
			c.Failf("SortChildren of %d children: position %d is wrong", len(p.kids), i)
		}
		want[k] = false
		p.kids[i] = k
	}
	m.check("sorting a large tree")
	c.Max("children of one node", len(p.kids))
	c.Seen(mon.HashInit.Add(uint64(n)))
}

// treeShapes: every ordered tree of up to 8 (thorough 10) nodes.
func treeShapes(c *mon.Case) {
	n := c.Idx + 1
	// a shape is a parent vector in pre-order: depth[i] <= depth[i-1]+1
	depth := make([]int, n)
	cnt := 0
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			m := newTree(c)
			path := []*tnode{m.root}
			for k := 1; k < n; k++ {
				m.next++
				path = path[:depth[k]]
				p := path[len(path)-1]
				path = append(path, m.add(p, len(p.kids), m.next, nil))
			}
			if c.Tracing {
				c.Logf("depths %v", depth)
			}
			m.check("build")
			c.Eval(1)
			c.Seen(m.shape(mon.HashInit, m.root))
			cnt++
			return
		}
		for d := 1; d <= depth[i-1]+1; d++ {
			depth[i] = d
			rec(i + 1)
		}
	}
	if n == 1 {
		newTree(c).check("New")
	} else {
		rec(1)
	}
	c.Sample("all %d ordered trees of %d nodes", cnt, n)
}

// ssLarge works on slices of many elements: growing, inserting and removing
// anywhere, shrinking to little and growing again.
func ssLarge(c *mon.Case, mk func(int, bool) *sslice) {
	r := c.R
	s := mk(r.Intn(9000), r.Bool())
	m := &ssMon{c: c, s: s}
	near := func(i int) {
		for k := i - 1; k <= i+1; k++ {
			v, ok := s.get(k)
			if in := k >= 0 && k < len(m.ref); ok != in || in && v != m.ref[k] {
				c.Failf("%s: Get(%d) = %d,%v with %d elements", s.name, k, v, ok, len(m.ref))
			}
		}
	}
	grow := func(n int) {
		for len(m.ref) < n {
			v := int(r.U64() >> uint(r.Intn(60)))
			m.ref = append(m.ref, v)
			if g := s.push(v); g != len(m.ref) {
				c.Failf("%s: Push returned %d with %d elements", s.name, g, len(m.ref))
			}
		}
	}
	for round := 0; round < 4; round++ {
		grow(r.Sizes(5000, 2, 40000))
		m.check("growing")
		for k := 0; k < 120; k++ {
			n := len(m.ref)
			i := r.Intn(n + 2)
			if r.Bool() { // a power of two from either end
				if i = 1<<uint(r.Intn(16)) + r.Range(-1, 2); i > n {
					i = n
				} else if r.Bool() {
					i = n - i
				}
			}
			v := int(r.U64() >> uint(r.Intn(60)))
			if r.Bool() {
				if g := s.insert(v, i); g != n+1 {
					c.Failf("%s: Insert(%d) returned %d with %d elements", s.name, i, g, n)
				}
				if i > n {
					i = n
				}
				m.ref = append(m.ref, 0)
				copy(m.ref[i+1:], m.ref[i:])
				m.ref[i] = v
			} else if g, ok := s.remove(i); ok != (i < n) || ok && g != m.ref[i] {
				c.Failf("%s: Remove(%d) = %d,%v with %d elements", s.name, i, g, ok, n)
			} else if ok {
				m.ref = append(m.ref[:i], m.ref[i+1:]...)
			}
			near(i)
			near(len(m.ref) - 1)
			if k%6 == 0 {
				m.check("inserting and removing")
			}
		}
		m.check("inserting and removing")
		if r.Bool() {
			m.do(ssSort, 0, 0)
		}
		for left := r.Intn(len(m.ref)+1) / []int{1, 10, 100}[r.Intn(3)]; len(m.ref) > left; {
			n := len(m.ref)
			v, ok := s.pop()
			if !ok || v != m.ref[n-1] || s.length() != n-1 {
				c.Failf("%s: Pop of %d elements = %d,%v, leaving %d", s.name, n, v, ok, s.length())
			}
			m.ref = m.ref[:n-1]
		}
		m.check("popping")
		c.Max("elements", len(m.ref))
		c.Seen(mon.HashInit.Add(r.U64()))
	}
}

//----------------------------------------------------------------------------
// C42 comparison functors

func functorCase(c *mon.Case) {
	r := c.R
	mkn := func(v int) *stl.IntTreeNode { return (&stl.IntTreeNode{}).AddChild(v, 0) }
	pick := func() int {
		if r.Chance(1, 3) {
			return []int{-1 << 63, 1<<63 - 1, 0, -1, 1}[r.Intn(5)]
		}
		return int(r.U64() >> uint(r.Intn(60)))
	}
	names := []string{"", "Lesser", "Greater"}
	for i, nm := range names {
		// what a functor makes does not depend on the functor that is asked
		z, zt := stl.CmpInt(r.Intn(2)), stl.CmpIntTreeNode(r.Intn(2))
		a, b := pick(), pick()
		if r.Chance(1, 4) {
			b = a
		}
		want := a < b
		s := "Lesser"
		if i == 2 {
			want = a > b
			s = "Greater"
		}
		f, ft := stl.CreateCmpInt(nm), stl.CreateCmpIntTreeNode(nm)
		for _, g := range []stl.CmpInt{f, z.CreateByName(nm), z.CreateByBool(i == 2), []stl.CmpInt{f.Lesser(), f.Lesser(), f.Greater()}[i]} {
			if g.F(a, b) != want || g.String() != s {
				c.Failf("CmpInt %q: F(%d,%d)=%v, name %s", nm, a, b, g.F(a, b), g)
			}
			if z.CreateByName(g.String()) != g {
				c.Failf("CmpInt %q is not created again by its own name", nm)
			}
		}
		for _, g := range []stl.CmpIntTreeNode{ft, zt.CreateByName(nm), zt.CreateByBool(i == 2), []stl.CmpIntTreeNode{ft.Lesser(), ft.Lesser(), ft.Greater()}[i]} {
			if g.F(mkn(a), mkn(b)) != want || g.String() != s {
				c.Failf("CmpIntTreeNode %q: F(%d,%d)=%v, name %s", nm, a, b, g.F(mkn(a), mkn(b)), g)
			}
			if zt.CreateByName(g.String()) != g {
				c.Failf("CmpIntTreeNode %q is not created again by its own name", nm)
			}
		}
		c.Seen(mon.HashInit.Str(nm).Add(uint64(a)).Add(uint64(b)))
		c.Eval(8)
		c.Sample("%q: F(%d,%d)=%v", nm, a, b, want)
	}
	// any other name is refused, not silently taken for an order
	bad := []string{"lesser", "greater", "Lesser ", " Greater", "Less", "GREATER", "<", "0", "1", "Lesserr"}[c.Idx%10]
	if r.Chance(1, 2) {
		bad = string(r.Bytes(r.Range(1, 12)))
	} else if r.Chance(1, 4) {
		bad = strings.Repeat(names[r.Range(1, 2)], r.Range(2, 60))[r.Intn(2):]
	}
	if bad != "" && bad != "Lesser" && bad != "Greater" {
		c.MustPanic(fmt.Sprintf("CreateCmpInt(%q)", bad), func() { stl.CreateCmpInt(bad) })
		c.MustPanic(fmt.Sprintf("CreateCmpIntTreeNode(%q)", bad), func() { stl.CreateCmpIntTreeNode(bad) })
	}
	// strict weak order over a small set
	v := [3]int{r.Intn(4), r.Intn(4), pick()}
	for _, nm := range names {
		f := stl.CreateCmpInt(nm)
		for _, a := range v {
			if f.F(a, a) {
				c.Failf("%q is not irreflexive at %d", nm, a)
			}
			for _, b := range v {
				if a != b && f.F(a, b) == f.F(b, a) {
					c.Failf("%q does not order %d and %d", nm, a, b)
				}
			}
		}
	}
}

func init() {
	mon.Register(&mon.Prop{ID: "C09",
		Rule: "every sequence of 2 (thorough 3) operations on 0..4 elements with every spare capacity 0..2 and indices from -1 to n+2, and random histories, of both generated sort slices against a reference slice; distinct = distinct operation sequence",
		Sections: []mon.Section{
			{Name: "census-int", Quick: 1, Thorough: 1, CPU: 900, Run: func(c *mon.Case) { ssCensus(c, intSlice) }},
			{Name: "census-node", Quick: 1, Thorough: 1, CPU: 900, Run: func(c *mon.Case) { ssCensus(c, nodeSlice) }},
			{Name: "history-int", Quick: 6000, Thorough: 300000, Run: func(c *mon.Case) { ssHistory(c, intSlice) }},
			{Name: "history-node", Quick: 3000, Thorough: 100000, Run: func(c *mon.Case) { ssHistory(c, nodeSlice) }},
			{Name: "large-int", Quick: 8, Thorough: 300, CPU: 300, Run: func(c *mon.Case) { ssLarge(c, intSlice) }},
			{Name: "large-node", Quick: 3, Thorough: 100, CPU: 300, Run: func(c *mon.Case) { ssLarge(c, nodeSlice) }},
			{Name: "sort-large", Quick: 60, Thorough: 2000, Run: func(c *mon.Case) {
				n := c.R.Range(100, 50000)
				for _, mk := range []func(int, bool) *sslice{intSlice, nodeSlice} {
					m := &ssMon{c: c, s: mk(0, true)}
					in := sortInput(c.R, n/4)
					for _, v := range in {
						m.s.push(v)
					}
					m.ref = append([]int{}, in...)
					m.do(ssSort, 0, 0)
					c.Seen(hashInts(mon.HashInit, in))
				}
			}},
		}})
	mon.Register(&mon.Prop{ID: "C10",
		Rule: "every ordered tree of 1..9 (thorough 1..11) nodes, and random histories of adding, removing, re-attaching and sorting children; after each step children, All and the visitor (forward, backward, to and fro) are compared with a reference tree; distinct = distinct tree shape",
		Sections: []mon.Section{
			{Name: "shapes", Quick: 9, Thorough: 12, CPU: 900, Run: treeShapes},
			{Name: "history", Quick: 2000, Thorough: 60000, Run: treeHistory},
			{Name: "large", Quick: 3, Thorough: 60, CPU: 120, Run: treeWide},
		}})
	mon.Register(&mon.Prop{ID: "C42",
		Rule: "random and extreme pairs of values under every spelling of a comparison functor of both generated types, their names, and other names; distinct = distinct (name, pair)",
		Sections: []mon.Section{
			{Name: "functor", Quick: 20000, Thorough: 1000000, Run: functorCase},
		}})
}
