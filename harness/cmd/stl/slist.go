package main

import (
	"fmt"

	"github.com/vipally/gx/stl"
	"vp/mon"
)

// slistMon drives an IntSList in lock-step with the reference sequence of nodes.
type slistMon struct {
	c    *mon.Case
	l    *stl.IntSList
	ref  []*stl.IntSListNode
	val  map[*stl.IntSListNode]int
	out  []*stl.IntSListNode
	next int  // the value made last
	cnt  int  // values made
	few  bool // many nodes with one value
}

func newSListMon(c *mon.Case, n int, few bool) *slistMon {
	m := &slistMon{few: few, c: c, l: stl.NewIntSList(), val: map[*stl.IntSListNode]int{}}
	for i := 0; i < n; i++ {
		m.ref = append(m.ref, m.track(m.l.PushFront(m.fresh()), m.next))
	}
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		m.ref[i], m.ref[j] = m.ref[j], m.ref[i]
	}
	return m
}

func (m *slistMon) fresh() int {
	m.cnt++
	m.next = m.cnt
	if m.few {
		m.next = int(mon.Mix(uint64(m.cnt))%4) - 1
	}
	return m.next
}

func (m *slistMon) track(n *stl.IntSListNode, v int) *stl.IntSListNode {
	if n == nil {
		m.c.Failf("a push returned no node")
	}
	if _, dup := m.val[n]; dup {
		m.c.Failf("a push returned a node that exists already")
	}
	m.val[n] = v
	return n
}

func (m *slistMon) freshNode() *stl.IntSListNode {
	n := &stl.IntSListNode{}
	n.Set(m.fresh())
	m.val[n] = m.next
	return n
}

func (m *slistMon) insert(i int, x ...*stl.IntSListNode) {
	r := append([]*stl.IntSListNode{}, m.ref[:i]...)
	r = append(r, x...)
	m.ref = append(r, m.ref[i:]...)
}

func (m *slistMon) take(i int) *stl.IntSListNode {
	x := m.ref[i]
	r := append([]*stl.IntSListNode{}, m.ref[:i]...)
	m.ref = append(r, m.ref[i+1:]...)
	return x
}

func (m *slistMon) vals() string {
	s := ""
	for i, n := range m.ref {
		if i == 100 {
			return s + "..."
		}
		s += fmt.Sprint(m.val[n], " ")
	}
	return s
}

func (m *slistMon) got() string {
	s := ""
	p := m.l.Front()
	for i := 0; p != nil && i <= len(m.ref)+2 && i < 150; i++ {
		s += fmt.Sprint(p.Get(), " ")
		p = p.Next()
	}
	return s
}

func (m *slistMon) check(what string) {
	c, l, n := m.c, m.l, len(m.ref)
	if l.Empty() != (n == 0) {
		c.Failf("after %s: Empty=%v, want %d element(s)", what, l.Empty(), n)
	}
	p := l.Front()
	for i, x := range m.ref {
		if p != x {
			c.Failf("after %s: wrong node at position %d: list %s want %s", what, i, m.got(), m.vals())
		}
		if x.Get() != m.val[x] {
			c.Failf("after %s: value at position %d is %d, want %d", what, i, x.Get(), m.val[x])
		}
		p = p.Next()
	}
	if p != nil {
		c.Failf("after %s: the list goes on behind its end: %s want %s", what, m.got(), m.vals())
	}
	if l.Len() != n {
		c.Failf("after %s: Len=%d, want %d", what, l.Len(), n)
	}
	if t, k := l.Front().Tail(); k != n || n > 0 && t != m.ref[n-1] || n == 0 && t != nil {
		c.Failf("after %s: Tail size %d, want %d", what, k, n)
	}
	v := l.Visitor()
	for i := 0; i < n; i++ {
		if !v.Next() || v.Get() != m.ref[i] {
			c.Failf("after %s: the visitor misses position %d of %s", what, i, m.vals())
		}
	}
	if v.Next() {
		c.Failf("after %s: the visitor goes on behind the last of %s", what, m.vals())
	}
	if l.HasCycle(l.Front()) {
		c.Failf("after %s: HasCycle is true on %s", what, m.vals())
	}
	c.Count("links checked", n)
}

func (m *slistMon) checkReach(h uint64) {
	c, l, n := m.c, m.l, len(m.ref)
	if l.IsValidNode(nil) || l.Reachable(nil, nil) || l.HasCycle(nil) {
		c.Failf("nil is valid, reachable or cyclic")
	}
	for _, x := range m.out {
		if l.IsValidNode(x) {
			c.Failf("IsValidNode is true for a removed node of %s", m.vals())
		}
	}
	for k := 0; k < 5 && n > 0; k++ {
		h = mon.Mix(h)
		i, j := int(h%uint64(n)), int((h>>32)%uint64(n))
		if !l.IsValidNode(m.ref[i]) {
			c.Failf("IsValidNode is false for position %d of %s", i, m.vals())
		}
		if l.Reachable(m.ref[i], m.ref[j]) != (i <= j) {
			c.Failf("Reachable from position %d to %d of %s is %v", i, j, m.vals(), i > j)
		}
		if l.Reachable(m.ref[i], nil) || l.Reachable(nil, m.ref[i]) {
			c.Failf("nil is reachable")
		}
		if t, s := m.ref[i].Tail(); t != m.ref[n-1] || s != n-i {
			c.Failf("Tail from position %d of %s = size %d", i, m.vals(), s)
		}
	}
}

func (m *slistMon) detached(x *stl.IntSListNode) {
	if x.Next() != nil {
		m.c.Failf("a removed node is still linked")
	}
	m.out = append(m.out, x)
	if len(m.out) > 6 {
		m.out = m.out[1:]
	}
}

const (
	sPushF = iota
	sInsF
	sPopF
	sRemF
	sReverse
	sClear
	sNils
	sSplice
	sReinsert
	sPushAfter
	sInsAfter
	sRemove
	sMoveF
	sSet
	sMoveAfter
	sLast
)

var slistOpName = [...]string{"PushFront", "InsertFront", "PopFront", "RemoveFront", "Reverse", "Clear", "nil-args",
	"PushFrontList", "re-insert", "PushAfter", "InsertAfter", "Remove", "MoveFront", "Set", "MoveAfter"}

func (m *slistMon) do(op, i, j int) {
	c, l, n := m.c, m.l, len(m.ref)
	what := fmt.Sprintf("%s(%d,%d) on %d element(s)", slistOpName[op], i, j, n)
	if c.Tracing {
		c.Logf("%s: %s", m.vals(), what)
	}
	if op >= sPushAfter && n == 0 {
		return
	}
	if n > 0 {
		i, j = i%n, j%n
	}
	same := func(got, want *stl.IntSListNode) {
		if got != want {
			c.Failf("%s returned the wrong node", what)
		}
	}
	switch op {
	case sPushF:
		m.insert(0, m.track(l.PushFront(m.fresh()), m.next))
	case sInsF:
		x := m.freshNode()
		same(l.InsertFront(x), x)
		m.insert(0, x)
	case sPopF:
		v, ok := l.PopFront()
		if ok != (n > 0) {
			c.Failf("%s ok=%v", what, ok)
		}
		if ok {
			x := m.take(0)
			if v != m.val[x] {
				c.Failf("%s = %d, want %d", what, v, m.val[x])
			}
			m.detached(x)
		}
	case sRemF:
		x := l.RemoveFront()
		if n == 0 {
			same(x, nil)
		} else {
			same(x, m.take(0))
			m.detached(x)
		}
	case sReverse:
		l.Reverse()
		r := make([]*stl.IntSListNode, n)
		for k, x := range m.ref {
			r[n-1-k] = x
		}
		m.ref = r
	case sClear:
		l.Clear()
		m.ref = nil
	case sNils:
		var z *stl.IntSListNode
		if t, k := z.Tail(); t != nil || k != 0 || z.Next() != nil {
			c.Failf("Tail or Next of no node is something")
		}
		if l.InsertFront(nil) != nil || l.Remove(nil) != nil || l.MoveFront(nil) != nil || l.PushAfter(1, nil) != nil ||
			l.InsertAfter(nil, l.Front()) != nil || l.MoveAfter(nil, l.Front()) != nil || l.MoveAfter(l.Front(), nil) != nil {
			c.Failf("a nil argument was not a no-op on %s", m.vals())
		}
		if n > 0 && (l.InsertAfter(l.Front(), l.Front()) != nil || l.MoveAfter(l.Front(), l.Front()) != nil) {
			c.Failf("inserting or moving a node after itself was not a no-op")
		}
		x := m.freshNode()
		if l.Remove(x) != nil || l.MoveFront(x) != nil || l.InsertAfter(x, nil) != nil || n > 0 && l.MoveAfter(x, l.Front()) != nil || x.Next() != nil {
			c.Failf("removing or moving a node of no list was not a no-op on %s", m.vals())
		}
		l.PushFrontList(&stl.IntSList{})
	case sSplice:
		o := stl.NewIntSList()
		var on []*stl.IntSListNode
		for k := 0; k < j%4; k++ {
			x := m.track(o.PushFront(m.fresh()), m.next)
			on = append([]*stl.IntSListNode{x}, on...)
		}
		l.PushFrontList(o)
		m.insert(0, on...)
	case sReinsert:
		if len(m.out) > 0 {
			x := m.out[len(m.out)-1]
			m.out = m.out[:len(m.out)-1]
			same(l.InsertFront(x), x)
			m.insert(0, x)
		}
	case sPushAfter:
		m.insert(i+1, m.track(l.PushAfter(m.fresh(), m.ref[i]), m.next))
	case sInsAfter:
		x := m.freshNode()
		same(l.InsertAfter(x, m.ref[i]), x)
		m.insert(i+1, x)
	case sRemove:
		x := m.take(i)
		same(l.Remove(x), x)
		m.detached(x)
		if l.Remove(x) != nil {
			c.Failf("%s: removing a removed node reported it again", what)
		}
	case sMoveF:
		x := m.take(i)
		r := l.MoveFront(x)
		m.insert(0, x)
		if r != x && (r != nil || i != 0) {
			c.Failf("%s returned the wrong node", what)
		}
	case sSet:
		v := m.fresh()
		if old := m.ref[i].Set(v); old != m.val[m.ref[i]] {
			c.Failf("%s returned %d, want %d", what, old, m.val[m.ref[i]])
		}
		m.val[m.ref[i]] = v
	case sMoveAfter:
		x, mark := m.ref[i], m.ref[j]
		r := l.MoveAfter(x, mark)
		if i == j {
			same(r, nil)
			break
		}
		m.take(i)
		if i < j {
			j--
		}
		m.insert(j+1, x)
		if r != x && (r != nil || i != j+1) {
			c.Failf("%s returned the wrong node", what)
		}
	}
	c.Count("op:"+slistOpName[op], 1)
	m.check(what)
}

func slistOps(n int) (r []lop) {
	for op := 0; op < sLast; op++ {
		switch {
		case op == sSplice:
			for j := 0; j < 4; j++ {
				r = append(r, lop{op, 0, j})
			}
		case op < sPushAfter:
			r = append(r, lop{op, 0, 0})
		case op < sMoveAfter:
			for i := 0; i < n; i++ {
				r = append(r, lop{op, i, 0})
			}
		default:
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					r = append(r, lop{op, i, j})
				}
			}
		}
	}
	return
}

func slistCensus(c *mon.Case, n int, few bool) {
	for _, a := range slistOps(n) {
		m := newSListMon(c, n, few)
		m.do(a.op, a.i, a.j)
		for _, b := range slistOps(len(m.ref)) {
			m = newSListMon(c, n, few)
			m.do(a.op, a.i, a.j)
			m.do(b.op, b.i, b.j)
			c.Eval(1)
			c.Seen(mon.HashInit.Add(uint64(n)).Add(uint64(a.op<<16 | a.i<<8 | a.j)).Add(uint64(b.op<<16 | b.i<<8 | b.j)))
			if n <= 3 && len(m.ref) <= 4 {
				for _, d := range slistOps(len(m.ref)) {
					m = newSListMon(c, n, few)
					m.do(a.op, a.i, a.j)
					m.do(b.op, b.i, b.j)
					m.do(d.op, d.i, d.j)
					m.checkReach(uint64(d.op))
					c.Eval(1)
				}
			}
		}
		m.checkReach(uint64(a.op))
	}
	c.Sample("every pair of operations on a list of %d element(s)", n)
}

func slistHistory(c *mon.Case) {
	r := c.R
	n := r.Sizes(60, 60, 2500)
	if r.Chance(1, 400) {
		n = r.Range(4000, 70000)
	}
	m := newSListMon(c, n, r.Chance(1, 3))
	m.check("build")
	limit := r.Range(1, 80)
	ops := 120
	if n := len(m.ref); n > 80 { // a long list
		limit, ops = r.Range(n-40, n+40), 50
		if n > 3000 {
			ops = 16
		}
	}
	h := mon.HashInit.Add(uint64(len(m.ref)))
	for k := 0; k < ops; k++ {
		op := r.Intn(sLast)
		if op == sClear && !r.Chance(1, 20) {
			op = sMoveAfter
		}
		if len(m.ref) > limit && r.Chance(2, 3) {
			op = []int{sPopF, sRemF, sRemove}[r.Intn(3)]
		}
		i, j := r.Intn(len(m.ref)+1), r.Intn(len(m.ref)+1)
		if len(m.ref) > 0 && r.Chance(1, 3) {
			i = []int{0, len(m.ref) - 1, i}[r.Intn(3)]
			j = []int{0, len(m.ref) - 1, i + 1, i + len(m.ref) - 1}[r.Intn(4)]
		}
		h = h.Add(uint64(op<<20 | i<<10 | j))
		m.do(op, i, j)
		c.Max("list length", len(m.ref))
		if k%16 == 0 {
			m.checkReach(r.U64())
		}
	}
	m.checkReach(r.U64())
	c.Eval(ops)
	c.Seen(h)
	c.Sample("history of %d operations ending with %.200s", ops, m.vals())
}

// slistCycle: a chain of `tail` nodes into a ring of `ring` nodes (0: no ring).
func slistCycle(c *mon.Case) {
	max := 40
	if c.Thorough() {
		max = 200
	}
	ring := c.Idx % max
	for tail := 0; tail < max; tail++ {
		l := stl.NewIntSList()
		var nodes []*stl.IntSListNode // front to back
		for i := 0; i < ring; i++ {
			nodes = append([]*stl.IntSListNode{l.PushFront(i)}, nodes...)
		}
		if ring > 0 {
			// splicing a list in front of itself closes the ring
			l.PushFrontList(l)
			if t := nodes[ring-1].Next(); t != nodes[0] {
				c.Inconclusive("self splice made no ring")
				return
			}
		}
		for i := 0; i < tail; i++ {
			nodes = append([]*stl.IntSListNode{l.PushFront(1000 + i)}, nodes...)
		}
		for _, n := range nodes {
			if l.HasCycle(n) != (ring > 0) {
				c.Failf("HasCycle = %v on a tail of %d into a ring of %d", ring == 0, tail, ring)
			}
			c.Eval(1)
		}
		if len(nodes) == 0 && l.HasCycle(l.Front()) {
			c.Failf("HasCycle of the empty list")
		}
		// reachability, asked of the list itself and of another one
		o := stl.NewIntSList()
		foreign := o.PushFront(7)
		pairs := len(nodes) * len(nodes)
		all := pairs <= 64
		if !all {
			pairs = 40
		}
		for k := 0; k < pairs; k++ {
			i, j := c.R.Intn(len(nodes)), c.R.Intn(len(nodes))
			if all {
				i, j = k/len(nodes), k%len(nodes)
			}
			a := l
			if k&1 == 1 {
				a = o
			}
			want := i <= j || i >= tail && j >= tail && ring > 0
			if a.Reachable(nodes[i], nodes[j]) != want {
				c.Failf("Reachable = %v from node %d to %d of a tail of %d into a ring of %d", !want, i, j, tail, ring)
			}
			if a.Reachable(nodes[i], foreign) || l.IsValidNode(foreign) || !l.IsValidNode(nodes[i]) {
				c.Failf("a tail of %d into a ring of %d: a node of another list counts as one of these, or one of these does not", tail, ring)
			}
			c.Eval(2)
		}
		if ring == 0 && tail > 0 {
			// reachability in a chain is checked by the histories; here the ends
			if !l.Reachable(nodes[0], nodes[tail-1]) {
				c.Failf("the end of a chain of %d is not reachable", tail)
			}
		}
		c.Seen(mon.HashInit.Add(uint64(ring)).Add(uint64(tail)))
	}
	c.Sample("ring of %d with tails of 0..%d nodes, asked from every node", ring, max-1)
}

// slistLong: chains and rings of very many nodes.
func slistLong(c *mon.Case) {
	r := c.R
	n := hugeSize(r, c.Idx, 18)
	l := stl.NewIntSList()
	var nodes []*stl.IntSListNode // back to front
	for i := 0; i < n; i++ {
		nodes = append(nodes, l.PushFront(i))
	}
	at := func(i int) *stl.IntSListNode { return nodes[n-1-i] }
	for _, i := range []int{0, 1, r.Intn(n), n - 1} {
		if t, size := at(i).Tail(); t != nodes[0] || size != n-i {
			c.Failf("Tail from node %d of %d: size %d", i, n, size)
		}
		j := r.Intn(n)
		if l.Reachable(at(i), at(j)) != (j >= i) || !l.IsValidNode(at(i)) || l.HasCycle(at(i)) {
			c.Failf("chain of %d nodes: Reachable(%d,%d)=%v IsValidNode=%v HasCycle=%v", n, i, j, l.Reachable(at(i), at(j)), l.IsValidNode(at(i)), l.HasCycle(at(i)))
		}
		if l.IsValidNode(&stl.IntSListNode{}) {
			c.Failf("chain of %d nodes: another node is valid", n)
		}
	}
	if g := l.Len(); g != n {
		c.Failf("Len = %d of %d nodes", g, n)
	}
	l.PushFrontList(l)
	if nodes[0].Next() != at(0) {
		c.Inconclusive("self splice made no ring")
		return
	}
	for i := r.Intn(n); i > 0; i-- {
		nodes = append(nodes, l.PushFront(-i))
	}
	for _, i := range []int{0, len(nodes) - 1, r.Intn(len(nodes))} {
		if !l.HasCycle(nodes[i]) {
			c.Failf("HasCycle = false on a tail of %d into a ring of %d", len(nodes)-n, n)
		}
		// nodes[k] is in the ring for k < n, the tail comes after it, last node first
		j := r.Intn(len(nodes))
		if want := i < n && j < n || i >= n && j <= i; l.Reachable(nodes[i], nodes[j]) != want {
			c.Failf("Reachable = %v from %d to %d (a tail of %d into a ring of %d)", !want, i, j, len(nodes)-n, n)
		}
		if l.Reachable(nodes[i], &stl.IntSListNode{}) || !l.IsValidNode(nodes[j]) {
			c.Failf("validity is wrong on a tail of %d into a ring of %d", len(nodes)-n, n)
		}
	}
	c.Max("nodes", len(nodes))
	c.Seen(mon.HashInit.Add(uint64(n)).Add(uint64(len(nodes))))
}

func init() {
	mon.Register(&mon.Prop{ID: "C08",
		Rule: "every pair of singly linked list operations (triples on up to 3 elements) on lists of 0..6 elements, random histories of 120 operations, and every ring/tail shape for cycle detection; after every operation nodes, values, length, tail and visitor are compared with a reference sequence of node identities; distinct = distinct operation sequence or shape",
		Sections: []mon.Section{
			{Name: "census", Quick: 14, Thorough: 16, CPU: 300, Run: func(c *mon.Case) { slistCensus(c, c.Idx/2, c.Idx%2 == 1) }},
			{Name: "history", Quick: 3000, Thorough: 120000, Run: slistHistory},
			{Name: "long", Quick: 6, Thorough: 200, CPU: 120, Run: slistLong},
			{Name: "cycle", Quick: 40, Thorough: 200, CPU: 120, Run: slistCycle},
		}})
}
