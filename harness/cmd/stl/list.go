package main

import (
	"fmt"

	"github.com/vipally/gx/stl"
	"vp/mon"
)

// listMon drives an IntList in lock-step with the reference sequence of nodes.
type listMon struct {
	c    *mon.Case
	l    *stl.IntList
	ref  []*stl.IntListNode
	val  map[*stl.IntListNode]int
	out  []*stl.IntListNode // detached nodes
	next int                // the value made last
	cnt  int                // values made
	few  bool               // many nodes with one value
	name string

	old      *stl.IntListNodeVisitor // made before the last operation
	oldFront *stl.IntListNode        // the front of oldList then
	oldList  *stl.IntList
	checks   int
}

func newListMon(c *mon.Case, n int, few bool) *listMon {
	m := &listMon{few: few, c: c, l: stl.NewIntList(), val: map[*stl.IntListNode]int{}, name: "list"}
	for i := 0; i < n; i++ {
		m.ref = append(m.ref, m.track(m.l.PushBack(m.fresh()), m.next))
	}
	return m
}

func (m *listMon) fresh() int {
	m.cnt++
	m.next = m.cnt
	if m.few {
		m.next = int(mon.Mix(uint64(m.cnt))%4) - 1
	}
	return m.next
}

func (m *listMon) track(n *stl.IntListNode, v int) *stl.IntListNode {
	if n == nil {
		m.c.Failf("a push returned no node")
	}
	if _, dup := m.val[n]; dup {
		m.c.Failf("a push returned a node that exists already")
	}
	m.val[n] = v
	return n
}

func (m *listMon) freshNode() *stl.IntListNode {
	n := &stl.IntListNode{}
	m.fresh()
	if old := n.Set(m.next); old != 0 {
		m.c.Failf("Set on a new node returned %d", old)
	}
	m.val[n] = m.next
	return n
}

func (m *listMon) vals() string {
	s := ""
	for i, n := range m.ref {
		if i == 100 {
			return s + "..."
		}
		s += fmt.Sprint(m.val[n], " ")
	}
	return s
}

func (m *listMon) got() string {
	s := ""
	p := m.l.Front()
	for i := 0; p != nil && i <= len(m.ref)+2 && i < 150; i++ {
		s += fmt.Sprint(p.Get(), " ")
		if p = p.Next(); p == m.l.Front() {
			break
		}
	}
	return s
}

// check compares every link, value, end and iterator of the list with the reference.
func (m *listMon) check(what string) {
	c, l, n := m.c, m.l, len(m.ref)
	if l.Empty() != (n == 0) {
		c.Failf("after %s: Empty=%v, want %d element(s)", what, l.Empty(), n)
	}
	if n == 0 {
		if l.Front() != nil || l.Back() != nil {
			c.Failf("after %s: the empty list has Front=%v Back=%v", what, l.Front(), l.Back())
		}
		if l.Visitor().Next() || l.Visitor().Prev() {
			c.Failf("after %s: a visitor moves on the empty list", what)
		}
		return
	}
	if l.Front() != m.ref[0] || l.Back() != m.ref[n-1] {
		c.Failf("after %s: wrong ends: list %s want %s", what, m.got(), m.vals())
	}
	for i, x := range m.ref {
		nx, pv := m.ref[(i+1)%n], m.ref[(i+n-1)%n]
		if x.Next() != nx || x.Prev() != pv {
			c.Failf("after %s: wrong links at position %d: forward %s want %s", what, i, m.got(), m.vals())
		}
		if x.Get() != m.val[x] {
			c.Failf("after %s: value at position %d is %d, want %d", what, i, x.Get(), m.val[x])
		}
	}
	v := l.Visitor()
	for i := 0; i < n; i++ {
		if !v.Next() || v.Get() != m.ref[i] {
			c.Failf("after %s: visitor Next misses position %d of %s", what, i, m.vals())
		}
	}
	if v.Next() {
		c.Failf("after %s: visitor Next goes on behind the last of %s", what, m.vals())
	}
	v.Reset()
	for i := n - 1; i >= 0; i-- {
		if !v.Prev() || v.Get() != m.ref[i] {
			c.Failf("after %s: visitor Prev misses position %d of %s", what, i, m.vals())
		}
	}
	if v.Prev() {
		c.Failf("after %s: visitor Prev goes on before the first of %s", what, m.vals())
	}
	v.Reset()
	if !v.Next() || v.Get() != m.ref[0] {
		c.Failf("after %s: visitor Next after Reset is not the front", what)
	}
	// a visitor left anywhere before the operation, its node removed or not, starts anew
	if m.old != nil && m.oldFront == m.ref[0] && m.oldList == l {
		m.old.Reset()
		for i := 0; i < n; i++ {
			if !m.old.Next() || m.old.Get() != m.ref[i] {
				c.Failf("after %s: an older visitor misses position %d of %s after Reset", what, i, m.vals())
			}
		}
		if m.old.Next() {
			c.Failf("after %s: an older visitor goes on behind the last of %s after Reset", what, m.vals())
		}
		c.Count("older visitors", 1)
	}
	m.old = nil
	if m.checks++; n > 1 && n < 200 && m.checks%3 == 0 {
		m.old, m.oldFront, m.oldList = l.Visitor(), m.ref[0], l
		for i := int(mon.Mix(uint64(m.checks))%uint64(n)) + 1; i > 0; i-- {
			m.old.Next()
		}
	}
	// a walk to and fro strictly inside
	if n > 1 {
		pos, h := 0, uint64(m.cnt)
		for k := 0; k < n+2; k++ {
			h = mon.Mix(h)
			if (h&1 == 0 || pos == 0) && pos < n-1 {
				pos++
				if !v.Next() || v.Get() != m.ref[pos] {
					c.Failf("after %s: mixed visit: Next to position %d wrong", what, pos)
				}
			} else if pos > 0 {
				pos--
				if !v.Prev() || v.Get() != m.ref[pos] {
					c.Failf("after %s: mixed visit: Prev to position %d wrong", what, pos)
				}
			}
		}
	}
	c.Count("links checked", 2*n)
}

// checkReach compares reachability of some nodes.
func (m *listMon) checkReach(h uint64) {
	c, l, n := m.c, m.l, len(m.ref)
	if l.IsValidNode(nil) {
		c.Failf("IsValidNode(nil) is true")
	}
	if l.Reachable(nil, nil) {
		c.Failf("Reachable(nil,nil) is true")
	}
	for _, x := range m.out {
		if l.IsValidNode(x) {
			c.Failf("IsValidNode is true for a removed node (%d) of %s", x.Get(), m.vals())
		}
		if !l.Reachable(x, x) {
			c.Failf("a node does not reach itself")
		}
		if n > 0 && (l.Reachable(m.ref[0], x) || l.Reachable(x, m.ref[0])) {
			c.Failf("a removed node is reachable")
		}
	}
	for k := 0; k < 4 && n > 0; k++ {
		h = mon.Mix(h)
		a, b := m.ref[h%uint64(n)], m.ref[(h>>32)%uint64(n)]
		if !l.IsValidNode(a) || !l.Reachable(a, b) {
			c.Failf("a node of the list (%d,%d) is not valid or not reachable in %s", a.Get(), b.Get(), m.vals())
		}
		if l.Reachable(a, nil) || l.Reachable(nil, a) {
			c.Failf("nil is reachable")
		}
	}
}

func (m *listMon) insert(i int, x ...*stl.IntListNode) {
	r := append([]*stl.IntListNode{}, m.ref[:i]...)
	r = append(r, x...)
	m.ref = append(r, m.ref[i:]...)
}

func (m *listMon) take(i int) *stl.IntListNode {
	x := m.ref[i]
	r := append([]*stl.IntListNode{}, m.ref[:i]...)
	m.ref = append(r, m.ref[i+1:]...)
	return x
}

// isDetached checks that a removed node is a free node again.
func (m *listMon) isDetached(x *stl.IntListNode) {
	if x.Next() != nil || x.Prev() != nil {
		m.c.Failf("a removed node is still linked")
	}
	m.out = append(m.out, x)
	if len(m.out) > 6 {
		m.out = m.out[1:]
	}
}

const (
	lPushF = iota
	lPushB
	lInsF
	lInsB
	lPopF
	lPopB
	lRemF
	lRemB
	lRotF
	lRotB
	lReverse
	lClear
	lNils
	lSpliceB // splice a list of j elements
	lSpliceF
	lReinsert // put a removed node back
	// one node argument
	lPushBefore
	lPushAfter
	lInsBefore
	lInsAfter
	lRemove
	lMoveF
	lMoveB
	lSet
	// two node arguments
	lMoveBefore
	lMoveAfter
	lLast
)

var listOpName = [...]string{"PushFront", "PushBack", "InsertFront", "InsertBack", "PopFront", "PopBack", "RemoveFront",
	"RemoveBack", "RotateForward", "RotateBackward", "Reverse", "Clear", "nil-args", "InsertBackList", "InsertFrontList",
	"re-insert", "PushBefore", "PushAfter", "InsertBefore", "InsertAfter", "Remove", "MoveFront", "MoveBack", "Set",
	"MoveBefore", "MoveAfter"}

// do applies one operation to list and reference; i and j are positions.
func (m *listMon) do(op, i, j int) {
	c, l, n := m.c, m.l, len(m.ref)
	what := fmt.Sprintf("%s(%d,%d) on %d element(s)", listOpName[op], i, j, n)
	if c.Tracing {
		c.Logf("%s: %s", m.vals(), what)
	}
	if op >= lPushBefore && n == 0 {
		return
	}
	if n > 0 {
		i, j = i%n, j%n
	}
	same := func(got, want *stl.IntListNode) {
		if got != want {
			c.Failf("%s returned the wrong node", what)
		}
	}
	switch op {
	case lPushF:
		m.insert(0, m.track(l.PushFront(m.fresh()), m.next))
	case lPushB:
		m.insert(n, m.track(l.PushBack(m.fresh()), m.next))
	case lInsF:
		x := m.freshNode()
		same(l.InsertFront(x), x)
		m.insert(0, x)
	case lInsB:
		x := m.freshNode()
		same(l.InsertBack(x), x)
		m.insert(n, x)
	case lPopF, lPopB:
		var v int
		var ok bool
		k := 0
		if op == lPopF {
			v, ok = l.PopFront()
		} else {
			v, ok = l.PopBack()
			k = n - 1
		}
		if ok != (n > 0) {
			c.Failf("%s ok=%v", what, ok)
		}
		if ok {
			x := m.take(k)
			if v != m.val[x] {
				c.Failf("%s = %d, want %d", what, v, m.val[x])
			}
			m.isDetached(x)
		}
	case lRemF, lRemB:
		var x *stl.IntListNode
		k := 0
		if op == lRemF {
			x = l.RemoveFront()
		} else {
			x = l.RemoveBack()
			k = n - 1
		}
		if n == 0 {
			same(x, nil)
		} else {
			same(x, m.take(k))
			m.isDetached(x)
		}
	case lRotF:
		l.RotateForward()
		if n > 0 {
			m.ref = append(append([]*stl.IntListNode{}, m.ref[1:]...), m.ref[0])
		}
	case lRotB:
		l.RotateBackward()
		if n > 0 {
			m.ref = append([]*stl.IntListNode{m.ref[n-1]}, m.ref[:n-1]...)
		}
	case lReverse:
		l.Reverse()
		r := make([]*stl.IntListNode, n)
		for k, x := range m.ref {
			r[n-1-k] = x
		}
		m.ref = r
	case lClear:
		l.Clear()
		m.ref = nil
	case lNils:
		var z *stl.IntListNode
		if l.InsertFront(nil) != nil || l.InsertBack(nil) != nil || l.Remove(nil) != nil || l.MoveFront(nil) != nil ||
			l.MoveBack(nil) != nil || l.PushBefore(1, nil) != nil || l.PushAfter(1, nil) != nil || z.Next() != nil || z.Prev() != nil {
			c.Failf("a nil argument was not a no-op on %s", m.vals())
		}
		l.InsertBefore(nil, l.Front())
		l.InsertAfter(nil, l.Front())
		if l.MoveBefore(nil, l.Front()) != nil || l.MoveAfter(l.Back(), nil) != nil || l.MoveBefore(l.Front(), nil) != nil ||
			l.MoveAfter(nil, l.Back()) != nil {
			c.Failf("a move with a nil argument was not a no-op on %s", m.vals())
		}
		var e stl.IntList
		if l.InsertBackList(&e) || l.InsertFrontList(&e) {
			c.Failf("splicing an empty list reported true")
		}
		// a node that is in no list: removing and moving it does nothing
		x := m.freshNode()
		if l.Remove(x) != nil || l.MoveFront(x) != nil || l.MoveBack(x) != nil {
			c.Failf("removing or moving a free node was not a no-op on %s", m.vals())
		}
		if n > 0 && (l.MoveBefore(x, l.Front()) != nil || l.MoveAfter(x, l.Back()) != nil) {
			c.Failf("moving a free node was not a no-op on %s", m.vals())
		}
		l.InsertBefore(x, nil)
		l.InsertAfter(x, nil)
		if n > 0 { // a node is never put beside itself
			y := m.ref[i]
			l.InsertBefore(y, y)
			l.InsertAfter(y, y)
		}
		if x.Next() != nil || x.Prev() != nil {
			c.Failf("a no-op linked a free node")
		}
	case lSpliceB, lSpliceF:
		o := stl.NewIntList()
		var on []*stl.IntListNode
		count := j % 4
		if n > 80 {
			count = j // many
		}
		for k := 0; k < count; k++ {
			on = append(on, m.track(o.PushBack(m.fresh()), m.next))
		}
		var ok bool
		if op == lSpliceB {
			ok = l.InsertBackList(o)
			m.insert(n, on...)
		} else {
			ok = l.InsertFrontList(o)
			m.insert(0, on...)
		}
		if ok != (len(on) > 0) || !o.Empty() || o.Front() != nil {
			c.Failf("%s of %d element(s) = %v, other empty=%v", what, len(on), ok, o.Empty())
		}
	case lReinsert:
		if len(m.out) > 0 {
			x := m.out[len(m.out)-1]
			m.out = m.out[:len(m.out)-1]
			if i%2 == 0 {
				same(l.InsertBack(x), x)
				m.insert(n, x)
			} else {
				same(l.InsertFront(x), x)
				m.insert(0, x)
			}
		}
	case lPushBefore:
		m.insert(i, m.track(l.PushBefore(m.fresh(), m.ref[i]), m.next))
	case lPushAfter:
		m.insert(i+1, m.track(l.PushAfter(m.fresh(), m.ref[i]), m.next))
	case lInsBefore:
		x := m.freshNode()
		same(l.InsertBefore(x, m.ref[i]), x)
		m.insert(i, x)
	case lInsAfter:
		x := m.freshNode()
		same(l.InsertAfter(x, m.ref[i]), x)
		m.insert(i+1, x)
	case lRemove:
		x := m.take(i)
		same(l.Remove(x), x)
		m.isDetached(x)
		if l.Remove(x) != nil {
			c.Failf("%s: removing a removed node reported it again", what)
		}
	case lMoveF, lMoveB:
		x := m.take(i)
		var r *stl.IntListNode
		k := 0
		if op == lMoveF {
			r = l.MoveFront(x)
		} else {
			r = l.MoveBack(x)
			k = n - 1
		}
		m.insert(k, x)
		if r != x && (r != nil || i != k) {
			c.Failf("%s returned the wrong node", what)
		}
	case lSet:
		v := m.fresh()
		if old := m.ref[i].Set(v); old != m.val[m.ref[i]] {
			c.Failf("%s returned %d, want %d", what, old, m.val[m.ref[i]])
		}
		m.val[m.ref[i]] = v
	case lMoveBefore, lMoveAfter:
		x, mark := m.ref[i], m.ref[j]
		var r *stl.IntListNode
		if op == lMoveBefore {
			r = l.MoveBefore(x, mark)
		} else {
			r = l.MoveAfter(x, mark)
		}
		if i == j {
			same(r, nil)
			break
		}
		m.take(i)
		if i < j {
			j--
		}
		if op == lMoveAfter {
			j++
		}
		m.insert(j, x)
		if r != x && (r != nil || i != j) {
			c.Failf("%s returned the wrong node", what)
		}
	}
	c.Count("op:"+listOpName[op], 1)
	m.check(what)
}

type lop struct{ op, i, j int }

// listOps lists every operation applicable to a list of n elements.
func listOps(n int) (r []lop) {
	for op := 0; op < lLast; op++ {
		switch {
		case op == lSpliceB || op == lSpliceF:
			for j := 0; j < 4; j++ {
				r = append(r, lop{op, 0, j})
			}
		case op < lPushBefore:
			r = append(r, lop{op, 0, 0})
		case op < lMoveBefore:
			for i := 0; i < n; i++ {
				r = append(r, lop{op, i, 0})
			}
		default:
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					r = append(r, lop{op, i, j})
				}
			}
		}
	}
	return
}

// listCensus enumerates every pair of operations on a list of Idx elements.
func listCensus(c *mon.Case, n int, few bool) {
	for _, a := range listOps(n) {
		m := newListMon(c, n, few)
		m.do(a.op, a.i, a.j)
		n2 := len(m.ref)
		if n2 > n+2 && !c.Thorough() {
			n2 = n + 2
		}
		for _, b := range listOps(n2) {
			m = newListMon(c, n, few)
			m.do(a.op, a.i, a.j)
			m.do(b.op, b.i, b.j)
			c.Eval(1)
			c.Seen(mon.HashInit.Add(uint64(n)).Add(uint64(a.op<<16 | a.i<<8 | a.j)).Add(uint64(b.op<<16 | b.i<<8 | b.j)))
			if c.Thorough() && len(m.ref) <= 3 && n <= 3 {
				for _, d := range listOps(len(m.ref)) {
					m = newListMon(c, n, few)
					m.do(a.op, a.i, a.j)
					m.do(b.op, b.i, b.j)
					m.do(d.op, d.i, d.j)
					m.checkReach(uint64(d.op))
					c.Eval(1)
				}
			}
		}
		m.checkReach(uint64(a.op))
	}
	c.Sample("every pair of operations on a list of %d element(s): %d first operations", n, len(listOps(n)))
}

func listHistory(c *mon.Case) {
	r := c.R
	n := r.Sizes(60, 60, 2500)
	if r.Chance(1, 400) {
		n = r.Range(4000, 70000)
	}
	m := newListMon(c, n, r.Chance(1, 3))
	m.check("build")
	limit := r.Range(1, 80)
	ops := 120
	if n := len(m.ref); n > 80 { // a long list
		limit, ops = r.Range(n-40, n+40), 50
		if n > 3000 {
			ops = 16
		}
	}
	h := mon.HashInit.Add(uint64(len(m.ref)))
	for k := 0; k < ops; k++ {
		op := r.Intn(lLast)
		if op == lClear && !r.Chance(1, 20) {
			op = lMoveAfter
		}
		if len(m.ref) > limit && r.Chance(2, 3) {
			op = []int{lPopF, lPopB, lRemF, lRemB, lRemove}[r.Intn(5)]
		}
		if r.Chance(1, 4) {
			op = []int{lMoveBefore, lMoveAfter, lMoveF, lMoveB}[r.Intn(4)]
		}
		i, j := r.Intn(len(m.ref)+1), r.Intn(len(m.ref)+1)
		if len(m.ref) > 0 && r.Chance(1, 3) { // ends and neighbours
			i = []int{0, len(m.ref) - 1, i}[r.Intn(3)]
			j = []int{0, len(m.ref) - 1, i + 1, i + len(m.ref) - 1}[r.Intn(4)]
		}
		h = h.Add(uint64(op<<20 | i<<10 | j))
		m.do(op, i, j)
		c.Max("list length", len(m.ref))
		if k%16 == 0 {
			m.checkReach(r.U64())
		}
	}
	m.checkReach(r.U64())
	c.Eval(ops)
	c.Seen(h)
	c.Sample("history of %d operations ending with %.200s", ops, m.vals())
}

func init() {
	mon.Register(&mon.Prop{ID: "C06",
		Rule: "every pair of list operations (thorough: triples on up to 3 elements) on lists of 0..6 elements, and random histories of 120 operations biased to the ends and to neighbours; after every operation all links, values, ends and visitors are compared with a reference sequence of node identities; distinct = distinct operation sequence",
		Sections: []mon.Section{
			{Name: "census", Quick: 14, Thorough: 16, CPU: 300, Run: func(c *mon.Case) { listCensus(c, c.Idx/2, c.Idx%2 == 1) }},
			{Name: "history", Quick: 3000, Thorough: 120000, Run: listHistory},
		}})
}
