package main

import (
	"sort"
	"time"

	"github.com/vipally/gx/stl"
	"vp/mon"
)

// hugeSize draws a size around one of the powers of two from bits down to 2^13.
func hugeSize(r *mon.Rand, i, bits int) int {
	n := 1 << uint(bits-i%(bits-12))
	return n + r.Intn(n/8+2)
}

// heapHuge runs the algorithms and a heap object on very many elements.
func heapHuge(c *mon.Case) {
	r := c.R
	n, maxTop := hugeSize(r, c.Idx, 20), r.Bool()
	h := usedHeap(r, 0, 0, maxTop)
	for m := 1 << 13; m < n; m *= 4 { // one that takes quadratic time gets less to do
		up, down := make([]int, m), make([]int, m)
		for i := range up {
			up[i], down[m-1-i] = i, i
		}
		if mon.Used(func() { h.SortHeap(up); h.SortHeap(down); h.SortHeap(shape(r, m)) }) > time.Second/4 {
			n = m
		}
	}
	in := shape(r, n)
	want := sortedCopy(in) // in the order of popping
	if maxTop {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	c.Logf("%d elements, maxTop=%v", n, maxTop)
	b := append([]int(nil), in...)
	h.MakeHeap(b)
	if !isHeap(b, maxTop) || !h.CheckHeap(b) {
		c.Failf("MakeHeap of %d elements maxTop=%v is not a heap", n, maxTop)
	}
	if s := sortedCopy(b); !eqInts(s, sortedCopy(in)) {
		c.Failf("MakeHeap of %d elements changed the elements", n)
	}
	s := h.SortHeap(append([]int(nil), in...))
	if len(s) != n {
		c.Failf("SortHeap of %d elements gave %d", n, len(s))
	}
	for i, v := range s {
		if v != want[n-1-i] {
			c.Failf("SortHeap of %d elements maxTop=%v: element %d is %d, want %d", n, maxTop, i, v, want[n-1-i])
		}
	}
	for i, v := range in {
		if c.Long() {
			return
		}
		h.Push(v)
		if h.Size() != i+1 {
			c.Failf("Size %d after %d pushes", h.Size(), i+1)
		}
	}
	if !isHeap(h.Buffer(), maxTop) {
		c.Failf("not a heap after %d pushes, maxTop=%v", n, maxTop)
	}
	for i, w := range want {
		if c.Long() {
			return
		}
		top, _ := h.Top()
		v, ok := h.Pop()
		if !ok || v != w || top != w {
			c.Failf("Pop %d of %d = (%d,%v), Top %d, want %d (maxTop=%v)", i, n, v, ok, top, w, maxTop)
		}
	}
	if _, ok := h.Pop(); ok || !h.Empty() {
		c.Failf("%d pushed, more popped", n)
	}
	c.Count("huge_elements", n)
	c.Max("heap_size", n)
	c.Seen(hashInts(mon.HashInit, in[:100]).Add(uint64(n)))
	c.Sample("%d elements", n)
}

// boundedHuge keeps the best of many, under a limit of thousands.
func boundedHuge(c *mon.Case) {
	r := c.R
	limit, maxTop := hugeSize(r, c.Idx, 17)-r.Intn(5000), r.Bool()
	h := usedHeap(r, r.Intn(limit), limit, maxTop)
	n := limit + r.Intn(limit)
	in := shape(r, n)
	for i, v := range in {
		if c.Long() {
			return
		}
		h.Push(v)
		if w := min(i+1, limit); h.Size() != w {
			c.Failf("limit %d: Size %d after %d pushes", limit, h.Size(), i+1)
		}
	}
	if !isHeap(h.Buffer(), maxTop) {
		c.Failf("limit %d: not a heap after %d pushes, maxTop=%v", limit, n, maxTop)
	}
	want := append([]int(nil), in...)
	sort.Ints(want)
	if maxTop {
		want = want[:limit]
	} else {
		want = want[n-limit:]
	}
	if !eqInts(sortedCopy(h.Buffer()), want) {
		c.Failf("limit %d maxTop=%v: does not keep the right %d of %d values", limit, maxTop, limit, n)
	}
	for k := range want {
		if c.Long() {
			return
		}
		w := want[k]
		if maxTop {
			w = want[limit-1-k]
		}
		if v, ok := h.Pop(); !ok || v != w {
			c.Failf("limit %d maxTop=%v: Pop %d = (%d,%v), want %d", limit, maxTop, k, v, ok, w)
		}
	}
	c.Max("limit", limit)
	c.Count("operations", n)
	if n > limit {
		c.Seen(hashInts(mon.HashInit.Add(uint64(limit)), in[:100]))
	}
}

// stackHuge fills, partly empties and refills a big stack.
func stackHuge(c *mon.Case) {
	r := c.R
	buf := []int{-1, 0, r.Intn(5000), 1 << uint(r.Intn(17)), 1000 * r.Range(1, 9)}[r.Intn(5)]
	s := stl.NewGOGPStackNamePrefixStack(buf)
	var ref []int
	for round := 0; round < 4; round++ {
		for n := hugeSize(r, c.Idx, 18); n > 0; n-- {
			if c.Long() {
				return
			}
			v := len(ref)*3 + round
			if !s.Push(v) {
				c.Failf("stack Push reported failure")
			}
			ref = append(ref, v)
			if t, ok := s.Top(); !ok || t != v || s.Size() != len(ref) {
				c.Failf("after Push(%d): Top=(%d,%v) Size=%d, want %d element(s)", v, t, ok, s.Size(), len(ref))
			}
		}
		c.Max("size", len(ref))
		out := r.Intn(len(ref))
		if round == 3 {
			out = len(ref)
		}
		for ; out > 0; out-- {
			if c.Long() {
				return
			}
			w := ref[len(ref)-1]
			if v, ok := s.Pop(); !ok || v != w {
				c.Failf("Pop with %d element(s) = (%d,%v), want %d", len(ref), v, ok, w)
			}
			ref = ref[:len(ref)-1]
			if s.Size() != len(ref) {
				c.Failf("after Pop: Size=%d, want %d", s.Size(), len(ref))
			}
		}
		if round == 1 && r.Bool() {
			s.Clear()
			if s.Size() != 0 || !s.Empty() {
				c.Failf("after Clear: Size=%d", s.Size())
			}
			ref = ref[:0]
			if r.Bool() {
				s.Init(r.Intn(20000))
			}
		}
	}
	if _, ok := s.Pop(); ok || !s.Empty() {
		c.Failf("not empty after popping everything")
	}
	c.Seen(mon.HashInit.Add(uint64(c.Idx)).Add(r.U64()))
}

// ringHuge runs a ring of very many elements with its head anywhere in the buffer:
// the values are numbered, so that what must come out next at either end is known
// without a copy.
func ringHuge(c *mon.Case, mk func(int, bool) *ring) {
	r := c.R
	buf := []int{0, 1, 7, r.Intn(3000), 1 << uint(r.Intn(18)), 1000 * r.Range(1, 90)}[r.Intn(6)]
	q := mk(buf, r.Chance(1, 8))
	lo, hi := 0, 0 // holds lo..hi-1
	check := func(what string) {
		n := hi - lo
		f, fok := q.front()
		b, bok := q.back()
		if q.size() != n || q.empty() != (n == 0) || fok != (n > 0) || bok != fok || n > 0 && (f != lo || b != hi-1) || q.capa() < n {
			c.Failf("%s after %s: Size=%d Empty=%v Cap=%d Front=(%d,%v) Back=(%d,%v), want %d..%d", q.name, what, q.size(), q.empty(), q.capa(), f, fok, b, bok, lo, hi-1)
		}
	}
	pushB := func() {
		if !q.pushB(hi) {
			c.Failf("%s push reported failure", q.name)
		}
		hi++
		check("push back")
	}
	pushF := func() {
		if !q.hasF {
			pushB()
			return
		}
		if !q.pushF(lo - 1) {
			c.Failf("%s push reported failure", q.name)
		}
		lo--
		check("push front")
	}
	pop := func(front bool) {
		if hi == lo {
			return
		}
		if front || !q.hasF {
			if v, ok := q.popF(); !ok || v != lo {
				c.Failf("%s pop front = (%d,%v), want %d (of %d..%d)", q.name, v, ok, lo, lo, hi-1)
			}
			lo++
		} else {
			if v, ok := q.popB(); !ok || v != hi-1 {
				c.Failf("%s pop back = (%d,%v), want %d", q.name, v, ok, hi-1)
			}
			hi--
		}
		check("pop")
	}
	max := hugeSize(r, c.Idx, 17)
	grew, shrunk := 0, 0
	for round := 0; round < 5; round++ {
		dir, steady := r.Intn(3), r.Intn(3)
		c0 := q.capa()
		for hi-lo < max { // fill
			if c.Long() {
				return
			}
			if dir == 0 || dir == 2 && r.Bool() {
				pushF()
			} else {
				pushB()
			}
			if steady == 0 && r.Chance(1, 3) {
				pop(dir != 0)
			}
		}
		if q.capa() > c0 {
			grew++
		}
		c.Max("size", hi-lo)
		left := r.Intn(hi - lo)
		if r.Bool() {
			left = max - r.Intn(100)
		}
		for hi-lo > left {
			if c.Long() {
				return
			}
			pop(dir == 1 || dir == 2 && r.Bool())
		}
		if left > 0 && r.Bool() { // turn it round in the buffer, then fill to the brim
			for k := r.Intn(2 * q.capa()); k > 0; k-- {
				if c.Long() {
					return
				}
				if dir == 0 {
					pushF()
					pop(false)
				} else {
					pushB()
					pop(true)
				}
			}
			for cp := q.capa(); q.capa() == cp && hi-lo < 4*max && !c.Long(); {
				if dir == 0 {
					pushF()
				} else {
					pushB()
				}
			}
			grew++
		}
		if r.Bool() {
			for hi-lo > max/5 {
				if c.Long() {
					return
				}
				pop(r.Bool())
			}
			c0 = q.capa()
			if ok := q.shrink(); ok != (q.capa() < c0) || q.capa() > c0 {
				c.Failf("%s Shrink reported %v, capacity went %d -> %d", q.name, ok, c0, q.capa())
			}
			if q.capa() < c0 {
				shrunk++
			}
			check("Shrink")
		}
		if r.Chance(1, 8) {
			q.clear()
			lo, hi = 0, 0
			check("Clear")
		}
		max = max*2/3 + r.Intn(max/2+1) + 1
	}
	for hi > lo {
		if c.Long() {
			return
		}
		pop(true)
	}
	if _, ok := q.popF(); ok {
		c.Failf("%s: pop of the empty container reported ok", q.name)
	}
	c.Count("buffer_growths", grew)
	c.Count("buffer_shrinks", shrunk)
	c.Seen(mon.HashInit.Add(uint64(c.Idx)).Add(r.U64()))
	c.Sample("%s buf=%d: up to %d elements, %d growths, %d shrinks", q.name, buf, max, grew, shrunk)
}
