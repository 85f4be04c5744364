package main

import (
	"container/heap"
	"math"
	"sort"

	"github.com/vipally/gx/stl"
	"vp/mon"
)

// refHeap is the reference priority queue (std container/heap).
type refHeap struct {
	d      []int
	maxTop bool
}

func (h *refHeap) Len() int { return len(h.d) }
func (h *refHeap) Less(i, j int) bool {
	if h.maxTop {
		return h.d[i] > h.d[j]
	}
	return h.d[i] < h.d[j]
}
func (h *refHeap) Swap(i, j int)      { h.d[i], h.d[j] = h.d[j], h.d[i] }
func (h *refHeap) Push(x interface{}) { h.d = append(h.d, x.(int)) }
func (h *refHeap) Pop() interface{} {
	n := len(h.d) - 1
	x := h.d[n]
	h.d = h.d[:n]
	return x
}

// valueGen draws values from one of several distributions.
func valueGen(r *mon.Rand) func() int {
	switch r.Intn(6) {
	case 0:
		return func() int { return r.Intn(3) }
	case 1:
		return func() int { return r.Intn(40) - 20 }
	case 2:
		return func() int { return int(r.U64()) }
	case 3:
		n := 0
		return func() int { n++; return n }
	case 4:
		n := 0
		return func() int { n--; return n }
	default:
		return func() int {
			switch r.Intn(6) {
			case 0:
				return math.MinInt64
			case 1:
				return math.MaxInt64
			case 2:
				return 0
			case 3:
				return -1
			}
			return int(r.U64())
		}
	}
}

func isHeap(b []int, maxTop bool) bool {
	for i := 1; i < len(b); i++ {
		p := (i - 1) / 2
		if maxTop && b[p] < b[i] || !maxTop && b[p] > b[i] {
			return false
		}
	}
	return true
}

func sortedCopy(b []int) []int {
	c := append([]int(nil), b...)
	sort.Ints(c)
	return c
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func hashInts(h mon.Hash, b []int) mon.Hash {
	for _, v := range b {
		h = h.Add(uint64(v))
	}
	return h.Add(uint64(len(b)))
}

// usedHeap gives a heap object of the wanted configuration: a new one, or one
// that served with another limit and order before and was initialised again.
func usedHeap(r *mon.Rand, capacity, limit int, maxTop bool) *stl.IntHeap {
	if !r.Chance(1, 3) {
		return stl.NewIntHeap(capacity, limit, maxTop)
	}
	h := stl.NewIntHeap(r.Intn(6), []int{0, -3, 1, 2, r.Range(1, 12)}[r.Intn(5)], r.Bool())
	if r.Chance(1, 20) { // one that was big
		h = stl.NewIntHeap(r.Intn(6000), []int{0, 0, r.Range(1, 6000)}[r.Intn(3)], r.Bool())
		for i := r.Intn(6000); i > 0; i-- {
			h.Push(i * 7 % 1000)
		}
		if r.Bool() {
			h.Init(r.Intn(3), r.Range(-1, 1), r.Bool())
		}
	}
	for again := r.Range(1, 3); again > 0; again-- {
		for i := r.Intn(30); i > 0; i-- {
			if r.Chance(1, 4) {
				h.Pop()
			} else {
				h.Push(r.Intn(10))
			}
		}
		if again > 1 {
			h.Init(r.Intn(10), r.Range(-1, 9), r.Bool())
		}
	}
	h.Init(capacity, limit, maxTop)
	return h
}

// heapAlgos checks the slice algorithms of a heap object on one input.
func heapAlgos(c *mon.Case, in []int, maxTop bool, slack int) {
	h := stl.NewIntHeap(0, 0, maxTop)
	own := len(in) % 4 // what the object itself holds must not matter, nor change
	for i := 0; i < own; i++ {
		h.Push(i)
	}
	want := sortedCopy(in)
	if !maxTop {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	mk := func() []int {
		b := make([]int, len(in), len(in)+slack)
		copy(b, in)
		return b
	}
	if c.Tracing {
		c.Logf("algorithms on %v maxTop=%v slack=%d", in, maxTop, slack)
	}
	if got := h.CheckHeap(mk()); got != isHeap(in, maxTop) {
		c.Failf("CheckHeap(%v) maxTop=%v = %v", in, maxTop, got)
	}
	b := mk()
	h.MakeHeap(b)
	if !isHeap(b, maxTop) || !h.CheckHeap(b) {
		c.Failf("MakeHeap(%v) maxTop=%v gave %v, not a heap", in, maxTop, b)
	}
	if !eqInts(sortedCopy(b), sortedCopy(in)) {
		c.Failf("MakeHeap(%v) changed the elements: %v", in, b)
	}
	// pop everything off the made heap, then push everything onto an empty one
	t := b
	for k := len(in); k > 0; k-- {
		nt, top, ok := h.PopHeap(t)
		exp := want[k-1]
		if !ok || top != exp {
			c.Failf("PopHeap #%d of %v maxTop=%v = (%d,%v), want %d", len(in)-k, in, maxTop, top, ok, exp)
		}
		if len(nt) != k-1 || !isHeap(nt, maxTop) {
			c.Failf("PopHeap of %v maxTop=%v left %v (want a heap of %d)", in, maxTop, nt, k-1)
		}
		t = nt
	}
	if _, _, ok := h.PopHeap(nil); ok {
		c.Failf("PopHeap(nil) reported ok")
	}
	t = make([]int, 0, slack)
	for i, v := range in {
		t = h.PushHeap(t, v)
		if len(t) != i+1 || !isHeap(t, maxTop) {
			c.Failf("PushHeap of %v (first %d) maxTop=%v gave %v", in, i+1, maxTop, t)
		}
	}
	if !eqInts(sortedCopy(t), sortedCopy(in)) {
		c.Failf("PushHeap of %v changed the elements: %v", in, t)
	}
	b = mk()
	if s := h.SortHeap(b); !eqInts(s, want) {
		c.Failf("SortHeap(%v) maxTop=%v = %v, want %v", in, maxTop, s, want)
	}
	b = mk()
	h.Reverse(b)
	for i := range b {
		if b[i] != in[len(in)-1-i] {
			c.Failf("Reverse(%v) = %v", in, b)
		}
	}
	got := sortedCopy(h.Buffer())
	for i := range got {
		if i >= own || got[i] != i {
			c.Failf("slice algorithms changed the heap object itself: %v", got)
		}
	}
	if h.Size() != own {
		c.Failf("slice algorithms changed the heap object itself: size %d, was %d", h.Size(), own)
	}
}

func shape(r *mon.Rand, n int) []int {
	b := make([]int, n)
	g := valueGen(r)
	for i := range b {
		b[i] = g()
	}
	switch r.Intn(6) {
	case 0:
		sort.Ints(b)
	case 1:
		sort.Sort(sort.Reverse(sort.IntSlice(b)))
	case 2: // almost sorted
		sort.Ints(b)
		if n > 1 {
			i, j := r.Intn(n), r.Intn(n)
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

func heapHistory(c *mon.Case, ops int) {
	r := c.R
	maxTop := r.Bool()
	capacity := r.Intn(20)
	h := usedHeap(r, capacity, []int{0, -1, 0}[r.Intn(3)], maxTop)
	if !h.Empty() || h.Size() != 0 || len(h.Buffer()) != 0 {
		c.Failf("an initialised heap holds %d value(s)", h.Size())
	}
	ref := &refHeap{maxTop: maxTop}
	g := valueGen(r)
	c.Logf("NewIntHeap(%d,0,%v)", capacity, maxTop)
	pushBias := 5
	hh := mon.HashInit.Add(uint64(ops))
	for k := 0; k < ops; k++ {
		if k%64 == 0 {
			pushBias = r.Range(1, 9)
		}
		if r.Intn(10) < pushBias {
			v := g()
			if c.Tracing {
				c.Logf("Push(%d)", v)
			}
			h.Push(v)
			heap.Push(ref, v)
			hh = hh.Add(uint64(v) | 1)
		} else {
			top, ok := h.Pop()
			if c.Tracing {
				c.Logf("Pop() = %d,%v", top, ok)
			}
			if ok != (ref.Len() > 0) {
				c.Failf("Pop ok=%v with %d element(s) stored", ok, ref.Len())
			}
			if ok {
				if want := heap.Pop(ref).(int); want != top {
					c.Failf("Pop = %d, want %d (maxTop=%v)", top, want, maxTop)
				}
			}
			hh = hh.Add(2)
		}
		top, ok := h.Top()
		if ok != (ref.Len() > 0) || ok && top != ref.d[0] {
			c.Failf("Top = (%d,%v), reference has %d elements", top, ok, ref.Len())
		}
		if h.Size() != ref.Len() || h.Empty() != (ref.Len() == 0) || len(h.Buffer()) != ref.Len() {
			c.Failf("Size=%d Empty=%v len(Buffer)=%d, want %d element(s)", h.Size(), h.Empty(), len(h.Buffer()), ref.Len())
		}
		if k%97 == 0 && !isHeap(h.Buffer(), maxTop) {
			c.Failf("Buffer is not a heap: %v", h.Buffer())
		}
	}
	c.Max("heap_size", ref.Len())
	if !eqInts(sortedCopy(h.Buffer()), sortedCopy(ref.d)) {
		c.Failf("stored elements differ at the end: %d vs %d", h.Size(), ref.Len())
	}
	for ref.Len() > 0 {
		top, ok := h.Pop()
		if want := heap.Pop(ref).(int); !ok || top != want {
			c.Failf("final drain: Pop = (%d,%v), want %d", top, ok, want)
		}
	}
	if _, ok := h.Pop(); ok {
		c.Failf("Pop of an empty heap reported ok")
	}
	c.Count("operations", ops)
	c.Seen(hh)
	c.Sample("history of %d ops, maxTop=%v", ops, maxTop)
}

func boundedHistory(c *mon.Case) {
	r := c.R
	maxTop := r.Bool()
	limit := r.Range(1, 6)
	if r.Chance(1, 2) {
		limit = r.Range(1, 70)
	}
	if r.Chance(1, 20) {
		limit = r.Range(1, 1200)
	}
	capacity := r.Intn(2 * limit)
	asked := limit
	if r.Chance(1, 8) { // no limit
		asked, limit = []int{0, -1, math.MinInt64}[r.Intn(3)], math.MaxInt64
	}
	h := usedHeap(r, capacity, asked, maxTop)
	c.Logf("NewIntHeap(%d,%d,%v)", capacity, asked, maxTop)
	g := valueGen(r)
	var ref []int // sorted ascending
	ops := r.Range(1, 40) + r.Size(1500)
	rej, rep := 0, 0
	hh := mon.HashInit.Add(uint64(limit))
	popBias := r.Intn(4)
	for k := 0; k < ops; k++ {
		if r.Intn(10) >= popBias {
			v := g()
			if c.Tracing {
				c.Logf("Push(%d)", v)
			}
			h.Push(v)
			i := sort.SearchInts(ref, v)
			ref = append(ref, 0)
			copy(ref[i+1:], ref[i:])
			ref[i] = v
			if len(ref) > limit {
				if maxTop { // keeps the smallest
					if ref[len(ref)-1] == v {
						rej++
					} else {
						rep++
					}
					ref = ref[:len(ref)-1]
				} else {
					if ref[0] == v {
						rej++
					} else {
						rep++
					}
					ref = append(ref[:0:0], ref[1:]...)
				}
			}
			hh = hh.Add(uint64(v))
		} else {
			top, ok := h.Pop()
			if c.Tracing {
				c.Logf("Pop() = %d,%v", top, ok)
			}
			if ok != (len(ref) > 0) {
				c.Failf("Pop ok=%v with %d element(s)", ok, len(ref))
			}
			if ok {
				var want int
				if maxTop {
					want = ref[len(ref)-1]
					ref = ref[:len(ref)-1]
				} else {
					want = ref[0]
					ref = append(ref[:0:0], ref[1:]...)
				}
				if want != top {
					c.Failf("Pop = %d, want %d", top, want)
				}
			}
		}
		if h.Size() > limit {
			c.Failf("size %d exceeds the limit %d", h.Size(), limit)
		}
		if !isHeap(h.Buffer(), maxTop) {
			c.Failf("Buffer %v is not a heap (maxTop=%v)", h.Buffer(), maxTop)
		}
		if len(ref) <= 16 || k%31 == 0 || k == ops-1 {
			if got := sortedCopy(h.Buffer()); !eqInts(got, ref) {
				c.Failf("limit=%d maxTop=%v: keeps %v, want %v", limit, maxTop, got, ref)
			}
		}
		if top, ok := h.Top(); ok != (len(ref) > 0) || ok && maxTop && top != ref[len(ref)-1] || ok && !maxTop && top != ref[0] {
			c.Failf("Top = (%d,%v), kept %v", top, ok, ref)
		}
	}
	c.Count("operations", ops)
	c.Count("pushes_rejected", rej)
	c.Count("pushes_replacing", rep)
	c.Max("limit", asked)
	if rej+rep > 0 {
		c.Seen(hh)
	}
	c.Sample("limit=%d maxTop=%v ops=%d rejected=%d replaced=%d", asked, maxTop, ops, rej, rep)
}

func init() {
	mon.Register(&mon.Prop{ID: "C01",
		Rule: "a case is an input slice or an operation history of a heap object; non-trivial: distinct by hash of inputs and operations, with at least two elements",
		Sections: []mon.Section{
			{Name: "small-exhaustive", Quick: 2 * 9, Thorough: 2 * 10, Exhaustive: true, Run: func(c *mon.Case) {
				// all slices of length idx/2 over a small alphabet
				n, maxTop := c.Idx/2, c.Idx%2 == 0
				k := []int{1, 4, 4, 4, 4, 4, 4, 3, 3, 3}[n]
				b, in := make([]int, n), make([]int, n)
				cnt := 0
				for {
					for i, v := range b {
						in[i] = v - 1 // below zero, zero and above
					}
					heapAlgos(c, in, maxTop, cnt%3)
					cnt++
					c.Seen(hashInts(mon.HashInit.Add(uint64(c.Idx)), b))
					i := 0
					for ; i < n; i++ {
						if b[i]++; b[i] < k {
							break
						}
						b[i] = 0
					}
					if i == n {
						break
					}
				}
				c.Eval(cnt - 1)
			}},
			{Name: "permutations", Quick: 2 * 8, Thorough: 2 * 9, Exhaustive: true, Run: func(c *mon.Case) {
				n, maxTop := c.Idx/2, c.Idx%2 == 0
				p := make([]int, n)
				for i := range p {
					p[i] = i
				}
				cnt := 0
				var rec func(k int)
				rec = func(k int) {
					if k == n {
						heapAlgos(c, p, maxTop, 0)
						cnt++
						return
					}
					for i := k; i < n; i++ {
						p[k], p[i] = p[i], p[k]
						rec(k + 1)
						p[k], p[i] = p[i], p[k]
					}
				}
				rec(0)
				c.Eval(cnt - 1)
				c.Count("permutations", cnt)
			}},
			{Name: "algorithms", Quick: 2500, Thorough: 60000, Run: func(c *mon.Case) {
				n := c.R.Size(700)
				if c.R.Chance(1, 200) {
					n = c.R.Intn(5000)
				}
				in := shape(c.R, n)
				heapAlgos(c, in, c.R.Bool(), c.R.Intn(5))
				c.Max("slice_len", n)
				if n >= 2 {
					c.Seen(hashInts(mon.HashInit, in))
				}
				c.Sample("slice of %d", n)
			}},
			{Name: "near-heaps", Quick: 1500, Thorough: 30000, Run: func(c *mon.Case) {
				// a heap, or one with a single value or pair out of place, of any size
				r := c.R
				n, maxTop := r.Sizes(700, 12, 20000), r.Bool()
				h := stl.NewIntHeap(0, 0, maxTop)
				b := shape(r, n)
				sort.Ints(b)
				if maxTop {
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						b[i], b[j] = b[j], b[i]
					}
				}
				if !h.CheckHeap(b) {
					c.Failf("CheckHeap of a sorted slice of %d maxTop=%v = false", n, maxTop)
				}
				bad := 0
				for k := 0; k < 24 && n > 0; k++ {
					i := r.Intn(n)
					switch r.Intn(4) {
					case 0:
						i = r.Intn(min(n, 4))
					case 1:
						i = n - 1 - r.Intn(min(n, 4))
					}
					o := b[i]
					switch r.Intn(3) {
					case 0:
						b[i] = b[r.Intn(n)]
					case 1:
						b[i]++
					case 2:
						b[i] = []int{math.MinInt64, math.MaxInt64}[r.Intn(2)]
					}
					want := isHeap(b, maxTop)
					if got := h.CheckHeap(b); got != want {
						c.Failf("CheckHeap of a heap of %d maxTop=%v with element %d changed from %d to %d = %v", n, maxTop, i, o, b[i], got)
					}
					if !want {
						bad++
					}
					if want { // pushing and popping from there
						v := b[r.Intn(n)] - 1 + r.Intn(3)
						t := h.PushHeap(append([]int(nil), b...), v)
						if len(t) != n+1 || !isHeap(t, maxTop) {
							c.Failf("PushHeap(%d) on a heap of %d did not give a heap of %d", v, n, n+1)
						}
						t, top, ok := h.PopHeap(t)
						w := b[0]
						if maxTop && v > w || !maxTop && v < w {
							w = v
						}
						if !ok || top != w || len(t) != n || !isHeap(t, maxTop) {
							c.Failf("PopHeap of a heap of %d = (%d,%v), want %d and a heap", n+1, top, ok, w)
						}
					}
					b[i] = o
				}
				c.Count("damaged_heaps_told", bad)
				c.Max("near_heap_len", n)
				if bad > 0 {
					c.Seen(hashInts(mon.HashInit, b))
				}
			}},
			{Name: "history", Quick: 1500, Thorough: 30000, Run: func(c *mon.Case) { heapHistory(c, c.R.Range(1, 20)+c.R.Size(3000)) }},
			{Name: "long-history", Quick: 6, Thorough: 60, Run: func(c *mon.Case) { heapHistory(c, 150000) }},
			{Name: "huge", Quick: 16, Thorough: 160, Run: heapHuge},
		}})
	mon.Register(&mon.Prop{ID: "C02",
		Rule: "a case is a history of pushes and pops of a bounded heap; non-trivial: it overflowed the bound at least once; distinct by hash of limit and pushed values",
		Sections: []mon.Section{
			{Name: "small-exhaustive", Quick: 12, Thorough: 12, Exhaustive: true, Run: func(c *mon.Case) {
				// every sequence of 7 pushes over 4 values, for limit 1..6 and both directions
				limit, maxTop := c.Idx/2+1, c.Idx%2 == 0
				var seq [7]int
				for code := 0; code < 1<<14; code++ {
					h := stl.NewIntHeap(0, limit, maxTop)
					for i := range seq {
						seq[i] = code >> (2 * uint(i)) & 3
						h.Push(seq[i])
						s := append([]int(nil), seq[:i+1]...)
						sort.Ints(s)
						if len(s) > limit {
							if maxTop {
								s = s[:limit]
							} else {
								s = s[len(s)-limit:]
							}
						}
						if got := sortedCopy(h.Buffer()); !eqInts(got, s) || !isHeap(h.Buffer(), maxTop) {
							c.Failf("limit=%d maxTop=%v after pushing %v: buffer %v, want the elements %v", limit, maxTop, seq[:i+1], h.Buffer(), s)
						}
					}
					c.Seen(mon.HashInit.Add(uint64(c.Idx)).Add(uint64(code)))
				}
				c.Eval(1<<14 - 1)
			}},
			{Name: "history", Quick: 6000, Thorough: 120000, Run: boundedHistory},
			{Name: "huge", Quick: 20, Thorough: 300, Run: boundedHuge},
		}})
}
