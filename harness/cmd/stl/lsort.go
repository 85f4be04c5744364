package main

import (
	"sort"
	"time"

	"github.com/vipally/gx/stl"
	"vp/mon"
)

// sortInput draws the values of a list to sort.
func sortInput(r *mon.Rand, n int) []int {
	v := make([]int, n)
	switch r.Intn(8) {
	case 0: // sorted
		for i := range v {
			v[i] = i
		}
	case 1: // reversed
		for i := range v {
			v[i] = n - i
		}
	case 2: // all equal
		for i := range v {
			v[i] = 7
		}
	case 3: // organ pipe
		for i := range v {
			v[i] = i
			if i > n/2 {
				v[i] = n - i
			}
		}
	case 4: // runs of duplicates
		for i := range v {
			v[i] = (i / 3) % 5
		}
	default:
		g := valueGen(r)
		for i := range v {
			v[i] = g()
		}
	}
	return v
}

type keyed struct {
	v, pos int
}

func sortLists(c *mon.Case, in []int) {
	n := len(in)
	want := make([]keyed, n)
	for i, v := range in {
		want[i] = keyed{v, i}
	}
	sort.SliceStable(want, func(i, j int) bool { return want[i].v < want[j].v })
	if c.Tracing && n < 200 {
		c.Logf("sorting %v", in)
	}
	{ // doubly linked
		l := stl.NewIntList()
		node := make([]*stl.IntListNode, n)
		for i, v := range in {
			node[i] = l.PushBack(v)
		}
		verify := func(what string, at func(i int) (*stl.IntListNode, int)) {
			if n == 0 {
				if !l.Empty() {
					c.Failf("list %s: the empty list is not empty", what)
				}
				return
			}
			p, first := l.Front(), l.Front()
			for i := 0; i < n; i++ {
				w, v := at(i)
				if p == nil || p != w || p.Get() != v {
					c.Failf("list %s of %d values: wrong node at position %d (value or identity)", what, n, i)
				}
				if p.Next() == nil || p.Next().Prev() != p {
					c.Failf("list %s of %d values: broken back link at position %d", what, n, i)
				}
				p = p.Next()
			}
			if p != first || l.Back() != first.Prev() {
				c.Failf("list %s of %d values: the list does not end after its elements", what, n)
			}
		}
		l.Sort()
		verify("Sort", func(i int) (*stl.IntListNode, int) { return node[want[i].pos], want[i].v })
		l.Sort()
		verify("Sort of a sorted list", func(i int) (*stl.IntListNode, int) { return node[want[i].pos], want[i].v })
		l.Reverse()
		verify("Reverse", func(i int) (*stl.IntListNode, int) { return node[want[n-1-i].pos], want[n-1-i].v })
		l.Reverse()
		verify("Reverse twice", func(i int) (*stl.IntListNode, int) { return node[want[i].pos], want[i].v })
		// sorting a reversed list of equal keys must keep the reversed order
		l.Reverse()
		l.Sort()
		w2 := make([]keyed, n)
		for i := range want {
			w2[n-1-i] = want[i]
		}
		sort.SliceStable(w2, func(i, j int) bool { return w2[i].v < w2[j].v })
		verify("Sort after Reverse", func(i int) (*stl.IntListNode, int) { return node[w2[i].pos], w2[i].v })
		// the list is still usable
		if n > 0 {
			x := l.PushFront(1)
			y := l.PushBack(2)
			if l.Front() != x || l.Back() != y || y.Next() != x || x.Prev() != y {
				c.Failf("list after Sort: push at the ends went wrong")
			}
		}
	}
	{ // singly linked
		l := stl.NewIntSList()
		node := make([]*stl.IntSListNode, n)
		for i := n - 1; i >= 0; i-- {
			node[i] = l.PushFront(in[i])
		}
		verify := func(what string, at func(i int) (*stl.IntSListNode, int)) {
			p := l.Front()
			for i := 0; i < n; i++ {
				w, v := at(i)
				if p == nil || p != w || p.Get() != v {
					c.Failf("slist %s of %d values: wrong node at position %d (value or identity)", what, n, i)
				}
				p = p.Next()
			}
			if p != nil || l.Len() != n || l.Empty() != (n == 0) {
				c.Failf("slist %s of %d values: the list does not end after its elements (Len %d)", what, n, l.Len())
			}
		}
		l.Sort()
		verify("Sort", func(i int) (*stl.IntSListNode, int) { return node[want[i].pos], want[i].v })
		l.Sort()
		verify("Sort of a sorted list", func(i int) (*stl.IntSListNode, int) { return node[want[i].pos], want[i].v })
		l.Reverse()
		verify("Reverse", func(i int) (*stl.IntSListNode, int) { return node[want[n-1-i].pos], want[n-1-i].v })
		l.Sort()
		w2 := make([]keyed, n)
		for i := range want {
			w2[n-1-i] = want[i]
		}
		sort.SliceStable(w2, func(i, j int) bool { return w2[i].v < w2[j].v })
		verify("Sort after Reverse", func(i int) (*stl.IntSListNode, int) { return node[w2[i].pos], w2[i].v })
		if n > 0 {
			if x := l.PushFront(1); l.Front() != x || l.Len() != n+1 {
				c.Failf("slist after Sort: PushFront went wrong")
			}
		}
	}
	c.Count("nodes sorted", 2*n)
	c.Max("list length", n)
}

// lsortExhaustive: every list of up to 6 values over 4 (thorough 7 over 5).
func lsortExhaustive(c *mon.Case) {
	n, k := 6, 4
	if c.Thorough() {
		n, k = 8, 4
	}
	first := c.Idx
	var in []int
	in = append(in, first)
	sortLists(c, in)
	var rec func()
	rec = func() {
		if len(in) == n {
			return
		}
		for v := 0; v < k; v++ {
			in = append(in, v)
			sortLists(c, in)
			c.Eval(1)
			c.Seen(hashInts(mon.HashInit, in))
			rec()
			in = in[:len(in)-1]
		}
	}
	rec()
	c.Sample("every list of up to %d values over %d keys that starts with %d", n, k, first)
}

func init() {
	mon.Register(&mon.Prop{ID: "C07",
		Rule: "every list of up to 6 (thorough 8) values over 4 keys, every length 0..300 and 2^k-1..2^k+1 in several orders, and random lists up to 524288 nodes; Sort and Reverse of both list types are compared by node identity with a stable reference sort; distinct = distinct value sequence",
		Sections: []mon.Section{
			{Name: "exhaustive", Quick: 4, Thorough: 4, CPU: 600, Run: lsortExhaustive},
			{Name: "lengths", Quick: 340, Thorough: 340, Run: func(c *mon.Case) {
				n := c.Idx
				if n > 300 {
					n = (1 << uint(9+(c.Idx-301)/3%5)) - 1 + (c.Idx-301)%3
				}
				for k := 0; k < 4; k++ {
					in := sortInput(c.R, n)
					sortLists(c, in)
					c.Eval(1)
					c.Seen(hashInts(mon.HashInit, in))
				}
				c.Sample("4 lists of %d values", n)
			}},
			{Name: "random", Quick: 600, Thorough: 30000, Run: func(c *mon.Case) {
				in := sortInput(c.R, c.R.Size(3000))
				sortLists(c, in)
				c.Seen(hashInts(mon.HashInit, in))
				c.Sample("list of %d values", len(in))
			}},
			{Name: "large", Quick: 12, Thorough: 300, CPU: 120, Run: func(c *mon.Case) {
				n := c.R.Range(20000, 100000)
				if c.Idx%12 == 5 { // beyond 2^19 nodes
					n = 1<<19 + c.R.Intn(1000)
				} else if c.Idx%12 == 11 {
					n = c.R.Range(1<<17, 1<<18)
				}
				// how fast a sort is, is no part of the property: one that takes
				// quadratic time gets a list that it can be done with
				for m := 8192; m < n; m *= 4 {
					in := sortInput(c.R, m)
					if mon.Used(func() { sortLists(c, in) }) > 3*time.Second {
						n = m
					}
				}
				in := sortInput(c.R, n)
				sortLists(c, in)
				c.Seen(hashInts(mon.HashInit, in))
				c.Sample("list of %d values", len(in))
			}},
		}})
}
