package main

import (
	"github.com/vipally/gx/stl"
	"vp/mon"
)

// ring is what the monitored queue and deque have in common, with the stack
// adapted to it.
type ring struct {
	name                    string
	pushB, pushF            func(int) bool
	popF, popB, front, back func() (int, bool)
	size, capa              func() int
	empty                   func() bool
	clear                   func()
	shrink                  func() bool
	reinit                  func(int)
	hasF                    bool // PushFront/PopBack exist
}

func newQueue(buf int, zero bool) *ring {
	q := &stl.IntQueue{}
	if !zero {
		q = stl.NewGOGPQueueNamePrefixQueue(buf)
	}
	return &ring{name: "queue", pushB: q.Push, popF: q.Pop, front: q.Front, back: q.Back, size: q.Size, capa: q.Cap,
		empty: q.Empty, clear: q.Clear, shrink: q.Shrink, reinit: q.Init}
}

func newDeque(buf int, zero bool) *ring {
	q := &stl.IntDeque{}
	if !zero {
		q = stl.NewGOGPDequeNamePrefixDeque(buf)
	}
	return &ring{name: "deque", pushB: q.PushBack, pushF: q.PushFront, popF: q.PopFront, popB: q.PopBack, front: q.Front,
		back: q.Back, size: q.Size, capa: q.Cap, empty: q.Empty, clear: q.Clear, shrink: q.Shrink, reinit: q.Init, hasF: true}
}

// seqMon is a ring in lock-step with the reference sequence.
type seqMon struct {
	c                 *mon.Case
	r                 *ring
	ref               []int
	next              int
	grew, shrunk, ops int
	wide              bool // values over the whole range
}

func (m *seqMon) check(what string) {
	r, n := m.r, len(m.ref)
	if r.size() != n || r.empty() != (n == 0) {
		m.c.Failf("%s after %s: Size=%d Empty=%v, want %d element(s)", r.name, what, r.size(), r.empty(), n)
	}
	if r.capa() < n {
		m.c.Failf("%s after %s: Cap=%d below Size=%d", r.name, what, r.capa(), n)
	}
	f, fok := r.front()
	b, bok := r.back()
	if fok != (n > 0) || bok != (n > 0) {
		m.c.Failf("%s after %s: Front ok=%v Back ok=%v with %d element(s)", r.name, what, fok, bok, n)
	}
	if n > 0 && (f != m.ref[0] || b != m.ref[n-1]) {
		m.c.Failf("%s after %s: Front=%d Back=%d, want %d and %d", r.name, what, f, b, m.ref[0], m.ref[n-1])
	}
}

const (
	opPushB = iota
	opPopF
	opShrink
	opClear
	opPushF
	opPopB
	opInit
)

func (m *seqMon) do(op int) {
	m.ops++
	r := m.r
	tr := m.c.Tracing
	switch op {
	case opPushB, opPushF:
		m.next++
		v, c0 := m.next, r.capa()
		if m.wide {
			v = int(mon.Mix(uint64(v)))
		}
		var ok bool
		if op == opPushB {
			ok = r.pushB(v)
			m.ref = append(m.ref, v)
			if tr {
				m.c.Logf("push back %d", v)
			}
		} else {
			ok = r.pushF(v)
			m.ref = append(m.ref, 0)
			copy(m.ref[1:], m.ref)
			m.ref[0] = v
			if tr {
				m.c.Logf("push front %d", v)
			}
		}
		if !ok {
			m.c.Failf("%s push reported failure", r.name)
		}
		if r.capa() > c0 && c0 > 0 {
			m.grew++
		}
		m.check("push")
	case opPopF, opPopB:
		var v int
		var ok bool
		if op == opPopF {
			v, ok = r.popF()
		} else {
			v, ok = r.popB()
		}
		if tr {
			m.c.Logf("pop(%d) = %d,%v", op, v, ok)
		}
		if ok != (len(m.ref) > 0) {
			m.c.Failf("%s pop ok=%v with %d element(s)", r.name, ok, len(m.ref))
		}
		if ok {
			var want int
			if op == opPopF {
				want = m.ref[0]
				m.ref = m.ref[1:]
			} else {
				want = m.ref[len(m.ref)-1]
				m.ref = m.ref[:len(m.ref)-1]
			}
			if v != want {
				m.c.Failf("%s pop = %d, want %d", r.name, v, want)
			}
		}
		m.check("pop")
	case opShrink:
		c0 := r.capa()
		ok := r.shrink()
		if tr {
			m.c.Logf("shrink = %v (cap %d -> %d)", ok, c0, r.capa())
		}
		if ok != (r.capa() < c0) || r.capa() > c0 {
			m.c.Failf("%s Shrink reported %v, capacity went %d -> %d", r.name, ok, c0, r.capa())
		}
		if ok {
			m.shrunk++
		}
		m.check("Shrink")
	case opClear:
		r.clear()
		m.ref = m.ref[:0:0]
		if tr {
			m.c.Logf("clear")
		}
		m.check("Clear")
	case opInit:
		k := m.next % 5
		r.reinit(k)
		m.ref = m.ref[:0:0]
		if tr {
			m.c.Logf("init %d", k)
		}
		m.check("Init")
	}
}

// drain takes everything out, front to back, comparing.
func (m *seqMon) drain() {
	for len(m.ref) > 0 {
		m.do(opPopF)
	}
	m.do(opPopF) // one more, on the empty container
}

// ringHistory is a random history with phases of growing, draining and steady use.
func ringHistory(c *mon.Case, mk func(int, bool) *ring, ops int) {
	r := c.R
	buf := []int{-1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33}[r.Intn(14)]
	zero := r.Chance(1, 8)
	m := &seqMon{c: c, r: mk(buf, zero), wide: r.Bool()}
	c.Logf("%s buf=%d zero=%v", m.r.name, buf, zero)
	m.check("New")
	h := mon.HashInit.Add(uint64(buf))
	pb, fb := 5, 5
	rare := r.Chance(2, 3) // rare clears
	wraps := 0
	phase := []int{48, 48, 1500, 9000}[r.Intn(4)]
	for k := 0; k < ops; k++ {
		if k%phase == 0 {
			pb, fb = r.Range(1, 9), r.Range(0, 10)
		}
		x := r.Intn(200)
		if phase > 48 && x < 8 && !r.Chance(1, phase/50) {
			x = 100
		}
		var op int
		switch {
		case x == 0 && rare:
			op = opClear
		case x == 1 && rare:
			op = opInit
		case x < 8:
			op = opShrink
		case r.Intn(10) < pb:
			op = opPushB
			if m.r.hasF && r.Intn(10) < fb {
				op = opPushF
			}
		default:
			op = opPopF
			if m.r.hasF && r.Intn(10) < fb {
				op = opPopB
			}
		}
		m.do(op)
		h = h.Add(uint64(op))
		c.Max("size", len(m.ref))
	}
	m.drain()
	_ = wraps
	c.Count("operations", m.ops)
	c.Count("buffer_growths", m.grew)
	c.Count("buffer_shrinks", m.shrunk)
	if m.grew+m.shrunk > 0 {
		c.Seen(h)
	}
	c.Sample("%s buf=%d: %d ops, %d growths, %d shrinks", m.r.name, buf, m.ops, m.grew, m.shrunk)
}

// ringShapes builds every (capacity, head offset, size) state up to a bound and
// grows or shrinks the buffer from it.
func ringShapes(c *mon.Case, mk func(int, bool) *ring) {
	capa := c.Idx + 1
	n := 0
	for off := 0; off < capa; off++ {
		for size := 0; size < capa; size++ {
			for mode := 0; mode < 4; mode++ {
				if mode >= 2 && !mk(1, false).hasF {
					continue
				}
				m := &seqMon{c: c, r: mk(capa, false)}
				if c.Tracing {
					m.c.Logf("--- state cap=%d offset=%d size=%d mode=%d", capa, off, size, mode)
				}
				for i := 0; i < off; i++ { // move the head to off
					m.do(opPushB)
					m.do(opPopF)
				}
				push := opPushB
				if mode >= 2 {
					push = opPushF
				}
				for i := 0; i < size; i++ {
					m.do(push)
				}
				if mode%2 == 0 {
					m.do(opShrink)
				}
				extra := 1
				if mode%2 == 1 {
					extra = capa - size + 2 // grow at least once
				}
				for i := 0; i < extra; i++ {
					m.do(push)
				}
				if m.r.hasF && (off+size)%2 == 0 {
					for len(m.ref) > 0 {
						m.do(opPopB)
					}
				}
				m.drain()
				c.Count("buffer_growths", m.grew)
				c.Count("buffer_shrinks", m.shrunk)
				c.Seen(mon.HashInit.Add(uint64(capa)).Add(uint64(off)).Add(uint64(size)).Add(uint64(mode)))
				n++
			}
		}
	}
	c.Eval(n - 1)
	c.Sample("capacity %d: %d (offset,size,mode) states", capa, n)
}

// ringSequences runs every operation sequence of a length from a small buffer.
func ringSequences(c *mon.Case, mk func(int, bool) *ring, alphabet []int, length int) {
	capa := c.Idx + 1
	total := 1
	for i := 0; i < length; i++ {
		total *= len(alphabet)
	}
	for code := 0; code < total; code++ {
		m := &seqMon{c: c, r: mk(capa, false)}
		if c.Tracing {
			c.Logf("--- sequence %d", code)
		}
		x := code
		for i := 0; i < length; i++ {
			m.do(alphabet[x%len(alphabet)])
			x /= len(alphabet)
		}
		m.drain()
	}
	c.Eval(total - 1)
	c.Count("sequences", total)
	for i := 0; i < total; i += 17 {
		c.Seen(mon.HashInit.Add(uint64(capa)).Add(uint64(i)).Str("seq"))
	}
}

func stackHistory(c *mon.Case, ops int) {
	r := c.R
	buf := []int{-1, 0, 1, 2, 8, 33, -7, r.Size(3000)}[r.Intn(8)]
	s := &stl.IntStack{}
	zero := r.Chance(1, 6)
	if !zero {
		s = stl.NewGOGPStackNamePrefixStack(buf)
	}
	c.Logf("stack buf=%d zero=%v", buf, zero)
	var ref []int
	g := valueGen(r)
	h := mon.HashInit
	pb := 5
	phase := []int{40, 40, 1500, 9000}[r.Intn(4)]
	rare := 300
	if phase > 40 {
		rare = 20000
	}
	check := func(what string) {
		n := len(ref)
		top, ok := s.Top()
		if s.Size() != n || s.Empty() != (n == 0) || ok != (n > 0) || ok && top != ref[n-1] {
			c.Failf("stack after %s: Size=%d Empty=%v Top=(%d,%v), want %d element(s) %v", what, s.Size(), s.Empty(), top, ok, n, tail(ref))
		}
	}
	check("New")
	for k := 0; k < ops; k++ {
		if k%phase == 0 {
			pb = r.Range(1, 9)
		}
		switch x := r.Intn(rare); {
		case x == 0:
			s.Clear()
			ref = nil
			c.Logf("clear")
		case x == 1:
			s.Init(r.Range(-1, 9) + r.Sizes(0, 6, 3000))
			ref = nil
			c.Logf("init")
		case r.Intn(10) < pb:
			v := g()
			if c.Tracing {
				c.Logf("push %d", v)
			}
			if !s.Push(v) {
				c.Failf("stack Push reported failure")
			}
			ref = append(ref, v)
			h = h.Add(uint64(v))
		default:
			v, ok := s.Pop()
			if c.Tracing {
				c.Logf("pop = %d,%v", v, ok)
			}
			if ok != (len(ref) > 0) || ok && v != ref[len(ref)-1] {
				c.Failf("stack Pop = (%d,%v), want top of %v", v, ok, tail(ref))
			}
			if ok {
				ref = ref[:len(ref)-1]
			}
			h = h.Add(1)
		}
		check("op")
		c.Max("size", len(ref))
	}
	for len(ref) > 0 {
		v, ok := s.Pop()
		if !ok || v != ref[len(ref)-1] {
			c.Failf("stack drain: Pop = (%d,%v), want %d", v, ok, ref[len(ref)-1])
		}
		ref = ref[:len(ref)-1]
	}
	if _, ok := s.Pop(); ok {
		c.Failf("Pop of an empty stack reported ok")
	}
	c.Count("operations", ops)
	if ops >= 2 {
		c.Seen(h)
	}
	c.Sample("stack buf=%d: %d ops", buf, ops)
}

func tail(b []int) []int {
	if len(b) > 8 {
		return b[len(b)-8:]
	}
	return b
}

// stackSequences: every push/pop/clear sequence of length 9.
func stackSequences(c *mon.Case) {
	const L = 10
	total := 1
	for i := 0; i < L; i++ {
		total *= 3
	}
	for code := 0; code < total; code++ {
		s := stl.NewGOGPStackNamePrefixStack(c.Idx - 1)
		var ref []int
		x := code
		for i := 0; i < L; i++ {
			switch x % 3 {
			case 0:
				s.Push(i)
				ref = append(ref, i)
			case 1:
				v, ok := s.Pop()
				if ok != (len(ref) > 0) || ok && v != ref[len(ref)-1] {
					c.Failf("sequence %d step %d: Pop = (%d,%v), reference %v", code, i, v, ok, ref)
				}
				if ok {
					ref = ref[:len(ref)-1]
				}
			case 2:
				if i%4 == 3 {
					s.Clear()
					ref = nil
				} else {
					v, ok := s.Top()
					if ok != (len(ref) > 0) || ok && v != ref[len(ref)-1] {
						c.Failf("sequence %d step %d: Top = (%d,%v), reference %v", code, i, v, ok, ref)
					}
				}
			}
			if s.Size() != len(ref) {
				c.Failf("sequence %d step %d: Size=%d, want %d", code, i, s.Size(), len(ref))
			}
			x /= 3
		}
	}
	c.Eval(total - 1)
	c.Seen(mon.HashInit.Add(uint64(c.Idx)))
}

func init() {
	mon.Register(&mon.Prop{ID: "C03",
		Rule: "a case is a history of stack operations in lock-step with a slice; non-trivial: at least two operations; distinct by hash of operations and values",
		Sections: []mon.Section{
			{Name: "sequences", Quick: 4, Thorough: 6, Exhaustive: true, Run: stackSequences},
			{Name: "history", Quick: 4000, Thorough: 80000, Run: func(c *mon.Case) { stackHistory(c, c.R.Range(1, 30)+c.R.Size(2500)) }},
			{Name: "long-history", Quick: 12, Thorough: 200, Run: func(c *mon.Case) { stackHistory(c, 100000) }},
			{Name: "huge", Quick: 24, Thorough: 300, Run: stackHuge},
		}})
	for _, k := range []struct {
		id string
		mk func(int, bool) *ring
		al []int
		l  int
	}{{"C04", newQueue, []int{opPushB, opPopF, opPushB, opShrink}, 9},
		{"C05", newDeque, []int{opPushB, opPopF, opPushF, opPopB}, 9}} {
		k := k
		mon.Register(&mon.Prop{ID: k.id,
			Rule: "a case is a history of operations (or a constructed buffer state) in lock-step with a reference sequence; non-trivial: the internal buffer grew or shrank at least once; distinct by hash of the operations",
			Sections: []mon.Section{
				{Name: "sequences", Quick: 5, Thorough: 9, Exhaustive: true, Run: func(c *mon.Case) { ringSequences(c, k.mk, k.al, k.l) }},
				{Name: "buffer-states", Quick: 36, Thorough: 64, Exhaustive: true, CPU: 60, Run: func(c *mon.Case) { ringShapes(c, k.mk) }},
				{Name: "history", Quick: 4000, Thorough: 60000, Run: func(c *mon.Case) { ringHistory(c, k.mk, c.R.Range(1, 60)+c.R.Size(2500)) }},
				{Name: "long-history", Quick: 6, Thorough: 60, Run: func(c *mon.Case) { ringHistory(c, k.mk, 60000) }},
				{Name: "huge", Quick: 40, Thorough: 400, Run: func(c *mon.Case) { ringHuge(c, k.mk) }},
			}})
	}
}
