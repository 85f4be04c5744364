package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	gxsync "github.com/vipally/gx/sync"
	"vp/mon"
)

func main() { mon.Main() }

// The locks give up with a "maybe dead lock" panic after a very long spin. On a
// loaded machine a holder may be descheduled that long, which decides nothing;
// giving up sooner than this is a failure to wait: the 2^24 turns take
// a second under the race detector.
const minSpin = 120 * time.Millisecond

type gaveUp struct{ what string }

// acquire calls lock; a give-up panic after a long spin becomes gaveUp.
func acquire(c *mon.Case, what string, lock func()) {
	t0 := time.Now()
	p := mon.Panics(lock)
	if p == nil {
		return
	}
	el := time.Since(t0)
	if !strings.Contains(fmt.Sprint(p), "dead lock") {
		c.Failf("%s panicked: %v", what, p)
	}
	if el < minSpin {
		c.Failf("%s gave up with %q after %v only, while the lock was in use", what, p, el)
	}
	panic(gaveUp{what})
}

// attempt runs one concurrent round; give-ups are retried a few times with
// fewer threads, and only a lock that is given up every time is a violation.
func attempt(c *mon.Case, round func(try int, stop *int32)) {
	for try := 0; try < 4; try++ {
		var stop int32
		var given atomic.Value
		p := mon.Panics(func() {
			defer func() {
				if e := recover(); e != nil {
					if g, ok := e.(gaveUp); ok {
						given.Store(g.what)
						return
					}
					panic(e)
				}
			}()
			round(try, &stop)
		})
		if p != nil {
			c.Failf("unexpected panic: %v", p)
		}
		if given.Load() == nil {
			return
		}
		c.Inconclusive("gave up a contended lock")
		time.Sleep(time.Duration(try+1) * 100 * time.Millisecond)
	}
	c.Failf("the lock was given up as dead locked in 4 rounds out of 4, though every holder released it")
}

// workers runs n goroutines and re-raises the first panic of any.
func workers(n int, stop *int32, f func(w int)) {
	done := make(chan interface{}, n)
	for w := 0; w < n; w++ {
		go func(w int) {
			defer func() {
				e := recover()
				if e != nil {
					atomic.StoreInt32(stop, 1)
				}
				done <- e
			}()
			f(w)
		}(w)
	}
	var first interface{}
	for w := 0; w < n; w++ {
		if e := <-done; e != nil {
			if _, g := e.(gaveUp); first == nil || !g {
				first = e
			}
		}
	}
	if first != nil {
		panic(first)
	}
}

var sink uint64

// pause is an injected delay inside or outside a critical section. Giving up
// the processor inside costs the spinning waiters a time slice: it is rare.
func pause(h uint64) {
	switch h % 8 {
	case 0:
		if h>>40%64 == 0 {
			runtime.Gosched()
		}
	case 1, 2:
		x := h
		for i := uint64(0); i < h>>8%200; i++ {
			x = mon.Mix(x)
		}
		atomic.StoreUint64(&sink, x)
	}
}

//----------------------------------------------------------------------------
// C11 SpinLock

func spinSequential(c *mon.Case) {
	r := c.R
	var l gxsync.SpinLock
	var lk gxsync.Locker = &l // usable as a Locker
	held := false
	ops := r.Range(5, 60)
	h := mon.HashInit
	for k := 0; k < ops; k++ {
		if !held && r.Chance(2, 3) {
			acquire(c, "SpinLock.Lock of a free lock", lk.Lock)
			held = true
			h = h.Add(1)
		} else if held {
			if p := mon.Panics(l.Unlock); p != nil {
				c.Failf("Unlock of the held lock panicked: %v", p)
			}
			held = false
			h = h.Add(2)
		} else {
			c.MustPanic("Unlock of a free SpinLock", l.Unlock)
			h = h.Add(3)
		}
	}
	c.Eval(ops)
	c.Seen(h)
	c.Sample("%d operations in one goroutine", ops)
}

// spinHandoff: a second goroutine must wait exactly as long as the lock is held.
func spinHandoff(c *mon.Case) {
	hold := time.Duration(c.R.Intn(2000)) * time.Microsecond
	n := c.R.Range(1, 3)
	if c.Idx%25 == 0 { // much longer, and still nothing to give up for
		hold = time.Duration(c.R.Range(70, 110)) * time.Millisecond
	}
	attempt(c, func(try int, stop *int32) {
		var l gxsync.SpinLock
		var inside int32
		l.Lock()
		atomic.StoreInt32(&inside, 1)
		started := make(chan bool, n)
		go func() {
			for i := 0; i < n; i++ {
				<-started
			}
			time.Sleep(hold)
			atomic.StoreInt32(&inside, 0)
			l.Unlock()
		}()
		workers(n, stop, func(w int) {
			started <- true
			acquire(c, "SpinLock.Lock", l.Lock)
			if atomic.AddInt32(&inside, 1) != 1 {
				c.Failf("a second goroutine got the lock while it was held (for %v)", hold)
			}
			pause(uint64(w) * 77)
			atomic.AddInt32(&inside, -1)
			l.Unlock()
		})
	})
	c.Count("waits observed", n)
	c.Seen(mon.HashInit.Add(uint64(hold)).Add(uint64(n)))
	c.Sample("%d waiter(s) while the lock is held %v", n, hold)
}

// spinStress: goroutines update plain data under the lock. atomics selects
// whether atomic monitors watch the critical section; without them only the
// lock itself orders the accesses the race detector sees.
func spinStress(c *mon.Case, atomics bool) {
	n, iters := c.R.Range(2, 3), c.R.Range(100, 1000)
	if c.R.Chance(1, 8) { // more spinners than processors
		n, iters = c.R.Range(4, 6), c.R.Range(5, 20)
	}
	seed := c.R.U64()
	attempt(c, func(try int, stop *int32) {
		if try > 0 {
			n = 2
		}
		var l gxsync.SpinLock
		var inside int32
		var count, shadow int
		log := make([]int32, 0, n*iters)
		workers(n, stop, func(w int) {
			h := mon.Mix(seed + uint64(w))
			for k := 0; k < iters && atomic.LoadInt32(stop) == 0; k++ {
				h = mon.Mix(h)
				acquire(c, "SpinLock.Lock", l.Lock)
				if atomics && atomic.AddInt32(&inside, 1) != 1 {
					c.Failf("two goroutines hold the lock")
				}
				x := count
				count = x + 1
				pause(h)
				shadow++
				if count != x+1 || shadow != count {
					c.Failf("data guarded by the lock changed under its holder: %d, %d after %d", count, shadow, x)
				}
				log = append(log, int32(w))
				if atomics {
					atomic.AddInt32(&inside, -1)
				}
				l.Unlock()
				pause(h >> 20)
			}
		})
		if atomic.LoadInt32(stop) == 0 {
			if count != n*iters || len(log) != n*iters {
				c.Failf("%d of %d guarded increments survived", count, n*iters)
			}
			hs := mon.HashInit
			sw := 0
			for i, w := range log {
				hs = hs.Add(uint64(w))
				if i > 0 && log[i-1] != w {
					sw++
				}
			}
			c.Seen(hs)
			c.Count("acquisitions", len(log))
			c.Count("hand-overs between goroutines", sw)
			c.Max("hand-overs in one round", sw)
		}
	})
	c.Eval(n * iters)
	c.Sample("%d goroutines, %d acquisitions each", n, iters)
}

// giveUp: a waiter that has given up leaves the lock to its holder: nobody else
// gets in before it is released, and it works on afterwards.
func giveUp(c *mon.Case, name string, hold, release func(), others map[string][2]func()) {
	hold()
	var inside int32 = 1
	for what, f := range others {
		done := make(chan interface{}, 1)
		go func() { done <- mon.Panics(f[0]) }()
		select {
		case p := <-done:
			if p == nil {
				c.Failf("%s got into a %s that is held", what, name)
			}
			c.Count("waiters that gave up", 1)
		case <-time.After(4 * time.Second): // it need not give up
			atomic.StoreInt32(&inside, 0)
			release()
			if p := <-done; p != nil {
				return // at the last moment
			}
			f[1]()
			c.Inconclusive("nobody gave up")
			return
		}
	}
	type res struct {
		what string
		in   int32
		p    interface{}
	}
	got := make(chan res, len(others))
	for what, f := range others {
		go func(what string, f [2]func()) {
			p := mon.Panics(f[0])
			got <- res{what, atomic.LoadInt32(&inside), p}
			if p == nil {
				f[1]()
			}
		}(what, f)
	}
	time.Sleep(3 * time.Millisecond)
	atomic.StoreInt32(&inside, 0)
	if p := mon.Panics(release); p != nil {
		c.Failf("release of the held %s panicked after a waiter gave up: %v", name, p)
	}
	for range others {
		g := <-got
		if g.p == nil && g.in != 0 {
			c.Failf("%s got into a %s that is held, after another waiter had given up", g.what, name)
		}
		if g.p != nil && !strings.Contains(fmt.Sprint(g.p), "dead lock") {
			c.Failf("%s panicked: %v", g.what, g.p)
		}
	}
	c.Seen(mon.HashInit.Str(name))
	c.Sample("%s: waiters give up, the holder stays alone inside", name)
}

func spinGiveUp(c *mon.Case) {
	var l gxsync.SpinLock
	giveUp(c, "SpinLock", l.Lock, l.Unlock, map[string][2]func(){"Lock": {l.Lock, l.Unlock}})
	acquire(c, "SpinLock.Lock of a free lock", l.Lock)
	l.Unlock()
	c.MustPanic("Unlock of a free SpinLock", l.Unlock)
}

//----------------------------------------------------------------------------
// C12 RWSpinLock

func rwSequential(c *mon.Case) {
	r := c.R
	var l gxsync.RWSpinLock
	readers, writer := 0, false
	ops := r.Range(5, 60)
	h := mon.HashInit
	if r.Chance(1, 50) { // many readers at once
		for n := []int{130, 300, 33000, 70000}[r.Intn(4)]; readers < n; readers++ {
			if p := mon.Panics(l.RLock); p != nil {
				c.Failf("RLock beside %d reader(s) panicked: %v", readers, p)
			}
		}
		for n := r.Intn(3); readers > n; readers-- {
			if p := mon.Panics(l.RUnlock); p != nil {
				c.Failf("RUnlock with %d reader(s) panicked: %v", readers, p)
			}
		}
		c.Count("crowds of readers", 1)
	}
	for k := 0; k < ops; k++ {
		switch {
		case writer:
			if p := mon.Panics(l.Unlock); p != nil {
				c.Failf("Unlock of the write-locked lock panicked: %v", p)
			}
			writer = false
			h = h.Add(1)
		case readers > 0 && r.Bool():
			if p := mon.Panics(l.RUnlock); p != nil {
				c.Failf("RUnlock with %d reader(s) panicked: %v", readers, p)
			}
			readers--
			h = h.Add(2)
		case readers == 0 && r.Bool():
			acquire(c, "Lock of a free lock", l.Lock)
			writer = true
			h = h.Add(3)
		default:
			// nobody writes: a reader never has to wait
			if p := mon.Panics(l.RLock); p != nil {
				c.Failf("RLock beside %d reader(s) panicked: %v", readers, p)
			}
			readers++
			h = h.Add(4)
		}
	}
	c.Max("readers at once", readers)
	if r.Bool() {
		var f gxsync.RWSpinLock
		if r.Bool() {
			f.RLock()
			f.RUnlock()
			f.Lock()
			f.Unlock()
		}
		switch r.Intn(4) {
		case 0:
			c.MustPanic("Unlock of a free RWSpinLock", f.Unlock)
		case 1:
			c.MustPanic("RUnlock of a free RWSpinLock", f.RUnlock)
		case 2:
			f.Lock()
			c.MustPanic("RUnlock of a RWSpinLock that a writer holds", f.RUnlock)
		default:
			for k := r.Range(1, 4); k > 0; k-- {
				f.RLock()
			}
			c.MustPanic("Unlock of a RWSpinLock that readers hold", f.Unlock)
		}
	}
	c.Eval(ops)
	c.Seen(h)
	c.Sample("%d operations in one goroutine", ops)
}

// rwReaders: n readers are inside together, and a writer comes in only after all left.
func rwReaders(c *mon.Case) {
	n := c.R.Range(2, 8)
	if c.R.Intn(12) == 0 {
		n = c.R.Range(30, 300)
	}
	var l gxsync.RWSpinLock
	all := make(chan bool)
	in := make(chan bool, n)
	var inside int32
	for i := 0; i < n; i++ {
		c.Go(func() {
			if p := mon.Panics(l.RLock); p != nil {
				c.Failf("RLock beside other readers only panicked: %v", p)
			}
			atomic.AddInt32(&inside, 1)
			in <- true
			<-all
			atomic.AddInt32(&inside, -1)
			l.RUnlock()
		})
	}
	ok := make(chan bool)
	go func() {
		for i := 0; i < n; i++ {
			<-in
		}
		close(ok)
	}()
	<-ok // every reader is inside at once
	attemptW := make(chan interface{}, 1)
	entered := make(chan bool)
	go func() {
		defer func() { attemptW <- recover() }()
		close(entered)
		acquire(c, "Lock", l.Lock)
		if k := atomic.LoadInt32(&inside); k != 0 {
			c.Failf("the writer is in with %d reader(s)", k)
		}
		l.Unlock()
	}()
	<-entered
	pause(c.R.U64())
	time.Sleep(time.Duration(c.R.Intn(300)) * time.Microsecond)
	close(all)
	c.Wait()
	if e := <-attemptW; e != nil {
		if _, g := e.(gaveUp); !g {
			panic(e)
		}
		c.Inconclusive("gave up a contended lock")
	}
	c.Count("readers inside together", n)
	c.Seen(mon.HashInit.Add(uint64(n)).Add(uint64(c.Idx)))
	c.Sample("%d readers inside together, then a writer", n)
}

// rwWriterHolds: neither a reader nor a writer gets in while a writer is inside.
func rwWriterHolds(c *mon.Case) {
	hold := time.Duration(c.R.Intn(1500)) * time.Microsecond
	nr, nw := c.R.Range(1, 2), c.R.Range(0, 1)
	if c.Idx%25 == 0 { // much longer, and still nothing to give up for
		hold = time.Duration(c.R.Range(70, 110)) * time.Millisecond
	}
	attempt(c, func(try int, stop *int32) {
		var l gxsync.RWSpinLock
		var w int32 = 1
		l.Lock()
		started := make(chan bool, nr+nw)
		go func() {
			for i := 0; i < nr+nw; i++ {
				<-started
			}
			time.Sleep(hold)
			atomic.StoreInt32(&w, 0)
			l.Unlock()
		}()
		workers(nr+nw, stop, func(k int) {
			started <- true
			if k < nr {
				acquire(c, "RLock", l.RLock)
				if atomic.LoadInt32(&w) != 0 {
					c.Failf("a reader is in with a writer")
				}
				l.RUnlock()
			} else {
				acquire(c, "Lock", l.Lock)
				if !atomic.CompareAndSwapInt32(&w, 0, 1) {
					c.Failf("two writers are in")
				}
				atomic.StoreInt32(&w, 0)
				l.Unlock()
			}
		})
	})
	c.Count("waits observed", nr+nw)
	c.Seen(mon.HashInit.Add(uint64(hold)).Add(uint64(nr*10 + nw)))
	c.Sample("%d reader(s) and %d writer(s) wait for a writer inside for %v", nr, nw, hold)
}

func rwStress(c *mon.Case, atomics bool) {
	nr, nw, iters := c.R.Range(1, 2), 1, c.R.Range(100, 1000)
	if nr == 1 && c.R.Bool() {
		nw = 2
	}
	if c.R.Chance(1, 8) { // more spinners than processors
		nr, nw, iters = c.R.Range(2, 4), c.R.Range(1, 3), c.R.Range(5, 20)
	}
	seed := c.R.U64()
	attempt(c, func(try int, stop *int32) {
		if try > 0 {
			nr, nw = 1, 1
		}
		var l gxsync.RWSpinLock
		var readers, writers int32
		var a, b int
		var log []int32
		var maxR int32
		reads := make([]int, nr)
		workers(nr+nw, stop, func(w int) {
			h := mon.Mix(seed + uint64(w))
			for k := 0; k < iters && atomic.LoadInt32(stop) == 0; k++ {
				h = mon.Mix(h)
				if w < nr {
					acquire(c, "RLock", l.RLock)
					if atomics {
						m := atomic.AddInt32(&readers, 1)
						for o := atomic.LoadInt32(&maxR); m > o && !atomic.CompareAndSwapInt32(&maxR, o, m); o = atomic.LoadInt32(&maxR) {
						}
						if atomic.LoadInt32(&writers) != 0 {
							c.Failf("a reader is in with a writer")
						}
					}
					x := a
					pause(h)
					if y := b; x != y || a != x {
						c.Failf("a reader saw a write in progress: %d and %d", x, y)
					}
					if x < reads[w] {
						c.Failf("a reader saw the data go back from %d to %d", reads[w], x)
					}
					reads[w] = x
					if atomics {
						if atomic.LoadInt32(&writers) != 0 {
							c.Failf("a writer came in with a reader inside")
						}
						atomic.AddInt32(&readers, -1)
					}
					l.RUnlock()
				} else {
					acquire(c, "Lock", l.Lock)
					if atomics {
						if atomic.AddInt32(&writers, 1) != 1 || atomic.LoadInt32(&readers) != 0 {
							c.Failf("a writer is in with another writer or a reader")
						}
					}
					a++
					pause(h)
					b++
					if a != b {
						c.Failf("data written under the lock changed: %d and %d", a, b)
					}
					log = append(log, int32(w))
					if atomics {
						if atomic.AddInt32(&writers, -1) != 0 || atomic.LoadInt32(&readers) != 0 {
							c.Failf("somebody came in with a writer inside")
						}
					}
					l.Unlock()
				}
				pause(h >> 20)
			}
		})
		if atomic.LoadInt32(stop) == 0 {
			if a != nw*iters || b != a {
				c.Failf("%d of %d guarded increments survived", a, nw*iters)
			}
			// the lock is free for both kinds again
			acquire(c, "Lock", l.Lock)
			l.Unlock()
			acquire(c, "RLock", l.RLock)
			l.RUnlock()
			hs := mon.HashInit
			sw := 0
			for i, w := range log {
				hs = hs.Add(uint64(w))
				if i > 0 && log[i-1] != w {
					sw++
				}
			}
			for _, x := range reads {
				hs = hs.Add(uint64(x))
			}
			c.Seen(hs)
			c.Count("write acquisitions", nw*iters)
			c.Count("read acquisitions", nr*iters)
			c.Count("hand-overs between writers", sw)
			c.Max("readers inside at once", int(maxR))
		}
	})
	c.Eval((nr + nw) * iters)
	c.Sample("%d readers and %d writers, %d acquisitions each", nr, nw, iters)
}

func rwGiveUp(c *mon.Case) {
	var l gxsync.RWSpinLock
	giveUp(c, "RWSpinLock", l.Lock, l.Unlock, map[string][2]func(){"Lock": {l.Lock, l.Unlock}, "RLock": {l.RLock, l.RUnlock}})
	acquire(c, "RLock", l.RLock)
	l.RUnlock()
	acquire(c, "Lock", l.Lock)
	l.Unlock()
}

// rwOvertake: readers that come and go and always overlap do not keep a writer
// out: those who arrive after it wait for it. How late the writer's call takes
// effect is up to the scheduler, so only being passed by many readers in most
// of the trials is a violation.
func rwOvertake(c *mon.Case) {
	const limit, trials = 40, 40
	best, good := int64(1<<60), 0
	for t := 0; t < trials && good < trials/5; t++ {
		var l gxsync.RWSpinLock
		var entries, stop, calling int64
		stay := c.Idx%3 + 1 // readers that stay inside
		for k := 0; k < stay; k++ {
			l.RLock()
		}
		for k := c.R.Range(1, 2); k > 0; k-- { // readers that come and go
			c.Go(func() {
				for atomic.LoadInt64(&stop) == 0 {
					if mon.Panics(l.RLock) != nil { // behind a writer that is stuck
						return
					}
					atomic.AddInt64(&entries, 1)
					l.RUnlock()
				}
			})
		}
		for atomic.LoadInt64(&entries) < 20 {
			runtime.Gosched()
		}
		var passed int64
		res := make(chan bool, 1)
		c.Go(func() {
			e0 := atomic.LoadInt64(&entries)
			atomic.StoreInt64(&calling, 1)
			p := mon.Panics(l.Lock)
			passed = atomic.LoadInt64(&entries) - e0
			if p == nil {
				l.Unlock()
			}
			res <- p == nil
		})
		for atomic.LoadInt64(&calling) == 0 {
			runtime.Gosched()
		}
		e1 := atomic.LoadInt64(&entries)
		for t0 := time.Now(); time.Since(t0) < 2*time.Millisecond && atomic.LoadInt64(&entries)-e1 < 100*limit; {
			runtime.Gosched()
		}
		for k := 0; k < stay; k++ {
			l.RUnlock()
		}
		in := <-res
		atomic.StoreInt64(&stop, 1)
		c.Wait()
		if in && passed < best {
			best = passed
		}
		if in && passed <= limit {
			good++
		}
		c.Count("writers among readers that come and go", 1)
	}
	if good < trials/5 {
		c.Failf("in %d of %d trials the writer was passed by more than %d readers that arrived after it, or never got in", trials-good, trials, limit)
	}
	c.Max("fewest readers that passed a writer", int(best))
	c.Seen(mon.HashInit.Add(uint64(c.Idx)))
	c.Sample("a writer among readers that come and go: passed by %d", best)
}

func init() {
	mon.Register(&mon.Prop{ID: "C11",
		Rule: "sequential histories, hand-overs with a holder that keeps the lock 0..2 ms, and stress rounds of 2..6 goroutines (mostly up to one per processor) with injected delays, under the race detector; half the rounds run without atomic monitors so that only the lock orders the data; distinct = distinct acquisition order (stress) or history",
		Sections: []mon.Section{
			{Name: "sequential", Quick: 1000, Thorough: 20000, Run: spinSequential},
			{Name: "handoff", Quick: 200, Thorough: 4000, CPU: 60, Run: spinHandoff},
			{Name: "give-up", Quick: 2, Thorough: 10, CPU: 120, Run: spinGiveUp},
			{Name: "stress", Quick: 150, Thorough: 5000, CPU: 90, Run: func(c *mon.Case) { spinStress(c, true) }},
			{Name: "stress-plain", Quick: 150, Thorough: 5000, CPU: 90, Run: func(c *mon.Case) { spinStress(c, false) }},
		}})
	mon.Register(&mon.Prop{ID: "C12",
		Rule: "sequential histories, rounds with 2..8 readers inside together and a writer waiting, rounds with a writer inside and others waiting, and stress rounds of readers and writers with injected delays, under the race detector; distinct = distinct acquisition order or history",
		Sections: []mon.Section{
			{Name: "sequential", Quick: 1000, Thorough: 20000, Run: rwSequential},
			{Name: "readers", Quick: 200, Thorough: 4000, CPU: 60, Run: rwReaders},
			{Name: "writer", Quick: 200, Thorough: 4000, CPU: 60, Run: rwWriterHolds},
			{Name: "give-up", Quick: 2, Thorough: 10, CPU: 120, Run: rwGiveUp},
			{Name: "overtaking", Quick: 12, Thorough: 200, CPU: 120, Run: rwOvertake},
			{Name: "stress", Quick: 150, Thorough: 5000, CPU: 90, Run: func(c *mon.Case) { rwStress(c, true) }},
			{Name: "stress-plain", Quick: 150, Thorough: 5000, CPU: 90, Run: func(c *mon.Case) { rwStress(c, false) }},
		}})
}
