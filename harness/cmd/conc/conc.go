package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	stdunsafe "unsafe"

	"github.com/vipally/gx/hash"
	gxrand "github.com/vipally/gx/math/rand"
	gxstrings "github.com/vipally/gx/strings"
	gxunsafe "github.com/vipally/gx/unsafe"
	"vp/fx"
	"vp/mon"
)

//----------------------------------------------------------------------------
// C15 NoneHash

func noneContract(c *mon.Case) {
	r := c.R
	h := hash.NewNoneHash()
	if r.Bool() {
		h = hash.NONE.New()
	}
	id := append([]byte(nil), h.Sum(nil)...)
	other := hash.NewNoneHash()
	if bytes.Equal(id, other.Sum(nil)) {
		c.Failf("two none-hashes share the digest %x", id)
	}
	for k := r.Range(1, 15); k > 0; k-- {
		switch r.Intn(5) {
		case 4: // a copy into it, whichever way it takes
			p := r.Bytes(r.Size(5000))
			var err error
			switch r.Intn(3) {
			case 0:
				_, err = io.Copy(h, bytes.NewReader(p))
			case 1:
				_, err = io.Copy(h, struct{ io.Reader }{bytes.NewReader(p)})
			default:
				_, err = io.Copy(struct{ io.Writer }{h}, struct{ io.Reader }{bytes.NewReader(p)})
			}
			if err != nil {
				c.Failf("copying %d bytes into a none-hash: %v", len(p), err)
			}
		case 0, 1:
			p := r.Bytes(r.Sizes(500, 60, 3<<20))
			if n, err := h.Write(p); n != len(p) || err != nil {
				c.Failf("Write of %d bytes = %d, %v", len(p), n, err)
			}
		case 2:
			h.Reset()
		default:
			pre := r.Bytes(r.Intn(9))
			b := make([]byte, len(pre), len(pre)+r.Intn(20))
			copy(b, pre)
			s := h.Sum(b)
			if !bytes.Equal(s, append(append([]byte(nil), pre...), id...)) || !bytes.Equal(b, pre) {
				c.Failf("Sum(%x) = %x, want the digest %x appended", pre, s, id)
			}
		}
		if g := h.Sum(nil); !bytes.Equal(g, id) || h.Size() != len(g) {
			c.Failf("the digest went from %x to %x (Size %d)", id, g, h.Size())
		}
	}
	if a, b := hash.NONE.StringHash("x"), hash.NONE.StringHash("x"); a == b || a == "" {
		c.Failf("NONE hashed one string twice to %q", a)
	}
	if a, b := hash.NONE.StringHashL("xyz"), hash.NONE.StringHashL("xyz"); a == b || !strings.HasPrefix(a, "0000000003-") {
		c.Failf("NONE hashed one string with its length twice to %q, %q", a, b)
	}
	c.Seen(mon.HashInit.Bytes(id))
	c.Sample("digest %x", id)
}

func noneConcurrent(c *mon.Case) {
	n, per := c.R.Range(2, 6), c.R.Range(20, 400)
	ids := make([][]string, n)
	start := make(chan bool)
	for g := 0; g < n; g++ {
		g := g
		c.Go(func() {
			<-start
			for i := 0; i < per; i++ {
				var h interface{ Sum([]byte) []byte }
				if i%3 == 0 {
					h = hash.New(hash.NONE)
				} else {
					h = hash.NewNoneHash()
				}
				ids[g] = append(ids[g], string(h.Sum(nil)))
			}
		})
	}
	close(start)
	c.Wait()
	seen := map[string]bool{}
	hs := mon.HashInit
	for g := range ids {
		for _, id := range ids[g] {
			if seen[id] {
				c.Failf("%d goroutines making none-hashes: the digest %x was handed out twice", n, id)
			}
			seen[id] = true
		}
		hs = hs.Str(ids[g][per-1])
	}
	c.Seen(hs)
	c.Count("none-hashes made concurrently", n*per)
	c.Eval(n * per)
	c.Sample("%d goroutines, %d none-hashes each", n, per)
}

// noneMany makes more none-hashes than two or three bytes can tell apart.
func noneMany(c *mon.Case) {
	n := 1<<24 + 70000
	if c.Tier == "thorough" {
		n = 1 << 27
	}
	pages := map[uint32]*[1024]uint64{}
	var b [8]byte
	last := uint32(1<<32 - 1)
	var page *[1024]uint64
	for i := 0; i < n; i++ {
		h := hash.NewNoneHash()
		if i > 70000 && i < n-70000 && i&63 != 0 {
			continue
		}
		s := h.Sum(b[:0])
		if len(s) != 4 {
			c.Failf("the digest %x has %d bytes", s, len(s))
		}
		v := uint32(s[0])<<24 | uint32(s[1])<<16 | uint32(s[2])<<8 | uint32(s[3])
		if v>>16 != last || page == nil {
			last = v >> 16
			if page = pages[last]; page == nil {
				page = new([1024]uint64)
				pages[last] = page
			}
		}
		if w := &page[v>>6&1023]; *w>>(v&63)&1 == 1 {
			c.Failf("the digest %x came twice among %d none-hashes", s, i+1)
		} else {
			*w |= 1 << (v & 63)
		}
	}
	c.Max("none-hashes made one after the other", n)
	c.Eval(140000 + n>>6)
	c.Seen(mon.HashInit.Add(uint64(n)))
}

//----------------------------------------------------------------------------
// C33 random numbers

type gen struct {
	bits  uint
	rand  func() uint64
	max   func(uint64) uint64
	rng   func(a, b uint64) uint64
	seed  func() uint64
	srand func(uint64) uint64
	width uint64
}

func gen32(seed uint64) *gen {
	g := gxrand.NewRand32S(uint32(seed))
	return &gen{32, func() uint64 { return uint64(g.Rand()) }, func(m uint64) uint64 { return uint64(g.RandMax(uint32(m))) },
		func(a, b uint64) uint64 { return uint64(g.RandRange(uint32(a), uint32(b))) }, func() uint64 { return uint64(g.Seed()) },
		func(s uint64) uint64 { return uint64(g.Srand(uint32(s))) }, math.MaxUint32}
}

func gen64(seed uint64) *gen {
	g := gxrand.NewRand64S(seed)
	return &gen{64, g.Rand, g.RandMax, g.RandRange, g.Seed, g.Srand, math.MaxUint64}
}

func global32() *gen {
	return &gen{32, func() uint64 { return uint64(gxrand.Rand32()) }, func(m uint64) uint64 { return uint64(gxrand.RandMax32(uint32(m))) },
		func(a, b uint64) uint64 { return uint64(gxrand.RandRange32(uint32(a), uint32(b))) }, nil, nil, math.MaxUint32}
}

func global64() *gen {
	return &gen{64, gxrand.Rand64, gxrand.RandMax64, gxrand.RandRange64, nil, nil, math.MaxUint64}
}

func mkGen(c *mon.Case, seed uint64) *gen {
	if c.Idx%2 == 0 {
		return gen32(seed)
	}
	return gen64(seed)
}

func bound(r *mon.Rand, width uint64) uint64 {
	switch r.Intn(5) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return width - uint64(r.Intn(4))
	case 2:
		return uint64(1) << uint(r.Intn(32))
	case 3:
		return uint64(r.Intn(1000))
	}
	return r.U64() & width
}

func randBounds(c *mon.Case) {
	r := c.R
	g := mkGen(c, r.U64())
	if r.Chance(1, 4) {
		g = []*gen{global32(), global64()}[c.Idx%2]
	}
	for k := 0; k < 30; k++ {
		a, b := bound(r, g.width), bound(r, g.width)
		if r.Chance(1, 5) {
			b = a
		}
		lo, hi := a, b
		if lo > hi {
			lo, hi = hi, lo
		}
		for i := 0; i < 5; i++ {
			if v := g.rng(a, b); v < lo || v > hi {
				c.Failf("%d bit RandRange(%d,%d) = %d", g.bits, a, b, v)
			}
			if a > 0 {
				if v := g.max(a); v >= a {
					c.Failf("%d bit RandMax(%d) = %d", g.bits, a, v)
				}
			}
			if v := g.rng(0, g.width); v > g.width {
				c.Failf("%d bit RandRange over everything = %d", g.bits, v)
			}
			if v := g.rand(); v > g.width {
				c.Failf("%d bit Rand = %d", g.bits, v)
			}
		}
		c.Seen(mon.HashInit.Add(a).Add(b).Add(uint64(g.bits)))
	}
	c.Eval(30 * 20)
	c.Sample("%d bit: 30 pairs of bounds", g.bits)
}

// randEnds: over many seeds every value of a small range comes up, both ends included.
func randEnds(c *mon.Case) {
	r := c.R
	lo := bound(r, math.MaxUint32-16)
	if r.Chance(1, 3) {
		lo &^= 0xff
	}
	n := uint64(r.Range(1, 9))
	seen := map[uint64]int{}
	for s := 0; s < 3000 && uint64(len(seen)) < n; s++ {
		g := mkGen(c, r.U64())
		for i := 0; i < 4; i++ {
			if c.Idx/2%2 == 0 {
				seen[g.rng(lo, lo+n-1)]++
			} else { // the bounds the other way round
				seen[g.rng(lo+n-1, lo)]++
			}
		}
	}
	if uint64(len(seen)) != n || seen[lo] == 0 || seen[lo+n-1] == 0 {
		c.Failf("RandRange(%d,%d): only %d of %d values came up over 3000 seeds", lo, lo+n-1, len(seen), n)
	}
	seen = map[uint64]int{}
	for s := 0; s < 3000 && uint64(len(seen)) < n; s++ {
		g := mkGen(c, r.U64())
		for i := 0; i < 4; i++ {
			seen[g.max(n)]++
		}
	}
	if uint64(len(seen)) != n {
		c.Failf("RandMax(%d): only %d values came up over 3000 seeds", n, len(seen))
	}
	c.Seen(mon.HashInit.Add(lo).Add(n).Add(uint64(c.Idx % 2)))
	c.Sample("range [%d,%d]", lo, lo+n-1)
}

// randWide: over many seeds every part of a wide range comes up, and both ends of
// a range of up to some hundred thousand values.
func randWide(c *mon.Case) {
	r := c.R
	g := mkGen(c, r.U64())
	for k := 0; k < 6; k++ {
		w := uint64(1)<<uint(r.Range(10, int(g.bits)-1)) + uint64(r.Intn(3))
		if r.Chance(1, 4) {
			w = g.width - uint64(r.Intn(3))
		} else if r.Bool() {
			w += r.U64() % w
		}
		w &= g.width
		lo := uint64(0)
		if r.Bool() {
			lo = r.U64() % (g.width - w + 1)
		}
		var parts [16]int
		left := len(parts)
		max := w + 1 // 0: everything
		for i := 0; i < 6000 && left > 0; i++ {
			g.srand(r.U64())
			var v uint64
			if i%2 == 0 || max == 0 || max > g.width {
				v = g.rng(lo, lo+w) - lo
			} else {
				v = g.max(max)
			}
			if p := v / (w/16 + 1); p < 16 {
				if parts[p]++; parts[p] == 1 {
					left--
				}
			} else {
				c.Failf("%d bit draw between %d and %d: %d", g.bits, lo, lo+w, lo+v)
			}
		}
		if left > 0 {
			c.Failf("%d bit draws between %d and %d: 6000 seeds leave parts of the range out (sixteenths seen: %v)", g.bits, lo, lo+w, parts)
		}
		c.Seen(mon.HashInit.Add(lo).Add(w).Add(uint64(g.bits)))
	}
	n := uint64(1)<<uint(r.Range(4, 17)) + uint64(r.Intn(3)) - 1
	lo := bound(r, math.MaxUint32) & (1<<31 - 1)
	if r.Bool() {
		lo &^= 0xfffff
	}
	var low, high bool
	for i := uint64(0); i < 60*n && !(low && high); i++ {
		g.srand(r.U64()) // a seed alone may never come to a value: the low bits of its numbers have short cycles
		v := g.rng(lo, lo+n)
		low, high = low || v == lo, high || v == lo+n
	}
	if !low || !high {
		c.Failf("%d bit RandRange(%d,%d): %d draws reach the lower bound: %v, the upper: %v", g.bits, lo, lo+n, 60*n, low, high)
	}
	c.Eval(6)
	c.Sample("%d bit: the parts of 6 wide ranges and both ends of one of %d values", g.bits, n+1)
}

// randSeeds: goroutines set the seed of one generator at once; every seed that was
// set, or there at first, is returned to exactly one of them or is there at last.
func randSeeds(c *mon.Case) {
	r := c.R
	first := uint64(1)
	g := mkGen(c, first)
	n, per := r.Range(2, 5), r.Range(50, 400)
	got := make([][]uint64, n)
	start := make(chan bool)
	for w := 0; w < n; w++ {
		w := w
		h := r.U64()
		c.Go(func() {
			<-start
			for i := 0; i < per; i++ {
				got[w] = append(got[w], g.srand(uint64(2+w*per+i)))
				if h = mon.Mix(h); h%64 == 0 {
					runtime.Gosched()
				}
			}
		})
	}
	close(start)
	c.Wait()
	count := make([]int, 2+n*per)
	hs := mon.HashInit
	for _, l := range append(got, []uint64{g.seed()}) {
		for _, s := range l {
			hs = hs.Add(s)
			if s == 0 || s >= uint64(len(count)) {
				c.Failf("%d bit Srand returned %d, which nobody set", g.bits, s)
			}
			if count[s]++; count[s] > 1 {
				c.Failf("%d goroutines setting the seed: the seed %d was returned twice", n, s)
			}
		}
	}
	c.Count("seeds exchanged", n*per)
	c.Seen(hs)
	c.Sample("%d goroutines exchanged %d seeds", n, n*per)
}

// freshProcess is what a process sees of the generators that seed themselves.
func freshProcess() string {
	g := gxrand.NewRand64()
	return fmt.Sprintf("%d %d %d %d %s", gxrand.Rand32(), gxrand.Rand64(), g.Seed(), gxrand.NewRand32().Seed(), gxstrings.Rand(0, 40))
}

// randSelfSeeded: generators that seed themselves do not repeat each other.
func randSelfSeeded(c *mon.Case) {
	const n = 3000
	seen := map[uint64]int{}
	for i := 0; i < n; i++ {
		s := gxrand.NewRand64().Seed()
		if k, ok := seen[s]; ok {
			c.Failf("of %d 64 bit generators seeding themselves, number %d and number %d start at the one seed %d", n, k, i, s)
		}
		seen[s] = i
	}
	for i, init := 0, c.R.U64(); i < n; i++ { // the seeds themselves, for one starting value
		s := gxrand.RandSeed(init)
		if _, ok := seen[s]; ok {
			c.Failf("RandSeed(%d) gave the seed %d again", init, s)
		}
		seen[s] = i
	}
	// of 400 seeds of 32 bits, chance makes two pairs equal once in ten billion times
	seen32, same := map[uint32]bool{}, 0
	for i := 0; i < 400; i++ {
		s := gxrand.NewRand32().Seed()
		if seen32[s] {
			same++
		}
		seen32[s] = true
	}
	if same > 1 {
		c.Failf("of 400 32 bit generators seeding themselves, %d start at the seed of another", same)
	}
	c.Eval(n + 400)
	c.Seen(mon.HashInit.Add(gxrand.NewRand64().Seed()))
	c.Sample("%d generators seeding themselves, all different", n+400)
}

// randProcesses: two processes do not draw the same numbers and strings.
func randProcesses(c *mon.Case, what int) {
	var out [2][]string
	for i := range out {
		cmd := exec.Command("/proc/self/exe")
		cmd.Env = append(os.Environ(), "VP_FRESH=1")
		b, err := cmd.Output()
		if err != nil {
			c.Inconclusive("no child process")
			return
		}
		if out[i] = strings.Fields(string(b)); len(out[i]) != 5 {
			c.Inconclusive("no answer of a child process")
			return
		}
	}
	names := []string{"Rand32()", "Rand64()", "NewRand64().Seed()", "NewRand32().Seed()", "a random string"}
	for i, n := range names {
		if (i == 4) == (what == 4) && out[0][i] == out[1][i] {
			// once more, to leave out chance: the third process draws the same, too
			cmd := exec.Command("/proc/self/exe")
			cmd.Env = append(os.Environ(), "VP_FRESH=1")
			if b, err := cmd.Output(); err == nil && strings.Fields(string(b))[i] == out[0][i] {
				c.Failf("%s is the same in three processes: %s", n, out[0][i])
			}
		}
	}
	c.Count("pairs of processes compared", 1)
	c.Seen(mon.HashInit.Str(strings.Join(out[0], " ")))
	c.Sample("two processes: %v and %v", out[0], out[1])
}

// randReplay: the numbers are determined by the seed; a saved seed resumes.
func randReplay(c *mon.Case) {
	r := c.R
	seed := r.U64()
	if r.Chance(1, 6) {
		seed = []uint64{0, 1, math.MaxUint32, math.MaxUint64}[r.Intn(4)]
	}
	a, b := mkGen(c, seed), mkGen(c, seed)
	if a.seed() != seed&a.width {
		c.Failf("a new generator of seed %d has seed %d", seed, a.seed())
	}
	n := r.Range(2, 60)
	var save uint64
	at := r.Intn(n)
	var tail []uint64
	changed := false
	for i := 0; i < n; i++ {
		if i == at {
			save = a.seed()
		}
		x, y := a.rand(), b.rand()
		if x != y {
			c.Failf("two generators of seed %d differ at number %d: %d and %d", seed, i, x, y)
		}
		if i >= at {
			tail = append(tail, x)
		}
		changed = changed || len(tail) > 1 && tail[len(tail)-1] != tail[0]
	}
	if len(tail) > 3 && !changed {
		c.Failf("the generator of seed %d repeats one number", seed)
	}
	if cur, old := a.seed(), a.srand(save); old != cur {
		c.Failf("Srand returned %d, the seed was %d", old, cur)
	}
	for i, want := range tail {
		if x := a.rand(); x != want {
			c.Failf("resuming a saved seed: number %d is %d, want %d", i, x, want)
		}
	}
	// the derived draws consume the same sequence
	d, e := mkGen(c, seed), mkGen(c, seed)
	for i := 0; i < n; i++ {
		m := bound(r, 1<<20) + 1
		if x, y := d.max(m), e.rng(0, m-1); x != y {
			c.Failf("RandMax(%d) = %d and RandRange(0,%d) = %d from one seed", m, x, m-1, y)
		}
	}
	c.Eval(n)
	c.Seen(mon.HashInit.Add(seed).Add(uint64(n)))
	c.Sample("%d bit seed %d: %d numbers twice", a.bits, seed, n)
}

type draw struct {
	v        uint64
	from, to int64
}

// randConcurrent: goroutines sharing a generator get exactly the numbers of the
// sequential generator, each once, in an order that respects real time.
func randConcurrent(c *mon.Case) {
	r := c.R
	seed := r.U64()
	g := mkGen(c, seed)
	n, per := r.Range(2, 5), r.Range(20, 300)
	draws := make([][]draw, n)
	start := make(chan bool)
	var clock int64
	stamps := r.Bool() // without them only the generator itself orders the goroutines
	for w := 0; w < n; w++ {
		w := w
		h := r.U64()
		c.Go(func() {
			<-start
			out := make([]draw, 0, per)
			for i := 0; i < per; i++ {
				var d draw
				if stamps {
					d.from = atomic.AddInt64(&clock, 1)
				}
				d.v = g.rand()
				if stamps {
					d.to = atomic.AddInt64(&clock, 1)
				}
				out = append(out, d)
				if h = mon.Mix(h); h%64 == 0 {
					runtime.Gosched()
				}
			}
			draws[w] = out
		})
	}
	close(start)
	c.Wait()
	ref := mkGen(c, seed)
	pos := map[uint64][]int{}
	for i := 0; i < n*per; i++ {
		v := ref.rand()
		pos[v] = append(pos[v], i)
	}
	unique := true
	for _, p := range pos {
		unique = unique && len(p) == 1
	}
	used := map[uint64]int{}
	hs := mon.HashInit
	for w := range draws {
		for i, d := range draws[w] {
			used[d.v]++
			if used[d.v] > len(pos[d.v]) {
				if len(pos[d.v]) == 0 {
					c.Failf("%d goroutines sharing seed %d: %d is not one of the first %d numbers", n, seed, d.v, n*per)
				}
				c.Failf("%d goroutines sharing seed %d: the number %d was handed out twice", n, seed, d.v)
			}
			if unique {
				hs = hs.Add(uint64(pos[d.v][0]))
				if i > 0 && pos[d.v][0] < pos[draws[w][i-1].v][0] {
					c.Failf("a goroutine got the numbers of seed %d out of order", seed)
				}
			}
		}
	}
	if unique && stamps {
		// real-time order: a draw that ended before another began comes first
		byPos := make([]draw, n*per)
		for w := range draws {
			for _, d := range draws[w] {
				byPos[pos[d.v][0]] = d
			}
		}
		var latest int64
		for i := range byPos {
			if byPos[i].to < latest {
				c.Failf("the draws of seed %d are not linearizable: number %d ended before an earlier number began", seed, i)
			}
			if byPos[i].from > latest {
				latest = byPos[i].from
			}
		}
		c.Count("draws ordered in real time", n*per)
	}
	if ref.seed() != g.seed() {
		c.Failf("after %d shared draws the seed is %d, want %d", n*per, g.seed(), ref.seed())
	}
	// auto-seeded generators and the global ones are usable from all goroutines
	for w := 0; w < 3; w++ {
		c.Go(func() {
			for i := 0; i < 20; i++ {
				if v := gxrand.RandMax32(7); v >= 7 {
					c.Failf("RandMax32(7) = %d", v)
				}
				if v := gxrand.RandRange64(10, 12); v < 10 || v > 12 {
					c.Failf("RandRange64(10,12) = %d", v)
				}
				a, b := gxrand.NewRand64(), gxrand.NewRand64()
				if a.Seed() == b.Seed() {
					c.Failf("two auto-seeded generators have one seed")
				}
				gxrand.NewRand32().Rand()
			}
		})
	}
	c.Wait()
	c.Count("concurrent draws", n*per)
	c.Eval(n * per)
	c.Seen(hs)
	c.Sample("%d bit seed %d shared by %d goroutines, %d draws each", g.bits, seed, n, per)
}

// randStarved: a goroutine that is overtaken in the middle of every draw, hundreds of
// times over, still gets numbers of the sequence that nobody else got.
func randStarved(c *mon.Case) {
	r := c.R
	seed := r.U64()
	g := mkGen(c, seed)
	n, most, mine := r.Range(3, 5), 30000, r.Range(1, 3)
	fx.Set(4)
	out := make([][]uint64, n+1)
	var ready, done int32
	c.Go(func() {
		fx.Victim()
		for atomic.LoadInt32(&ready) < int32(n) {
			runtime.Gosched()
		}
		for i := 0; i < mine; i++ {
			out[n] = append(out[n], g.rand())
		}
		atomic.StoreInt32(&done, 1)
	})
	for w := 0; w < n; w++ {
		w := w
		c.Go(func() {
			o := make([]uint64, 0, most)
			for i := 0; i < most && (i&15 != 0 || atomic.LoadInt32(&done) == 0); i++ {
				o = append(o, g.rand())
				if i == 0 {
					atomic.AddInt32(&ready, 1)
				}
			}
			out[w] = o
		})
	}
	c.Wait()
	fx.Set(0)
	all := 0
	for _, o := range out {
		all += len(o)
	}
	ref := mkGen(c, seed)
	left := make(map[uint64]int, all)
	for i := 0; i < all; i++ {
		left[ref.rand()]++
	}
	for w, o := range out {
		for _, v := range o {
			if left[v]--; left[v] < 0 {
				c.Failf("seed %d shared by %d goroutines, goroutine %d is overtaken during its draws: %d was handed out twice or is not one of the first %d numbers (goroutine %d got it)", seed, n+1, n, v, all, w)
			}
		}
	}
	if ref.seed() != g.seed() {
		c.Failf("after %d shared draws the seed is %d, want %d", all, g.seed(), ref.seed())
	}
	c.Count("draws overtaking a held-up goroutine", all-mine)
	c.Eval(all)
	c.Seen(mon.HashInit.Add(seed))
	c.Sample("%d bit seed %d: %d draws by %d goroutines while another made %d", g.bits, seed, all-mine, n, mine)
}

//----------------------------------------------------------------------------
// C34 random strings

const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

var rules = []gxstrings.Rule{gxstrings.RULE_NONE, gxstrings.RULE_NUMBER, gxstrings.RULE_LETTER, gxstrings.RULE_LETTER_UPPER,
	gxstrings.RULE_LETTER_LOWER, gxstrings.RULE_SYMBOL, gxstrings.RULE_NORMAL, gxstrings.RULE_STRONG, gxstrings.RULE_LIMIT_LEN}

// randStringLong: the length is exact however large it is.
func randStringLong(c *mon.Case) {
	for _, n := range []int{65536, 65537, 1<<17 + 3, 1<<20 + 1, 1<<22 + 5}[:3+c.Idx%3] {
		s := gxstrings.Rand(rules[c.R.Intn(len(rules))], n)
		if len(s) != n {
			c.Failf("Rand(%d) has %d characters", n, len(s))
		}
		var seen [256]int
		for i := 0; i < len(s); i++ {
			if s[i] < 'A' || s[i] > 'Z' {
				c.Failf("Rand(%d) contains %q at %d", n, s[i], i)
			}
			seen[s[i]]++
		}
		for x := 'A'; x <= 'Z'; x++ {
			if seen[x] == 0 {
				c.Failf("Rand(%d) contains no %c", n, x)
			}
		}
		// no stretch of it comes twice
		at := make(map[string]int, n/16)
		for i := 0; i+64 <= n; i += 64 {
			at[s[i:i+32]] = i
		}
		for i := 1; i+32 <= n && i < 200000; i++ {
			if j, ok := at[s[i:i+32]]; ok && j != i {
				c.Failf("Rand(%d) repeats itself: %s is at %d and at %d", n, s[i:i+32], i, j)
			}
		}
		c.Count("characters of long strings", n)
		c.Seen(mon.HashInit.Str(s[:64]))
	}
}

func randString(c *mon.Case) {
	r := c.R
	rule := rules[r.Intn(len(rules))]
	n := r.Size(3000)
	work := func() (string, string) { return gxstrings.Rand(rule, n), gxstrings.Rand(rule, n) }
	check := func(s, t string) {
		for _, x := range []string{s, t} {
			if len(x) != n {
				c.Failf("Rand(%#x,%d) has %d characters", rule, n, len(x))
			}
			for i := 0; i < len(x); i++ {
				if strings.IndexByte(alphabet, x[i]) < 0 {
					c.Failf("Rand(%#x,%d) contains %q", rule, n, x[i])
				}
			}
		}
		if n >= 64 {
			if s == t {
				c.Failf("two random strings of %d characters are equal: %s", n, s)
			}
			if n >= 2000 {
				for i := range alphabet {
					if strings.IndexByte(s, alphabet[i]) < 0 && strings.IndexByte(t, alphabet[i]) < 0 {
						c.Failf("the letter %c comes up nowhere in two random strings of %d characters", alphabet[i], n)
					}
				}
			}
			if strings.Count(s, s[:1]) == len(s) {
				c.Failf("a random string of %d characters consists of one character: %s", n, s)
			}
		}
	}
	if c.Idx%10 == 0 {
		var prev atomic.Value
		prev.Store("")
		for g := 0; g < 3; g++ {
			c.Go(func() {
				for i := 0; i < 3; i++ {
					check(work())
				}
			})
		}
		c.Wait()
		c.Count("concurrent strings", 18)
	}
	s, t := work()
	check(s, t)
	c.Seen(mon.HashInit.Str(s))
	c.Sample("Rand(%#x,%d) = %q", rule, n, clip(s))
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80]
	}
	return s
}

//----------------------------------------------------------------------------
// C26 string and byte views

func heapString(r *mon.Rand, n int) string { return string(r.Bytes(n)) }

func unsafeViews(c *mon.Case) {
	r := c.R
	n := r.Sizes(4000, 100, 1<<20)
	s := heapString(r, n)
	want := append([]byte(nil), s...)
	b := gxunsafe.StringBytes(s)
	if len(b) != n || cap(b) != n || !bytes.Equal(b, want) {
		c.Failf("StringBytes of %d bytes: len %d cap %d", n, len(b), cap(b))
	}
	src := r.Bytes(n)
	if extra := r.Intn(50); extra > 0 {
		src = append(make([]byte, 0, n+extra), src...)
	}
	if r.Chance(1, 2) && n > 4 { // a window into a larger array
		o := r.Intn(n / 2)
		src = src[o : o+r.Intn(n-o)+1]
		if len(src) > n-o {
			src = src[:n-o]
		}
	}
	t := gxunsafe.BytesString(src)
	if string(t) != string(src) || len(t) != len(src) {
		c.Failf("BytesString of %d bytes gives %d bytes or others", len(src), len(t))
	}
	if len(src) > 0 {
		// it is a view: no copy is made, a change shows
		i := r.Intn(len(src))
		src[i] ^= 0x5a
		if t[i] != src[i] {
			c.Failf("BytesString made a copy")
		}
		if gxunsafe.BytesPointer(src) != gxunsafe.Pointer(stdunsafe.Pointer(&src[0])) || gxunsafe.Bytes(src).Pointer() != gxunsafe.BytesPointer(src) {
			c.Failf("BytesPointer is not the address of the first byte")
		}
		if t.Pointer() != gxunsafe.BytesPointer(src) {
			c.Failf("the view starts at another address than its bytes")
		}
	}
	if n > 0 {
		if gxunsafe.StringPointer(s) != gxunsafe.Pointer(stdunsafe.Pointer(stdunsafe.StringData(s))) || gxunsafe.String(s).Pointer() != gxunsafe.StringPointer(s) {
			c.Failf("StringPointer is not the address of the first byte")
		}
		if gxunsafe.BytesPointer(b) != gxunsafe.StringPointer(s) {
			c.Failf("StringBytes made a copy")
		}
		if n > 1 { // the string lives on the heap (one byte strings need not)
			i := r.Intn(n)
			b[i]++
			if s[i] != want[i]+1 {
				c.Failf("StringBytes: a change does not show in the string")
			}
			b[i]--
		}
	}
	if rt := gxunsafe.BytesString(gxunsafe.StringBytes(s)); string(rt) != s {
		c.Failf("a round trip changed the string")
	}
	c.Seen(mon.HashInit.Str(s))
	c.Sample("views of %d and %d bytes", n, len(src))
}

// writableMap tells from the system's own table whether the page may be written.
func writableMap(p uintptr) (w, known bool) {
	m, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(m), "\n") {
		var lo, hi uint64
		var perm string
		if n, _ := fmt.Sscanf(l, "%x-%x %s", &lo, &hi, &perm); n == 3 && uint64(p) >= lo && uint64(p) < hi {
			return perm[1] == 'w', true
		}
	}
	return
}

var litStrings = []string{"a", "constant", "the quick brown fox jumps over the lazy dog", "0123456789abcdef0123456789abcdef0123456789abcdef"}

// unsafeWriteable: constants are never said to be writeable, big buffers made at
// run time are, and whatever is said to be can be written.
func unsafeWriteable(c *mon.Case) {
	r := c.R
	ask := func(what string, s gxunsafe.String) bool {
		a, b, d := gxunsafe.Writeable(s.Pointer()), s.Writeable(), gxunsafe.StringBytes(string(s)).Writeable()
		if a != b || b != d {
			c.Failf("%s: Writeable is %v by its address, %v as a string, %v as bytes", what, a, b, d)
		}
		w, known := writableMap(uintptr(s.Pointer()))
		if known && a && !w {
			c.Failf("%s at %#x is said to be writeable, the system has mapped it read-only", what, uintptr(s.Pointer()))
		}
		if known {
			c.Count(fmt.Sprintf("answers compared with the system's map (writeable %v, mapped writable %v)", a, w), 1)
		}
		return a
	}
	lit := litStrings[r.Intn(len(litStrings))]
	if r.Bool() {
		o := r.Intn(len(lit))
		lit = lit[o:]
	}
	if w, known := writableMap(uintptr(gxunsafe.StringPointer(lit))); known && !w && ask("a string constant", gxunsafe.String(lit)) {
		c.Failf("a string constant is said to be writeable")
	}
	big := r.Bytes(1<<20 + r.Intn(1<<20))
	if !ask("a big buffer", gxunsafe.BytesString(big)) || !gxunsafe.Bytes(big).Writeable() {
		c.Failf("a buffer of %d bytes made at run time is said not to be writeable", len(big))
	}
	ask("a small buffer", gxunsafe.BytesString(r.Bytes(r.Range(1, 3000))))
	gxunsafe.StringBytes(string(gxunsafe.BytesString(big)))[r.Intn(len(big))] ^= 1
	c.Eval(3)
	c.Seen(mon.HashInit.Str(lit).Add(uint64(len(big))))
}

var keepAlive interface{}

// unsafeGC: a view keeps its bytes alive on its own while the collector runs.
func unsafeGC(c *mon.Case) {
	r := c.R
	type pair struct {
		b    gxunsafe.Bytes
		s    gxunsafe.String
		sumB mon.Hash
		sumS mon.Hash
	}
	mk := func() pair {
		x := heapString(r, r.Range(1, 3000))
		y := r.Bytes(r.Range(1, 3000))
		return pair{gxunsafe.StringBytes(x), gxunsafe.BytesString(y), mon.HashInit.Str(x), mon.HashInit.Bytes(y)}
	}
	var ps []pair
	stop := make(chan bool)
	done := make(chan bool)
	go func() { // garbage and collections meanwhile
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
				for i := 0; i < 200; i++ {
					g := make([]byte, 64+i*13)
					for j := range g {
						g[j] = 0xEE
					}
					keepAlive = g
				}
				runtime.GC()
				time.Sleep(time.Millisecond)
			}
		}
	}()
	for i := 0; i < 200; i++ {
		ps = append(ps, mk())
	}
	runtime.GC()
	runtime.GC()
	for i, p := range ps {
		if mon.HashInit.Bytes(p.b) != p.sumB || mon.HashInit.Str(string(p.s)) != p.sumS {
			close(stop)
			<-done
			c.Failf("view %d lost its bytes across a garbage collection", i)
		}
	}
	close(stop)
	<-done
	c.Count("views checked after collections", 2*len(ps))
	c.Seen(mon.HashInit.Add(uint64(c.Idx)).Add(uint64(ps[0].sumB)))
	c.Sample("%d views across garbage collections", 2*len(ps))
	_ = fmt.Sprint
}

func init() {
	mon.Fresh = freshProcess
	mon.Register(&mon.Prop{ID: "C15",
		Rule: "random histories of one none-hash, and 2..6 goroutines making them at once, under the race detector; distinct = distinct digest, or digests last handed out per goroutine",
		Sections: []mon.Section{
			{Name: "contract", Quick: 4000, Thorough: 100000, Run: noneContract},
			{Name: "concurrent", Quick: 150, Thorough: 5000, Run: noneConcurrent},
			{Name: "many", Quick: 1, Thorough: 1, Run: noneMany, CPU: 600},
		}})
	mon.Register(&mon.Prop{ID: "C33",
		Rule: "edge-biased bounds, small ranges over many seeds, replays of seeds, and 2..5 goroutines sharing one generator under the race detector whose draws must be the sequential numbers, each once, in real-time order; distinct = bounds, seeds, or assignment of numbers to goroutines",
		Sections: []mon.Section{
			{Name: "bounds", Quick: 600, Thorough: 30000, Run: randBounds},
			{Name: "ends", Quick: 400, Thorough: 10000, Run: randEnds},
			{Name: "wide", Quick: 120, Thorough: 6000, Run: randWide},
			{Name: "processes", Quick: 3, Thorough: 30, Run: func(c *mon.Case) { randProcesses(c, 0) }},
			{Name: "selfseeded", Quick: 5, Thorough: 200, Run: randSelfSeeded},
			{Name: "seeds", Quick: 200, Thorough: 6000, Run: randSeeds},
			{Name: "replay", Quick: 2000, Thorough: 100000, Run: randReplay},
			{Name: "concurrent", Quick: 200, Thorough: 6000, Run: randConcurrent},
			{Name: "starved", Quick: 12, Thorough: 300, Run: randStarved},
		}})
	mon.Register(&mon.Prop{ID: "C34",
		Rule: "every rule with lengths 0..3000, partly from several goroutines under the race detector; distinct = distinct string",
		Sections: []mon.Section{
			{Name: "strings", Quick: 1500, Thorough: 60000, Run: randString},
			{Name: "long", Quick: 3, Thorough: 30, Run: randStringLong},
			{Name: "processes", Quick: 3, Thorough: 30, Run: func(c *mon.Case) { randProcesses(c, 4) }},
		}})
	mon.Register(&mon.Prop{ID: "C26",
		Rule: "random strings and byte windows of 0..4000 bytes viewed both ways, compiled with pointer checking, and views that outlive their origin across garbage collections; distinct = distinct content",
		Sections: []mon.Section{
			{Name: "views", Quick: 8000, Thorough: 400000, Run: unsafeViews},
			{Name: "gc", Quick: 12, Thorough: 300, Run: unsafeGC},
			{Name: "writeable", Quick: 60, Thorough: 2000, Run: unsafeWriteable},
		}})
}
