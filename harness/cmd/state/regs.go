package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/vipally/gx/regable"
	"vp/mon"
)

type rv struct {
	id   regable.Uint32Id
	obj  regable.Uint32Obj
	name string
	val  uint32
}

type rg struct {
	r    *regable.Uint32Reger
	num  uint32
	name string
	vals []*rv
	max  int // registrations allowed at most
	more int // registered beside vals
}

var (
	regers  []*rg
	allIds  = map[regable.Uint32Id]*rv{}
	closedR bool
)

func newReger(c *mon.Case, r *mon.Rand) *rg {
	name := fmt.Sprintf("reger%d", len(regers))
	if len(regers) > 0 && r.Intn(5) == 0 { // names need not differ
		name = regers[r.Intn(len(regers))].name
	}
	var g *regable.Uint32Reger
	if r.Bool() {
		g = regable.MustNewUint32Reger(name)
	} else {
		var err error
		g, err = regable.NewUint32Reger(name)
		c.Assert(err == nil, "NewUint32Reger: %v", err)
	}
	c.Assert(g != nil, "NewUint32Reger gave nothing")
	x := &rg{r: g, name: name, max: 1024}
	regers = append(regers, x)
	c.Count("regers", 1)
	return x
}

func (g *rg) reg(c *mon.Case, r *mon.Rand) (v *rv, p interface{}) {
	v = &rv{name: names[r.Intn(len(names))] + fmt.Sprint(len(g.vals)), val: r.U32()}
	if r.Intn(8) == 0 { // a name as it is, also none and a long one
		v.name = append(names, "no name", "invalid", " ", strings.Repeat("long ", 300))[r.Intn(len(names)+4)]
	}
	if len(g.vals) > 0 && r.Intn(6) == 0 { // nor need names and values
		o := g.vals[r.Intn(len(g.vals))]
		if v.name = o.name; r.Bool() {
			v.val = o.val
		}
	}
	switch r.Intn(4) {
	case 0:
		p = mon.Panics(func() { v.id, _ = g.r.Reg(v.name, v.val); v.obj = v.id.Oject() })
	case 1:
		p = mon.Panics(func() { v.id = g.r.MustReg(v.name, v.val); v.obj = v.id.Oject() })
	case 2:
		p = mon.Panics(func() { v.obj, _ = g.r.RegO(v.name, v.val); v.id = v.obj.Id() })
	default:
		p = mon.Panics(func() { v.obj = g.r.MustRegO(v.name, v.val); v.id = v.obj.Id() })
	}
	if p != nil {
		return nil, p
	}
	old := allIds[v.id]
	c.Assert(old == nil, "registering %q gave id %#x, which is %q's", v.name, uint32(v.id), nameOf(old))
	a, b := v.id.Ids()
	c.Assert(regable.MakeRegedId(a, b) == uint32(v.id), "id %#x is made of (%d,%d), which make %#x", uint32(v.id), a, b, regable.MakeRegedId(a, b))
	if len(g.vals) == 0 {
		g.num = a
		for _, o := range regers {
			c.Assert(o == g || len(o.vals) == 0 || o.num != a, "two regers share the number %d", a)
		}
	}
	c.Assert(a == g.num, "ids of one reger carry the reger numbers %d and %d", g.num, a)
	allIds[v.id] = v
	g.vals = append(g.vals, v)
	c.Count("registrations", 1)
	return v, nil
}

func nameOf(v *rv) string {
	if v == nil {
		return ""
	}
	return v.name
}

func (v *rv) check(c *mon.Case, r *mon.Rand) {
	c.Assert(v.id.Valid() && v.obj.Valid(), "%q (id %#x) is not valid", v.name, uint32(v.id))
	x, err := v.id.Get()
	c.Assert(err == nil && x == v.val, "id %#x of %q gives %d, %v; expected %d", uint32(v.id), v.name, x, err, v.val)
	x, err = v.obj.Get()
	c.Assert(err == nil && x == v.val, "the object of %q gives %d, %v; expected %d", v.name, x, err, v.val)
	c.Assert(v.id.GetNoErr() == v.val && v.obj.GetNoErr() == v.val, "GetNoErr of %q gives %d and %d; expected %d", v.name, v.id.GetNoErr(), v.obj.GetNoErr(), v.val)
	c.Assert(v.obj.Id() == v.id, "the object of %q has id %#x, expected %#x", v.name, uint32(v.obj.Id()), uint32(v.id))
	n, err := v.id.Name()
	c.Assert(err == nil && n == v.name, "id %#x is named %q, %v; expected %q", uint32(v.id), n, err, v.name)
	n, err = v.obj.Name()
	c.Assert(err == nil && n == v.name, "the object of %q is named %q, %v", v.name, n, err)
	s := v.id.String()
	a, b := v.id.Ids()
	c.Assert(s == v.obj.String() && strings.Contains(s, v.name) && strings.Contains(s, fmt.Sprint(v.val)) && strings.Contains(s, fmt.Sprintf("%d|%d", a, b)), "%q prints as %q and %q", v.name, s, v.obj.String())
	c.Eval(1)
}

func (v *rv) set(c *mon.Case, r *mon.Rand) {
	x := r.U32()
	if r.Intn(3) == 0 { // something about the value it replaces or the id
		x = []uint32{0, v.val, ^v.val, -v.val, v.val + 1, v.val - 1, v.val << 1, v.val ^ 1<<31, v.val >> 16, uint32(v.id), ^uint32(0)}[r.Intn(11)]
	}
	var got uint32
	var err error
	if r.Bool() {
		got, err = v.id.Set(x)
	} else {
		got, err = v.obj.Set(x)
	}
	c.Assert(err == nil && got == x, "setting %q to %d gives %d, %v", v.name, x, got, err)
	v.val = x
	c.Count("sets", 1)
}

func badId(c *mon.Case, id regable.Uint32Id) {
	if allIds[id] != nil {
		return
	}
	c.Logf("id %#x, never handed out", uint32(id))
	c.Assert(!id.Valid(), "the id %#x was never handed out and is valid", uint32(id))
	_, err := id.Get()
	c.Assert(err != nil, "the id %#x was never handed out and has a value", uint32(id))
	_, err = id.Set(1)
	c.Assert(err != nil, "the id %#x was never handed out and can be set", uint32(id))
	n, err := id.Name()
	c.Assert(err != nil && n == "", "the id %#x was never handed out and is named %q", uint32(id), n)
	o := id.Oject()
	c.Assert(!o.Valid(), "the id %#x was never handed out and has an object", uint32(id))
	_, err = o.Get()
	c.Assert(err != nil, "an invalid object has a value")
	_, err = o.Set(3)
	c.Assert(err != nil, "an invalid object can be set")
	_, err = o.Name()
	c.Assert(err != nil, "an invalid object has a name")
	c.Assert(o.Id() == 0, "an invalid object has the id %#x", uint32(o.Id()))
	c.Assert(strings.Contains(id.String(), "invalid") && strings.Contains(o.String(), "invalid"), "an invalid id prints as %q, its object as %q", id.String(), o.String())
	c.MustPanic("GetNoErr of an invalid id", func() { id.GetNoErr() })
	c.MustPanic("GetNoErr of an invalid object", func() { o.GetNoErr() })
	c.Count("invalid ids", 1)
	c.Eval(1)
}

func regSeq(c *mon.Case) {
	r := c.R
	if len(regers) < 3 || (r.Intn(3) == 0 && len(regers) < 200) {
		newReger(c, r)
	}
	for i, n := 0, r.Range(10, 120); i < n; i++ {
		g := regers[r.Intn(len(regers))]
		switch op := r.Intn(10); {
		case op < 2 && len(g.vals) < g.max-2:
			v, p := g.reg(c, r)
			c.Assert(p == nil, "%s: registration %d of %d panicked: %v", g.name, len(g.vals)+1, g.max, p)
			c.Logf("%s: registered %q = %d as %#x", g.name, v.name, v.val, uint32(v.id))
			v.check(c, r)
		case op < 5 && len(g.vals) > 0:
			v := g.vals[r.Intn(len(g.vals))]
			v.set(c, r)
			c.Logf("%s: set %q = %d", g.name, v.name, v.val)
			v.check(c, r)
		case op < 8 && len(g.vals) > 0:
			g.vals[r.Intn(len(g.vals))].check(c, r)
		default:
			k := uint32(len(g.vals))
			for _, id := range []regable.Uint32Id{
				0, regable.Uint32Id(r.U32()), regable.Uint32Id(regable.MakeRegedId(g.num, 0)), regable.Uint32Id(regable.MakeRegedId(g.num, k+1)),
				regable.Uint32Id(regable.MakeRegedId(g.num, k+2)), regable.Uint32Id(regable.MakeRegedId(uint32(len(regers)+1), 1)),
				regable.Uint32Id(regable.MakeRegedId(0, 1)), regable.Uint32Id(regable.MakeRegedId(255, uint32(r.Intn(5)))), 0xffffffff,
				regable.Uint32Id(regable.MakeRegedId(g.num, 0xffffff))} {
				badId(c, id)
			}
		}
	}
	all(c, r)
	c.Seen(mon.HashInit.Add(uint64(len(allIds))).Add(uint64(len(regers))))
	c.Sample("%d regers, %d values", len(regers), len(allIds))
}

// all checks every value of the process and what the listings show.
func all(c *mon.Case, r *mon.Rand) {
	for _, g := range regers {
		for _, v := range g.vals {
			if len(allIds) < 400 || r.Intn(8) == 0 {
				v.check(c, r)
			}
		}
	}
	if r.Intn(4) != 0 {
		return
	}
	s := regable.ShowAllRegs()
	c.Assert(strings.Contains(s, regable.ShowAllUint32Regers()), "ShowAllRegs lacks the regers")
	for _, g := range regers {
		t := g.listed(c)
		c.Assert(strings.Contains(s, t) && strings.Contains(t, g.name), "ShowAllRegs lacks %q", g.name)
	}
	c.Count("listings compared", 1)
}

// listed: the text of a reger lists its values in the order of registration.
func (g *rg) listed(c *mon.Case) string {
	t := g.r.String()
	pos := 0
	for _, v := range g.vals {
		_, b := v.id.Ids()
		w := fmt.Sprintf("#%d [%s]: %d", b, v.name, v.val)
		i := strings.Index(t[pos:], w)
		c.Assert(i >= 0, "%s does not list %q", g.name, w)
		pos += i
	}
	return t
}

// regFull fills a reger with a small limit and goes on.
func regFull(c *mon.Case) {
	r := c.R
	g := newReger(c, r)
	for i, n := 0, r.Intn(6); i < n; i++ {
		_, p := g.reg(c, r)
		c.Assert(p == nil, "registration panicked: %v", p)
	}
	for _, bad := range []uint32{0, 1 << 24, 1<<24 + 5, 0xffffffff} {
		_, err := g.r.MaxReg(bad)
		c.Assert(err != nil, "MaxReg(%d) was accepted", bad)
	}
	if k := len(g.vals); k > 2 {
		_, err := g.r.MaxReg(uint32(r.Range(1, k-1)))
		c.Assert(err != nil, "MaxReg below the %d values already registered was accepted", k)
	}
	if big := uint32(1<<24 - 1 - r.Intn(2)); r.Bool() {
		m, err := g.r.MaxReg(big)
		c.Assert(err == nil && m == big, "MaxReg(%d) gives %d, %v", big, m, err)
		m, err = g.r.MaxReg(1024)
		c.Assert(err == nil && m == 1024, "MaxReg(1024) gives %d, %v", m, err)
	}
	max := len(g.vals) + r.Range(2, 40)
	if c.Idx%8 == 0 {
		max = 1024
	} else {
		m, err := g.r.MaxReg(uint32(max))
		c.Assert(err == nil && m == uint32(max), "MaxReg(%d) gives %d, %v", max, m, err)
	}
	g.max = max
	for miss := 0; miss < 4; {
		_, p := g.reg(c, r)
		if p == nil {
			c.Assert(miss == 0, "a registration succeeded after the reger was full")
			c.Assert(len(g.vals) <= max, "%d values in a reger of at most %d", len(g.vals), max)
			continue
		}
		miss++
		c.Count("refused registrations", 1)
	}
	c.Assert(len(g.vals) >= max-1, "a reger of at most %d values is full with %d", max, len(g.vals))
	if k := len(g.vals); k > 2 { // full
		_, err := g.r.MaxReg(uint32(r.Range(1, k-1)))
		c.Assert(err != nil, "MaxReg below the %d values already registered was accepted", k)
		_, p := g.reg(c, r)
		c.Assert(p != nil, "a registration succeeded in a full reger")
	}
	if r.Bool() { // a higher limit
		more := uint32(max + r.Range(5, 20))
		m, err := g.r.MaxReg(more)
		c.Assert(err == nil && m == more, "MaxReg(%d) gives %d, %v", more, m, err)
		for i := 0; i < 3; i++ {
			_, p := g.reg(c, r)
			c.Assert(p == nil, "registration %d of %d panicked: %v", len(g.vals)+1, more, p)
		}
	}
	g.max = 0
	for _, v := range g.vals {
		v.check(c, r)
	}
	badId(c, regable.Uint32Id(regable.MakeRegedId(g.num, uint32(len(g.vals)+1))))
	badId(c, 0)
	c.Max("values in one reger", len(g.vals))
	c.Seen(mon.HashInit.Add(uint64(max)).Add(3))
}

type revent struct {
	write    bool
	val      uint32
	inv, ret int64
	g        int
}

// regConc records what several goroutines write and read of shared values and
// checks that the history is one of an atomic register.
func regConc(c *mon.Case) {
	r0 := c.R
	if len(regers) == 0 {
		newReger(c, r0)
	}
	var g *rg
	for _, x := range regers {
		if x.max-len(x.vals) > 4 {
			g = x
		}
	}
	if g == nil {
		g = newReger(c, r0)
	}
	nv, ng, ops := 2, 4, 120
	var vs []*rv
	if len(g.vals) >= nv && r0.Bool() {
		vs = g.vals[:nv]
	} else {
		for i := 0; i < nv; i++ {
			v, p := g.reg(c, r0)
			c.Assert(p == nil, "registration panicked: %v", p)
			vs = append(vs, v)
		}
	}
	var clock int64
	hist := make([][][]revent, ng)
	for i := range vs {
		vs[i].id.Set(0)
	}
	for gi := 0; gi < ng; gi++ {
		gi := gi
		r := mon.NewRand(r0.U64())
		hist[gi] = make([][]revent, nv)
		c.Go(func() {
			for i := 0; i < ops; i++ {
				k := r.Intn(nv)
				v := vs[k]
				e := revent{g: gi}
				if r.Intn(3) == 0 {
					e.write, e.val = true, uint32(gi+1)<<16|uint32(i+1)
					var x uint32
					e.inv = atomic.AddInt64(&clock, 1)
					if r.Bool() {
						x, _ = v.id.Set(e.val)
					} else {
						x, _ = v.obj.Set(e.val)
					}
					e.ret = atomic.AddInt64(&clock, 1)
					c.Assert(x == e.val, "Set(%d) of %q gives %d", e.val, v.name, x)
				} else {
					var err error
					e.inv = atomic.AddInt64(&clock, 1)
					switch r.Intn(4) {
					case 0:
						e.val, err = v.id.Get()
					case 1:
						e.val, err = v.obj.Get()
					case 2:
						e.val = v.id.GetNoErr()
					default:
						e.val = v.obj.GetNoErr()
					}
					e.ret = atomic.AddInt64(&clock, 1)
					c.Assert(err == nil, "Get of %q: %v", v.name, err)
				}
				hist[gi][k] = append(hist[gi][k], e)
				if i%40 == 0 {
					_ = v.id.String()
					_, _ = v.obj.Name()
					_ = g.r.String()
				}
			}
		})
	}
	c.Wait()
	for k := range vs {
		var h []revent
		for gi := range hist {
			h = append(h, hist[gi][k]...)
		}
		atomicRegister(c, vs[k].name, h)
		vs[k].val, _ = vs[k].id.Get()
		vs[k].check(c, r0)
	}
	c.Eval(ng * ops)
}

// atomicRegister decides whether a history of unique writes (initially 0) and
// reads is linearizable, by the zones of Gibbons and Korach.
func atomicRegister(c *mon.Case, name string, h []revent) {
	type zone struct {
		val      uint32
		minRet   int64 // earliest end in the cluster
		maxInv   int64 // latest begin in the cluster
		winv     int64
		hasWrite bool
		reads    int
	}
	zs := map[uint32]*zone{0: {val: 0, minRet: 0, maxInv: 0, winv: -1, hasWrite: true}}
	for _, e := range h {
		if e.write {
			c.Assert(zs[e.val] == nil || !zs[e.val].hasWrite, "harness: a value was written twice")
		}
		z := zs[e.val]
		if z == nil {
			z = &zone{val: e.val, minRet: 1 << 62, maxInv: -1}
			zs[e.val] = z
		}
		if e.write {
			z.hasWrite, z.winv = true, e.inv
		} else {
			z.reads++
		}
		if e.ret < z.minRet {
			z.minRet = e.ret
		}
		if e.inv > z.maxInv {
			z.maxInv = e.inv
		}
	}
	overl := 0
	for _, e := range h {
		z := zs[e.val]
		c.Assert(z.hasWrite, "%s: a read gave %d, which nobody wrote", name, e.val)
		if !e.write {
			c.Assert(z.winv < e.ret, "%s: a read gave %#x before it was written", name, e.val)
		}
	}
	var fw, bw []*zone
	for _, z := range zs {
		if z.minRet < z.maxInv {
			fw = append(fw, z)
		} else {
			bw = append(bw, z)
			if z.val != 0 {
				overl++
			}
		}
	}
	sort.Slice(fw, func(i, j int) bool { return fw[i].minRet < fw[j].minRet })
	for i := 1; i < len(fw); i++ {
		c.Assert(fw[i-1].maxInv < fw[i].minRet, "%s: the reads of %#x and %#x cannot be ordered: a stale value came back", name, fw[i-1].val, fw[i].val)
	}
	for _, b := range bw {
		for _, f := range fw {
			c.Assert(!(f.minRet < b.maxInv && b.minRet < f.maxInv), "%s: %#x was written and done while %#x was read before and after", name, b.val, f.val)
		}
	}
	sort.Slice(h, func(i, j int) bool { return h[i].inv < h[j].inv })
	hh := mon.HashInit
	conc := 0
	var top int64
	for _, e := range h {
		hh = hh.Add(uint64(e.g))
		if e.inv < top {
			conc++
		}
		if e.ret > top {
			top = e.ret
		}
	}
	c.Seen(hh)
	c.Count("register events", len(h))
	c.Count("overlapping register events", conc)
}

// regFinish closes the registry: nothing can be registered any more.
func regFinish(c *mon.Case) {
	r := c.R
	if len(regers) == 0 {
		newReger(c, r)
	}
	g := regers[0]
	if len(g.vals) < g.max-2 && !closedR {
		_, p := g.reg(c, r)
		c.Assert(p == nil, "registration panicked: %v", p)
	}
	for i, k := 0, r.Range(1, 4); i < k; i++ {
		regable.FinishReg()
		closedR = true
		c.MustPanic("a registration after FinishReg", func() { g.r.MustReg("late", 1) })
	}
	n := len(g.vals)
	for i := 0; i < 8; i++ {
		x := regers[r.Intn(len(regers))]
		v, p := x.reg(c, r)
		c.Assert(p != nil, "a value was registered (%v) after FinishReg", v)
		c.MustPanic("NewUint32Reger after FinishReg", func() { regable.NewUint32Reger("late") })
		c.MustPanic("MustNewUint32Reger after FinishReg", func() { regable.MustNewUint32Reger("late") })
	}
	c.Assert(len(g.vals) == n, "harness")
	c.Assert(strings.Contains(regable.ShowAllRegs(), "true"), "ShowAllRegs does not show that the registry is closed")
	for _, g := range regers {
		for i := 0; i < len(g.vals); i += 7 + len(g.vals)/2000 {
			g.vals[i].check(c, r)
			g.vals[i].set(c, r)
			g.vals[i].check(c, r)
		}
		badId(c, regable.Uint32Id(regable.MakeRegedId(g.num, uint32(len(g.vals)+g.more+1))))
	}
	c.Count("closed registries", 1)
}

// regerFull uses up the numbers of regers.
func regerFull(c *mon.Case) {
	n := 0
	for {
		if p := mon.Panics(func() { newReger(c, c.R) }); p != nil {
			break
		}
		n++
		c.Assert(len(regers) <= 255, "%d regers were handed out, their number has 8 bits", len(regers))
		if c.R.Intn(4) == 0 || len(regers) > 250 {
			g := regers[len(regers)-1]
			v, p := g.reg(c, c.R)
			c.Assert(p == nil, "registration panicked: %v", p)
			v.check(c, c.R)
		}
	}
	c.Assert(len(regers) >= 250, "only %d regers can be made", len(regers))
	c.MustPanic("NewUint32Reger when the numbers are used up", func() { regable.NewUint32Reger("late") })
	for _, g := range regers {
		for i := 0; i < len(g.vals); i += 5 {
			g.vals[i].check(c, c.R)
		}
	}
	c.Max("regers", len(regers))
}

// regMany fills one reger far beyond 16 bits.
func regMany(c *mon.Case) {
	r := c.R
	g := regers[0]
	for _, x := range regers {
		if len(x.vals) > 0 && x.max > 0 {
			g = x
		}
	}
	if g.max == 0 {
		return
	}
	n := 1<<16 + r.Range(100, 5000)
	m, err := g.r.MaxReg(uint32(n))
	c.Assert(err == nil && m == uint32(n), "MaxReg(%d) gives %d, %v", n, m, err)
	g.max = n
	for len(g.vals) < n-2 {
		if c.Long() {
			return
		}
		_, p := g.reg(c, r)
		c.Assert(p == nil, "registration %d of %d panicked: %v", len(g.vals)+1, n, p)
	}
	for i := 0; i < 3000 && !c.Long(); i++ {
		v := g.vals[r.Intn(len(g.vals))]
		v.set(c, r)
	}
	for i, v := range g.vals {
		if c.Long() {
			return
		}
		if i%5 == 0 || i < 300 || i > len(g.vals)-300 || i&(i-1) == 0 {
			v.check(c, r)
		}
	}
	badId(c, regable.Uint32Id(regable.MakeRegedId(g.num, uint32(len(g.vals)+1))))
	g.listed(c)
	// and beyond 20 bits, without a model of each
	n = 1<<20 + r.Range(100, 5000)
	m, err = g.r.MaxReg(uint32(n))
	c.Assert(err == nil && m == uint32(n), "MaxReg(%d) gives %d, %v", n, m, err)
	last := g.vals[len(g.vals)-1].id
	for len(g.vals)+g.more < n-2 {
		if c.Long() {
			return
		}
		x := uint32(len(g.vals) + g.more)
		id := g.r.MustReg("n", x)
		g.more++
		c.Assert(id == last+1, "registration %d got the id %#x after %#x", x+1, uint32(id), uint32(last))
		last = id
		if x&(x-1) == 0 || x > uint32(n-300) || x%1000 == 0 {
			v := &rv{id, id.Oject(), "n", x}
			v.check(c, r)
		}
	}
	for i := 0; i < 300 && !c.Long(); i++ {
		g.vals[r.Intn(len(g.vals))].check(c, r)
	}
	badId(c, last+1)
	badId(c, last+2)
	c.Max("values in one reger", len(g.vals)+g.more)
}

// idParts: the two parts of an id never touch each other.
func idParts(c *mon.Case) {
	r := c.R
	for i := 0; i < 200; i++ {
		a, b := uint32(r.Intn(256)), r.U32()>>uint(r.Intn(25))
		id := regable.MakeRegedId(a, b)
		x, y := regable.Uint32Id(id).Ids()
		c.Assert(x == a && y == b&0xffffff, "the id made of (%d,%#x) is %#x, which has the parts (%d,%#x)", a, b, id, x, y)
		c.Eval(1)
		c.Seen(mon.HashInit.Add(uint64(id)))
	}
}

func init() {
	mon.Register(&mon.Prop{ID: "C39",
		Rule: "one evaluation = one value looked up through its id and its object, one refused id, or one concurrent register operation; distinct = distinct registry states and distinct interleavings of register operations",
		Sections: []mon.Section{
			{Name: "model", Quick: 150, Thorough: 600, Run: regSeq, CPU: 60},
			{Name: "full", Quick: 24, Thorough: 90, Run: regFull, CPU: 60},
			{Name: "atomic", Quick: 90, Thorough: 600, Run: regConc, CPU: 60},
			{Name: "regers", Quick: 1, Thorough: 1, Run: regerFull, CPU: 60},
			{Name: "parts", Quick: 10, Thorough: 1000, Run: idParts, CPU: 60},
			{Name: "many", Quick: 1, Thorough: 1, Run: regMany, CPU: 120},
			{Name: "finish", Quick: 3, Thorough: 3, Run: regFinish, CPU: 60},
		}})
}
