package main

import (
	_ "embed"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"

	gxmath "github.com/vipally/gx/math"
	"github.com/vipally/gx/math/cplx"
	"github.com/vipally/gx/math/prime"
	"vp/mon"
)

func edge32(r *mon.Rand) uint32 {
	switch r.Intn(6) {
	case 0:
		return uint32(r.Intn(5))
	case 1:
		return math.MaxUint32 - uint32(r.Intn(5))
	case 2:
		return uint32(1)<<uint(r.Intn(32)) + uint32(r.Intn(3)) - 1
	case 3:
		return uint32(r.Intn(1000))
	case 4: // around the square root of the range
		return uint32(65536 + r.Range(-3, 3))
	}
	return r.U32()
}

func edge64(r *mon.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(5))
	case 1:
		return math.MaxUint64 - uint64(r.Intn(5))
	case 2:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 3:
		return uint64(r.Intn(1000))
	case 4:
		return uint64(1)<<32 + uint64(r.Intn(7)) - 3
	}
	return r.U64()
}

//----------------------------------------------------------------------------
// C18 small numeric helpers

func bitsCase(c *mon.Case) {
	r := c.R
	v := edge32(r)
	var sum uint32
	for i := uint32(0); i < 32; i++ {
		b, err := gxmath.GetBit(v, i)
		if err != nil || b != uint32(bits.Reverse32(v)>>(31-i))&1 {
			c.Failf("GetBit(%#x,%d) = %d, %v", v, i, b, err)
		}
		sum |= b << i
	}
	if sum != v {
		c.Failf("the bits of %#x make %#x", v, sum)
	}
	for i := uint32(0); i < 4; i++ {
		b, err := gxmath.GetByte(v, i)
		if err != nil || b != uint32(byte(v>>(8*i))) {
			c.Failf("GetByte(%#x,%d) = %#x, %v", v, i, b, err)
		}
	}
	for i := uint32(0); i < 2; i++ {
		b, err := gxmath.GetWord(v, i)
		if err != nil || b != uint32(uint16(v>>(16*i))) {
			c.Failf("GetWord(%#x,%d) = %#x, %v", v, i, b, err)
		}
	}
	for _, i := range []uint32{2, 3, 4, 5, 7, 31, 32, 33, 63, 64, 255, 256, 1 << 31, math.MaxUint32, r.U32()} {
		if i >= 32 {
			if b, err := gxmath.GetBit(v, i); err == nil || b != 0 {
				c.Failf("GetBit(%#x,%d) = %d without an error", v, i, b)
			}
		}
		if i >= 4 {
			if b, err := gxmath.GetByte(v, i); err == nil || b != 0 {
				c.Failf("GetByte(%#x,%d) = %d without an error", v, i, b)
			}
		}
		if i >= 2 {
			if b, err := gxmath.GetWord(v, i); err == nil || b != 0 {
				c.Failf("GetWord(%#x,%d) = %d without an error", v, i, b)
			}
		}
	}
	c.Eval(50)
	c.Seen(mon.HashInit.Add(uint64(v)))
	c.Sample("bits, bytes and words of %#x", v)
}

func commaCase(c *mon.Case) {
	r := c.R
	v := edge64(r)
	if r.Chance(1, 3) { // around the powers of ten
		p := uint64(1)
		for k := r.Intn(20); k > 0; k-- {
			p *= 10
		}
		v = p + uint64(r.Intn(3)) - 1
		if r.Bool() {
			v = p * uint64(r.Intn(10))
		}
	}
	s := gxmath.Uint64(v).CommaString()
	if strings.Replace(s, ",", "", -1) != strconv.FormatUint(v, 10) {
		c.Failf("CommaString(%d) = %q has other digits", v, s)
	}
	f := strings.Split(s, ",")
	for i, g := range f {
		if len(g) == 0 || len(g) > 3 || i > 0 && len(g) != 3 {
			c.Failf("CommaString(%d) = %q is not grouped by three", v, s)
		}
	}
	a := int(r.U64())
	if r.Chance(1, 3) {
		a = r.Intn(3) - 1
	} else if r.Chance(1, 3) { // one bit set
		a = 1 << uint(r.Intn(64))
	}
	if gxmath.ItoB(a) != (a != 0) {
		c.Failf("ItoB(%d) = %v", a, a == 0)
	}
	for _, b := range []bool{true, false} {
		w := 0
		if b {
			w = 1
		}
		if gxmath.BToI(gxmath.Bool(b)) != w || gxmath.Bool(b).I() != w || gxmath.ItoB(gxmath.BToI(gxmath.Bool(b))) != b {
			c.Failf("bool %v converts to %d", b, gxmath.BToI(gxmath.Bool(b)))
		}
	}
	x := float64(int64(r.U64()>>20)) / 1024
	d := []float64{0, 1e-9, 5e-7, 9e-7, 1.1e-6, 2e-6, 1e-3, 1, 1e9}[r.Intn(9)]
	if math.Abs(x) > 1e6 {
		x = math.Mod(x, 1000)
	}
	y := x + d
	if r.Bool() {
		y = x - d
	}
	want := math.Abs(x-y) < 0.000001
	if gxmath.Equal(x, y) != want || gxmath.Equal(y, x) != want || !gxmath.Equal(x, x) {
		c.Failf("Equal(%v,%v) = %v, want %v", x, y, gxmath.Equal(x, y), want)
	}
	// exactly one millionth apart is not less than one millionth apart
	for _, e := range []float64{0.000001, math.Nextafter(0.000001, 0), math.Nextafter(0.000001, 1)} {
		for _, z := range []float64{e, -e} {
			if w := e < 0.000001; gxmath.Equal(0, z) != w || gxmath.Equal(z, 0) != w {
				c.Failf("Equal(0,%v) = %v, want %v", z, gxmath.Equal(0, z), w)
			}
		}
	}
	// far from zero and very close to it the distance is still an absolute one
	for k := 0; k < 4; k++ {
		p := math.Pow(10, float64(r.Range(-12, 18)))
		a := p * (1 + float64(r.Intn(1000))/250)
		if r.Bool() {
			a = -a
		}
		b := a * (1 + []float64{0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, -1e-15, -1e-12, -1e-9, -1e-6, -1e-3, 1, -1, -2}[r.Intn(14)])
		if r.Chance(1, 4) {
			b = a + []float64{1, -1, 1e-5, 1e-7, 100}[r.Intn(5)]
		}
		if dd := math.Abs(a - b); gxmath.Equal(a, b) != (dd < 0.000001) || gxmath.Equal(b, a) != (dd < 0.000001) {
			c.Failf("Equal(%v,%v) = %v, they differ by %v", a, b, gxmath.Equal(a, b), dd)
		}
		if inf := math.Inf(r.Intn(2)*2 - 1); gxmath.Equal(a, inf) || gxmath.Equal(inf, a) || gxmath.Equal(a, math.NaN()) {
			c.Failf("%v is Equal to an infinity or NaN", a)
		}
	}
	re, im := float32(x), float32(d)
	c64, c128 := cplx.Cplx64(complex(re, im)), cplx.Cplx128(complex(x, d))
	if c64.Real() != re || c64.Imag() != im || c128.Real() != x || c128.Imag() != d {
		c.Failf("real and imaginary parts of (%v,%v) come back as (%v,%v) and (%v,%v)", x, d, c64.Real(), c64.Imag(), c128.Real(), c128.Imag())
	}
	c.Seen(mon.HashInit.Add(v))
	c.Sample("%d -> %q", v, s)
}

//----------------------------------------------------------------------------
// C19 ranged integers

// ranged adapts both widths to big arithmetic.
type ranged struct {
	name                    string
	width                   uint64 // largest representable value
	newR                    func(v, lo, hi uint64) error
	add, sub, mul, div, mod func(uint64) (uint64, error)
	inc, dec                func() (uint64, error)
	set                     func(uint64) (uint64, error)
	init                    func(v, lo, hi uint64) error
	reset, resetR           func() bool
	get                     func() (v, lo, hi uint64)
	val, min, max           func() uint64
	inRange, inCur          func(uint64) bool
	text                    func() string
}

func ranged32() *ranged {
	p := &gxmath.RangeUint32{}
	x := &ranged{name: "RangeUint32", width: math.MaxUint32}
	w := func(f func(uint32) (uint32, error)) func(uint64) (uint64, error) {
		return func(a uint64) (uint64, error) { r, e := f(uint32(a)); return uint64(r), e }
	}
	x.newR = func(v, lo, hi uint64) error {
		q, err := gxmath.NewRangeUint32(uint32(v), uint32(lo), uint32(hi))
		if (q == nil) != (err != nil) {
			return fmt.Errorf("INCONSISTENT: object %v with error %v", q, err)
		}
		if q != nil {
			p = q
		}
		return err
	}
	x.add = func(a uint64) (uint64, error) { return w(p.Add)(a) }
	x.sub = func(a uint64) (uint64, error) { return w(p.Sub)(a) }
	x.mul = func(a uint64) (uint64, error) { return w(p.Mul)(a) }
	x.div = func(a uint64) (uint64, error) { return w(p.Div)(a) }
	x.mod = func(a uint64) (uint64, error) { return w(p.Mod)(a) }
	x.set = func(a uint64) (uint64, error) { return w(p.Set)(a) }
	x.inc = func() (uint64, error) { r, e := p.Inc(); return uint64(r), e }
	x.dec = func() (uint64, error) { r, e := p.Dec(1); return uint64(r), e }
	x.init = func(v, lo, hi uint64) error { return p.Init(uint32(v), uint32(lo), uint32(hi)) }
	x.reset = func() bool { return p.Reset() }
	x.resetR = func() bool { return p.ResetR() }
	x.get = func() (uint64, uint64, uint64) { a, b, d := p.Get(); return uint64(a), uint64(b), uint64(d) }
	x.val = func() uint64 { return uint64(p.Val()) }
	x.min = func() uint64 { return uint64(p.Min()) }
	x.max = func() uint64 { return uint64(p.Max()) }
	x.inRange = func(a uint64) bool { return p.InRange(uint32(a)) }
	x.inCur = func(a uint64) bool { return p.InCurrentRange(uint32(a)) }
	x.text = func() string { return p.String() }
	return x
}

func ranged64() *ranged {
	p := &gxmath.RangeUInt64{}
	x := &ranged{name: "RangeUInt64", width: math.MaxUint64}
	x.newR = func(v, lo, hi uint64) error {
		q, err := gxmath.NewRangeUInt64(v, lo, hi)
		if (q == nil) != (err != nil) {
			return fmt.Errorf("INCONSISTENT: object %v with error %v", q, err)
		}
		if q != nil {
			p = q
		}
		return err
	}
	x.add = func(a uint64) (uint64, error) { return p.Add(a) }
	x.sub = func(a uint64) (uint64, error) { return p.Sub(a) }
	x.mul = func(a uint64) (uint64, error) { return p.Mul(a) }
	x.div = func(a uint64) (uint64, error) { return p.Div(a) }
	x.mod = func(a uint64) (uint64, error) { return p.Mod(a) }
	x.set = func(a uint64) (uint64, error) { return p.Set(a) }
	x.inc = func() (uint64, error) { return p.Inc() }
	x.dec = func() (uint64, error) { return p.Dec(1) }
	x.init = func(v, lo, hi uint64) error { return p.Init(v, lo, hi) }
	x.reset = func() bool { return p.Reset() }
	x.resetR = func() bool { return p.ResetR() }
	x.get = func() (uint64, uint64, uint64) { return p.Get() }
	x.val = func() uint64 { return p.Val() }
	x.min = func() uint64 { return p.Min() }
	x.max = func() uint64 { return p.Max() }
	x.inRange = func(a uint64) bool { return p.InRange(a) }
	x.inCur = func(a uint64) bool { return p.InCurrentRange(a) }
	x.text = func() string {
		return fmt.Sprintf("RangeUint32{val:%d min:%d max:%d}", p.Val(), p.Min(), p.Max())
	}
	return x
}

func rangeCase(c *mon.Case, mk func() *ranged) {
	r := c.R
	x := mk()
	edge := func() uint64 {
		if x.width == math.MaxUint32 {
			return uint64(edge32(r))
		}
		return edge64(r)
	}
	var v, lo, hi uint64
	okRange := func(a, b, d uint64) bool { return b <= d && a >= b && a <= d }
	made := false
	h := mon.HashInit.Str(x.name)
	check := func(what string) {
		a, b, d := x.get()
		if a != v || b != lo || d != hi || x.val() != v || x.min() != lo || x.max() != hi {
			c.Failf("%s after %s: (%d,%d,%d), want (%d,%d,%d)", x.name, what, a, b, d, v, lo, hi)
		}
		if a < b || a > d {
			c.Failf("%s after %s: the value %d left [%d,%d]", x.name, what, a, b, d)
		}
	}
	ops := r.Range(5, 40)
	for k := 0; k < ops; k++ {
		a := edge()
		switch r.Intn(4) { // near the limits
		case 0:
			a = hi - v + uint64(r.Intn(3)) - 1
		case 1:
			a = v - lo + uint64(r.Intn(3)) - 1
		}
		a &= x.width
		op := r.Intn(13)
		if !made {
			op = 0
		}
		h = h.Add(uint64(op)).Add(a)
		if c.Tracing {
			c.Logf("(%d in [%d,%d]) op %d arg %d", v, lo, hi, op, a)
		}
		switch op {
		case 0, 1:
			nv, nl, nh := edge(), edge(), edge()
			if r.Chance(3, 4) && nl > nh {
				nl, nh = nh, nl
			}
			if r.Chance(3, 4) && nl <= nh {
				nv = nl
				if d := nh - nl; d > 0 {
					nv = nl + r.U64()%d
				}
				switch r.Intn(3) {
				case 0:
					nv = nh
				case 1:
					nv = nl
				}
			}
			if r.Chance(1, 6) { // the widest range, at one of its ends
				nl, nh, nv = 0, x.width, x.width*uint64(r.Intn(2))
			}
			var err error
			if op == 0 {
				err = x.newR(nv, nl, nh)
			} else {
				err = x.init(nv, nl, nh)
			}
			if err != nil && strings.HasPrefix(err.Error(), "INCONSISTENT") {
				c.Failf("%s: %v", x.name, err)
			}
			if (err == nil) != okRange(nv, nl, nh) {
				c.Failf("%s of %d in [%d,%d]: %v", x.name, nv, nl, nh, err)
			}
			if err == nil {
				v, lo, hi, made = nv, nl, nh, true
			}
			if made {
				check("New/Init")
			}
		case 2, 3, 4, 5, 6:
			var g uint64
			var err error
			B, A := new(big.Int).SetUint64(v), new(big.Int).SetUint64(a)
			valid := true
			name := []string{"Add", "Sub", "Mul", "Div", "Mod"}[op-2]
			switch op {
			case 2:
				g, err = x.add(a)
				B.Add(B, A)
			case 3:
				g, err = x.sub(a)
				B.Sub(B, A)
			case 4:
				g, err = x.mul(a)
				B.Mul(B, A)
			case 5:
				g, err = x.div(a)
				if valid = a != 0; valid {
					B.Quo(B, A)
				}
			case 6:
				g, err = x.mod(a)
				if valid = a != 0; valid {
					B.Rem(B, A)
				}
			}
			L, H := new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi)
			valid = valid && B.Cmp(L) >= 0 && B.Cmp(H) <= 0
			if (err == nil) != valid {
				c.Failf("%s{%d in [%d,%d]}.%s(%d): error %v, the exact result is %v", x.name, v, lo, hi, name, a, err, B)
			}
			if valid && g != B.Uint64() {
				c.Failf("%s{%d in [%d,%d]}.%s(%d) = %d, want %v", x.name, v, lo, hi, name, a, g, B)
			}
			check(name)
		case 7:
			g, err := x.inc()
			if (err == nil) != (v < hi) || err == nil && g != v {
				c.Failf("%s{%d in [%d,%d]}.Inc = %d, %v", x.name, v, lo, hi, g, err)
			}
			if err == nil {
				v++
			}
			check("Inc")
		case 8:
			g, err := x.dec()
			if (err == nil) != (v > lo) || err == nil && g != v {
				c.Failf("%s{%d in [%d,%d]}.Dec = %d, %v", x.name, v, lo, hi, g, err)
			}
			if err == nil {
				v--
			}
			check("Dec")
		case 9:
			g, err := x.set(a)
			if in := a >= lo && a <= hi; (err == nil) != in || g != v {
				c.Failf("%s{%d in [%d,%d]}.Set(%d) = %d, %v", x.name, v, lo, hi, a, g, err)
			}
			if err == nil {
				v = a
			}
			check("Set")
		case 10:
			if r.Bool() {
				if !x.reset() {
					c.Failf("%s.Reset reported failure", x.name)
				}
				v = lo
			} else {
				if !x.resetR() {
					c.Failf("%s.ResetR reported failure", x.name)
				}
				v = hi
			}
			check("Reset")
		default:
			for _, q := range []uint64{a, lo, hi, v, (lo - 1) & x.width, (hi + 1) & x.width, (v + 1) & x.width} {
				if x.inRange(q) != (q >= lo && q <= hi) || x.inCur(q) != (q >= lo && q <= v) {
					c.Failf("%s{%d in [%d,%d]}: InRange(%d)=%v InCurrentRange=%v", x.name, v, lo, hi, q, x.inRange(q), x.inCur(q))
				}
			}
			if s := x.text(); s != fmt.Sprintf("RangeUint32{val:%d min:%d max:%d}", v, lo, hi) {
				c.Failf("%s as text: %s", x.name, s)
			}
		}
		c.Count(fmt.Sprintf("op %d", op), 1)
	}
	c.Eval(ops)
	c.Seen(h)
	c.Sample("%s: %d operations ending with %d in [%d,%d]", x.name, ops, v, lo, hi)
}

//----------------------------------------------------------------------------
// C20 square root, C21 primes

// Every composite below 2^32 that is a strong pseudoprime to base 2, or a Fermat
// pseudoprime to base 2 and a strong one to base 3, or a Carmichael number.
//
//go:embed pseudoprimes.txt
var pseudoprimes string

// refRoot is the nearest integer to the square root: k for v in [k*k-k+1, k*k+k].
func refRoot(v uint32) uint32 {
	k := uint64(math.Sqrt(float64(v)))
	for k*k > uint64(v) {
		k--
	}
	for (k+1)*(k+1) <= uint64(v) {
		k++
	}
	if uint64(v)-k*k > k {
		k++
	}
	return uint32(k)
}

func sqrtCheck(c *mon.Case, v uint32) {
	if g := prime.SqrtUint32(v); g != refRoot(v) {
		c.Failf("SqrtUint32(%d) = %d, want %d", v, g, refRoot(v))
	}
}

var sieveBits []uint64

// sieve marks the composites below 2^22 (built once per process).
const sieveMax = 1 << 22

func sieve() []uint64 {
	if sieveBits == nil {
		s := make([]uint64, sieveMax/64)
		set := func(i int) { s[i/64] |= 1 << uint(i%64) }
		set(0)
		set(1)
		for i := 2; i*i < sieveMax; i++ {
			if s[i/64]>>uint(i%64)&1 == 0 {
				for j := i * i; j < sieveMax; j += i {
					set(j)
				}
			}
		}
		sieveBits = s
	}
	return sieveBits
}

func smallPrime(n uint32) bool { return sieve()[n/64]>>uint(n%64)&1 == 0 }

// refPrime: Miller-Rabin with the bases 2, 7, 61 is exact below 2^32.
func refPrime(n uint32) bool {
	if n < sieveMax {
		return smallPrime(n)
	}
	if n%2 == 0 {
		return false
	}
	d, s := n-1, 0
	for d%2 == 0 {
		d /= 2
		s++
	}
	for _, a := range []uint64{2, 7, 61} {
		x, b, e := uint64(1), a%uint64(n), d
		for ; e > 0; e >>= 1 {
			if e&1 == 1 {
				x = x * b % uint64(n)
			}
			b = b * b % uint64(n)
		}
		if x == 1 || x == uint64(n)-1 {
			continue
		}
		comp := true
		for i := 1; i < s; i++ {
			if x = x * x % uint64(n); x == uint64(n)-1 {
				comp = false
				break
			}
		}
		if comp {
			return false
		}
	}
	return true
}

// segment tells the composites (and 0, 1) among the 2^20 numbers from lo on.
func segment(lo uint64) []bool {
	comp := make([]bool, 1<<20)
	for p := uint64(2); p < 1<<16; p++ {
		if !smallPrime(uint32(p)) {
			continue
		}
		f := (lo + p - 1) / p * p
		if f < p*p {
			f = p * p
		}
		for ; f < lo+1<<20; f += p {
			comp[f-lo] = true
		}
	}
	if lo == 0 {
		comp[0], comp[1] = true, true
	}
	return comp
}

func primeCheck(c *mon.Case, n uint32) {
	if g := prime.IsPrime(n); g != refPrime(n) {
		c.Failf("IsPrime(%d) = %v", n, g)
	}
}

func init() {
	mon.Register(&mon.Prop{ID: "C18",
		Rule: "edge-biased values through bit, byte and word access with indices inside and outside, digit grouping around every power of ten, and the bool, float and complex helpers; distinct = distinct value",
		Sections: []mon.Section{
			{Name: "bits", Quick: 6000, Thorough: 300000, Run: bitsCase},
			{Name: "comma", Quick: 20000, Thorough: 1000000, Run: commaCase},
		}})
	mon.Register(&mon.Prop{ID: "C19",
		Rule: "random histories of 5..40 operations of both widths with arguments biased to the limits of the range and of the type, against arbitrary-precision arithmetic; distinct = distinct operation sequence",
		Sections: []mon.Section{
			{Name: "range32", Quick: 8000, Thorough: 400000, Run: func(c *mon.Case) { rangeCase(c, ranged32) }},
			{Name: "range64", Quick: 8000, Thorough: 400000, Run: func(c *mon.Case) { rangeCase(c, ranged64) }},
		}})
	mon.Register(&mon.Prop{ID: "C20",
		Rule: "for every root k of the 32-bit range the values k*k-1, k*k, k*k+1, k*k+k-1, k*k+k, k*k+k+1, and contiguous ranges and random values (thorough: every value below 2^32); distinct = root blocks and random values",
		Sections: []mon.Section{
			{Name: "roots", Quick: 256, Thorough: 256, Run: func(c *mon.Case) {
				for k := uint64(c.Idx) * 256; k < uint64(c.Idx+1)*256; k++ {
					for _, v := range []uint64{k*k - 1, k * k, k*k + 1, k*k + k - 1, k*k + k, k*k + k + 1, (k+1)*(k+1) - 1} {
						if v <= math.MaxUint32 {
							sqrtCheck(c, uint32(v))
						}
					}
					c.Seen(mon.HashInit.Add(k))
				}
				c.Eval(256 * 7)
				c.Sample("the borders of the roots %d..%d", c.Idx*256, c.Idx*256+255)
			}},
			{Name: "random", Quick: 200, Thorough: 2000, Run: func(c *mon.Case) {
				for i := 0; i < 5000; i++ {
					v := edge32(c.R)
					sqrtCheck(c, v)
					c.Seen(mon.HashInit.Add(uint64(v) << 20))
				}
				c.Eval(5000)
			}},
			{Name: "blocks", Quick: 40, Thorough: 4096, CPU: 120, Run: func(c *mon.Case) {
				lo := uint64(c.Idx) << 20
				if !c.Thorough() {
					switch c.Idx {
					case 0, 1:
					case 2:
						lo = 4095 << 20
					default:
						lo = uint64(c.R.Intn(4096)) << 20
					}
					for v := lo; v < lo+1<<20; v += 1 {
						sqrtCheck(c, uint32(v))
						if c.Idx > 2 {
							v += 2
						}
					}
				} else {
					for v := lo; v < lo+1<<20; v++ {
						sqrtCheck(c, uint32(v))
					}
				}
				c.Eval(1 << 18)
			}},
		}})
	mon.Register(&mon.Prop{ID: "C21",
		Rule: "every number below 2^22, p*p and p*q for every prime p below 2^16 and its neighbours q, p*r for random primes r, every square of the range and numbers beside it, whole blocks of 2^20 numbers (thorough: all 4096, i.e. every number below 2^32), the top of the range and random numbers, against a sieve and a deterministic Miller-Rabin test; distinct = numbers examined outside the sieve, by block inside",
		Sections: []mon.Section{
			{Name: "sieve", Quick: 64, Thorough: 64, Run: func(c *mon.Case) {
				step := sieveMax / 64
				for n := c.Idx * step; n < (c.Idx+1)*step; n++ {
					primeCheck(c, uint32(n))
				}
				c.Eval(step)
				c.Seen(mon.HashInit.Add(uint64(c.Idx)))
				c.Sample("every number in [%d,%d)", c.Idx*step, (c.Idx+1)*step)
			}},
			{Name: "products", Quick: 64, Thorough: 64, CPU: 60, Run: func(c *mon.Case) {
				for p := uint32(c.Idx) * 1024; p < uint32(c.Idx+1)*1024; p++ {
					if !smallPrime(p) {
						continue
					}
					seen := func(v uint64) {
						if v <= math.MaxUint32 {
							primeCheck(c, uint32(v))
							c.Seen(mon.HashInit.Add(v << 8))
							c.Eval(1)
						}
					}
					seen(uint64(p) * uint64(p))
					seen(uint64(p)*uint64(p) + 2)
					seen(uint64(p)*uint64(p) - 2)
					k := 0
					for q := p + 1; k < 6 && q < p+400; q++ {
						if smallPrime(q) {
							seen(uint64(p) * uint64(q))
							k++
						}
					}
					for k = 0; k < 10; k++ {
						q := uint32(c.R.Intn(1 << 22))
						if m := math.MaxUint32 / uint64(p); uint64(q) > m {
							q = uint32(uint64(q) % (m + 1))
						}
						seen(uint64(p) * uint64(q))
					}
				}
				c.Sample("products of the primes in [%d,%d)", c.Idx*1024, (c.Idx+1)*1024)
			}},
			{Name: "pseudoprimes", Quick: 8, Thorough: 8, Exhaustive: true, Run: func(c *mon.Case) {
				// what a Fermat or Miller-Rabin test with a wrong choice of bases takes for prime
				for i, f := range strings.Fields(pseudoprimes) {
					if i%8 == c.Idx {
						n, _ := strconv.ParseUint(f, 10, 32)
						if prime.IsPrime(uint32(n)) {
							c.Failf("IsPrime(%d) = true, a pseudoprime", n)
						}
						c.Eval(1)
						c.Seen(mon.HashInit.Add(n << 8))
					}
				}
				c.Sample("pseudoprimes to the bases 2 and 3, Carmichael numbers")
			}},
			{Name: "squares", Quick: 64, Thorough: 64, CPU: 60, Run: func(c *mon.Case) {
				for k := uint64(c.Idx) * 1024; k < uint64(c.Idx+1)*1024; k++ {
					for _, v := range []uint64{k * k, k*k - 1, k*k - 2, k*k + 1, k*k + 2, k*k + 4, k*k - 4, k * (k + 2), k * (k + 4), k * (k + 6), k*k + k + 1, k*k + k - 1} {
						if v <= math.MaxUint32 {
							primeCheck(c, uint32(v))
						}
					}
				}
				c.Eval(1024 * 12)
				c.Seen(mon.HashInit.Add(uint64(c.Idx)).Str("squares"))
				c.Sample("at and around the squares of %d..%d", c.Idx*1024, c.Idx*1024+1023)
			}},
			{Name: "blocks", Quick: 8, Thorough: 4096, CPU: 120, Run: func(c *mon.Case) {
				// every number of a block of 2^20 against a segmented sieve
				b := c.Idx
				if !c.Thorough() {
					if b = c.R.Intn(4096); c.Idx == 0 {
						b = 4095
					}
				}
				lo := uint64(b) << 20
				comp := segment(lo)
				for i := range comp {
					if g := prime.IsPrime(uint32(lo) + uint32(i)); g == comp[i] {
						c.Failf("IsPrime(%d) = %v", lo+uint64(i), g)
					}
				}
				c.Eval(1 << 20)
				c.Seen(mon.HashInit.Add(uint64(b)).Str("block"))
				c.Sample("every number in [%d,%d)", lo, lo+1<<20)
			}},
			{Name: "top", Quick: 8, Thorough: 200, Run: func(c *mon.Case) {
				for i := 0; i < 5000; i++ {
					n := uint32(math.MaxUint32 - c.Idx*5000 - i)
					primeCheck(c, n)
					c.Seen(mon.HashInit.Add(uint64(n) << 8))
				}
				c.Eval(5000)
				c.Sample("the numbers down from %d", math.MaxUint32-c.Idx*5000)
			}},
			{Name: "random", Quick: 60, Thorough: 40000, Run: func(c *mon.Case) {
				for i := 0; i < 2000; i++ {
					n := edge32(c.R)
					primeCheck(c, n)
					c.Seen(mon.HashInit.Add(uint64(n) << 8))
				}
				c.Eval(2000)
			}},
		}})
}
