package mon

import "math/bits"

// Rand is a splitmix64 stream. Every random choice of every workload comes from
// one of these, seeded from (VERIF_SEED, property, section, case index).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) U32() uint32 { return uint32(r.U64() >> 32) }

// Intn returns a number in [0,n); n<=0 gives 0.
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

func (r *Rand) Bool() bool { return r.U64()>>63 == 1 }

// Chance is true with probability num/den.
func (r *Rand) Chance(num, den int) bool { return r.Intn(den) < num }

// Size draws a size on several scales: mostly small, sometimes near a power of
// two, sometimes up to max.
func (r *Rand) Size(max int) int {
	var n int
	switch r.Intn(8) {
	case 0, 1, 2:
		n = r.Intn(9)
	case 3, 4:
		n = r.Intn(65)
	case 5:
		n = (1 << uint(r.Intn(15))) + r.Range(-2, 2)
	case 6:
		n = r.Intn(max/4 + 1)
	default:
		n = r.Intn(max + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

// Sizes is Size, but one draw in den goes up to big.
func (r *Rand) Sizes(max, den, big int) int {
	if r.Intn(den) == 0 {
		if r.Bool() {
			n := 1 << uint(r.Intn(bits.Len(uint(big))))
			switch r.Intn(4) {
			case 0, 1:
				return n + r.Range(0, 2)
			case 2: // a multiple of it, less at most a few blocks
				n *= r.Range(1, 3)
				fallthrough
			default:
				if n += r.Range(-24, 16); n < 0 {
					n = 0
				}
			}
			return n
		}
		return r.Intn(big + 1)
	}
	return r.Size(max)
}

// Bytes fills a new slice of n bytes.
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Fill(b)
	return b
}

func (r *Rand) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.U64()
		for j := i; j < len(b) && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// Hash helpers (FNV-1a over words) used to count distinct observed states.
type Hash uint64

const HashInit Hash = 14695981039346656037

func (h Hash) Add(v uint64) Hash { return Hash(Mix(uint64(h) ^ v)) }

func (h Hash) Str(s string) Hash {
	x := uint64(h)
	for i := 0; i < len(s); i++ {
		x = (x ^ uint64(s[i])) * 1099511628211
	}
	return Hash(Mix(x ^ uint64(len(s))))
}

func (h Hash) Bytes(s []byte) Hash {
	x := uint64(h)
	for i := 0; i < len(s); i++ {
		x = (x ^ uint64(s[i])) * 1099511628211
	}
	return Hash(Mix(x ^ uint64(len(s))))
}
