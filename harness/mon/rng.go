package mon

import "math/bits"

// Rng is the harness's own generator, so that the case list is the same on
// every Go version.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// In returns a value in [lo,hi].
func (r *Rng) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

func (r *Rng) Bool() bool { return r.U64()>>63 == 1 }

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Hash is FNV-1a over strings and numbers, with a final mix.
type Hash uint64

func NewHash() Hash { return 14695981039346656037 }
func (h Hash) Str(s string) Hash {
	for i := 0; i < len(s); i++ {
		h = (h ^ Hash(s[i])) * 1099511628211
	}
	return h.U(uint64(len(s)))
}
func (h Hash) U(x uint64) Hash {
	z := uint64(h) ^ x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return Hash(z ^ (z >> 31) + 0x9e3779b97f4a7c15)
}
func (h Hash) I(x int) Hash { return h.U(uint64(x)) }
