package verifsim

// Rand is a splitmix64 stream: the only source of randomness in the simulator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { r := &Rand{s: seed}; r.Next(); return r }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hash2(a, b uint64) uint64 {
	return mix(mix(a+0x9e3779b97f4a7c15) ^ (b*0xd6e8feb86659fd93 + 0x1234567))
}

func (r *Rand) Next() uint64 { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

func pick[T any](r *Rand, xs ...T) T { return xs[r.N(len(xs))] }

// Fork derives an independent stream.
func (r *Rand) Fork() *Rand { return NewRand(r.Next()) }

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func imin64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func imax64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// perm returns the numbers below n in some order.
func (r *Rand) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i], p[j] = p[j], i
	}
	return p
}
