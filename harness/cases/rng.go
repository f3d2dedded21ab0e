// Package cases defines test cases, their generation primitives and their JSON form.
// It does not import the code under test.
package cases

// Rng is a splitmix64 generator: the only source of randomness in the harness.
type Rng struct{ s uint64 }

// Mix is a strong 64-bit mixer.
func Mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// Mix2 is a second mixer, independent of Mix.
func Mix2(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

// NewRng seeds a generator from any number of parts.
func NewRng(parts ...uint64) *Rng {
	s := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		s = Mix(s+0x9e3779b97f4a7c15) ^ Mix2(p+0x632be59bd9b4e019)
	}
	return &Rng{s}
}

// HashStr maps a string to a seed part.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

// Intn returns a value in [0,n), 0 if n <= 1.
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *Rng) Range(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.Intn(b-a+1)
}

// P returns true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.Intn(100) < pct }

func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Pick returns one of the arguments.
func Pick[T any](r *Rng, v ...T) T { return v[r.Intn(len(v))] }

// Perm returns a random permutation of 0..n-1.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
