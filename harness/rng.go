package main

// RNG is a splitmix64 generator: every random choice of a case comes from the
// value (seed, property, case index), so a case is replayable by its index.
type RNG struct{ s uint64 }

func NewRNG(parts ...uint64) *RNG {
	r := &RNG{s: 0x9E3779B97F4A7C15}
	for _, p := range parts {
		r.s ^= p
		r.s = r.next() ^ (r.s << 1)
	}
	return r
}

func (r *RNG) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *RNG) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability num/den.
func (r *RNG) P(num, den int) bool { return r.N(den) < num }

func pick[T any](r *RNG, xs []T) T { return xs[r.N(len(xs))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
