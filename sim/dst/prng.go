package main

// rng is splitmix64: every generated choice of a run comes from one of these.
type rng struct {
	s   uint64
	ctl bool // cells may hold line breaks
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *rng) u64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rng) in(lo, hi int) int   { return lo + r.n(hi-lo+1) }
func (r *rng) p(num, den int) bool { return r.n(den) < num }

func pick[T any](r *rng, xs ...T) T { return xs[r.n(len(xs))] }

func hashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}
