package main

// rng is the only source of randomness of the harness (splitmix64).
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number in [0, n).
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// in returns a number in [a, b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p is true with probability num/den.
func (r *rng) p(num, den int) bool { return r.n(den) < num }

func (r *rng) pick(s ...string) string { return s[r.n(len(s))] }

// pickW picks an index with the given weights.
func (r *rng) pickW(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

func (r *rng) fork() *rng { return newRng(r.u64()) }
