package main

import "simrt"

// Rng is the only source of randomness in the harness (splitmix64).
type Rng struct{ s uint64 }

func NewRng(seed uint64, salt string) *Rng {
	h := uint64(14695981039346656037)
	for i := 0; i < len(salt); i++ {
		h = (h ^ uint64(salt[i])) * 1099511628211
	}
	return &Rng{simrt.Mix(seed*0x9e3779b97f4a7c15 ^ h)}
}
func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return simrt.Mix(r.s)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *Rng) Bool(pct int) bool    { return r.N(100) < pct }
func (r *Rng) Between(a, b int) int { return a + r.N(b-a+1) }

// Pick draws an index with the given weights.
func (r *Rng) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Geo draws from a geometric-like distribution with the given mean, >= 1.
func (r *Rng) Geo(mean int) int {
	if mean <= 1 {
		return 1
	}
	n := 1
	for r.N(mean) != 0 && n < mean*8 {
		n++
	}
	return n
}
