package main

// RNG is the only source of randomness of the simulator (splitmix64).
type RNG struct{ s uint64 }

func newRNG(seed uint64) *RNG { return &RNG{seed} }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func hash2(a, b uint64) uint64 { return mix64(mix64(a+0x9E3779B97F4A7C15) ^ (b * 0xD6E8FEB86659FD93)) }

func hashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func (r *RNG) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix64(r.s)
}

// n returns a number in [0,k).
func (r *RNG) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.next() % uint64(k))
}

// in returns a number in [a,b].
func (r *RNG) in(a, b int) int { return a + r.n(b-a+1) }

func (r *RNG) p(pct int) bool { return r.n(100) < pct }

func (r *RNG) pickS(xs ...string) string { return xs[r.n(len(xs))] }

func (r *RNG) pick(xs ...int) int { return xs[r.n(len(xs))] }

// weighted returns an index with probability proportional to its weight.
func (r *RNG) weighted(ws []int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	if t == 0 {
		return 0
	}
	x := r.n(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}

func (r *RNG) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.n(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
