package zrt

// RNG is a splitmix64 generator: tiny, and the same on every platform and Go
// version, so that a seed means the same run forever.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *RNG) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Intn returns a number in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

func (r *RNG) Int63n(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.Uint64() % uint64(n))
}

// Chance is true with probability p.
func (r *RNG) Chance(p float64) bool {
	return float64(r.Uint64()>>11)/(1<<53) < p
}

// LogN returns a number in [1,n], log-uniformly distributed.
func (r *RNG) LogN(n int64) int64 {
	bits := 0
	for int64(1)<<uint(bits) <= n {
		bits++
	}
	for {
		b := r.Intn(bits)
		v := int64(1)<<uint(b) + r.Int63n(int64(1)<<uint(b))
		if v <= n {
			return v
		}
	}
}

func (r *RNG) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

var outside = NewRNG(1)

// MiscUint64 is a number for whoever asks for a random one.
func MiscUint64() uint64 {
	if S == nil {
		return outside.Uint64()
	}
	return S.misc.Uint64()
}
