package rand

import (
	rr "math/rand"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

// Small random picks are environment decisions; others come from the deterministic source.
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if n <= 8 {
		return mcrt.ChooseEnv(n)
	}
	return int(mcrt.Rand64() % uint64(n))
}
func IntN(n int) int             { return Intn(n) }
func Int63n(n int64) int64       { return int64(mcrt.Rand64() % uint64(n)) }
func Int31n(n int32) int32       { return int32(mcrt.Rand64() % uint64(n)) }
func Int63() int64               { return int64(mcrt.Rand64() >> 1) }
func Int() int                   { return int(mcrt.Rand64() >> 1) }
func Uint32() uint32             { return uint32(mcrt.Rand64()) }
func Uint64() uint64             { return mcrt.Rand64() }
func Float64() float64           { return float64(mcrt.Rand64()>>11) / (1 << 53) }
func Seed(int64)                 {}
func Read(b []byte) (int, error) { mcrt.RandBytes(b); return len(b), nil }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}

type Rand struct{ *rr.Rand }
type Source = rr.Source

func NewSource(seed int64) Source { return rr.NewSource(seed) }
func New(s Source) *Rand          { return &Rand{rr.New(rr.NewSource(int64(mcrt.Rand64() >> 1)))} }
