// Package sha256 is the real SHA-256, except for outputs the harness has chosen: it stands in for the work of
// finding a block that beats a hard target.
package sha256

import (
	real "crypto/sha256"
	"hash"
)

var (
	chosen = map[[Size]byte][Size]byte{}
	last   [Size]byte
	record bool
)

func Sum256(data []byte) [Size]byte {
	if len(data) == Size && (record || len(chosen) > 0) {
		k := [Size]byte(data)
		if record {
			last = k
		}
		if v, ok := chosen[k]; ok {
			return v
		}
	}
	return real.Sum256(data)
}

// Choose makes val the result of the last hash that f computes of a hash.
func Choose(f func(), val [Size]byte) {
	record, last = true, [Size]byte{}
	f()
	record = false
	chosen[last] = val
}

type digest struct{ b []byte }

func New() hash.Hash { return &digest{} }

func (d *digest) Write(p []byte) (int, error) { d.b = append(d.b, p...); return len(p), nil }
func (d *digest) Sum(b []byte) []byte         { s := Sum256(d.b); return append(b, s[:]...) }
func (d *digest) Reset()                      { d.b = nil }
func (d *digest) Size() int                   { return Size }
func (d *digest) BlockSize() int              { return BlockSize }
