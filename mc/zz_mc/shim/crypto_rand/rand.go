package rand

import (
	"fmt"
	"io"
	"math/big"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { mcrt.RandBytes(b); return len(b), nil }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	b := make([]byte, len(max.Bytes())+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	x := new(big.Int).SetBytes(b)
	return x.Mod(x, max), nil
}

func Text() string {
	b := make([]byte, 13)
	mcrt.RandBytes(b)
	return fmt.Sprintf("%X", b)
}
