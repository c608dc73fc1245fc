package ecdsa

import (
	"crypto"
	re "crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/binary"
	"io"
	"math/big"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

type PrivateKey = re.PrivateKey
type PublicKey = re.PublicKey

// GenerateKey returns the next key of a fixed sequence.
func GenerateKey(c elliptic.Curve, rand io.Reader) (*PrivateKey, error) {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], mcrt.KeyCounter())
	h := sha256.Sum256(b[:])
	return keyFromScalar(c, h[:])
}

var keyCache = map[string]*PrivateKey{}

func keyFromScalar(c elliptic.Curve, h []byte) (*PrivateKey, error) {
	k := c.Params().Name + string(h)
	if p, ok := keyCache[k]; ok {
		return p, nil
	}
	d := new(big.Int).SetBytes(h)
	n := new(big.Int).Sub(c.Params().N, big.NewInt(1))
	d.Mod(d, n)
	d.Add(d, big.NewInt(1))
	p := new(PrivateKey)
	p.Curve = c
	p.D = d
	p.X, p.Y = c.ScalarBaseMult(d.FillBytes(make([]byte, (c.Params().N.BitLen()+7)/8)))
	keyCache[k] = p
	return p, nil
}

var sigCache = map[string][]byte{}

// SignASN1 signs deterministically (RFC 6979).
func SignASN1(rand io.Reader, priv *PrivateKey, hash []byte) ([]byte, error) {
	k := priv.D.String() + string(hash)
	if s, ok := sigCache[k]; ok {
		return append([]byte(nil), s...), nil
	}
	var opts crypto.SignerOpts = crypto.SHA256
	if len(hash) != 32 {
		opts = crypto.SHA512
		h := make([]byte, 64)
		copy(h, hash)
		hash = h
	}
	s, err := priv.Sign(nil, hash, opts)
	if err == nil {
		sigCache[k] = append([]byte(nil), s...)
	}
	return s, err
}

func Sign(rand io.Reader, priv *PrivateKey, hash []byte) (r, s *big.Int, err error) {
	panic("mc: ecdsa.Sign not supported")
}

var verCache = map[string]bool{}

func VerifyASN1(pub *PublicKey, hash, sig []byte) bool {
	k := pub.X.String() + "|" + string(hash) + "|" + string(sig)
	if v, ok := verCache[k]; ok {
		return v
	}
	v := re.VerifyASN1(pub, hash, sig)
	if len(verCache) > 200000 {
		verCache = map[string]bool{}
	}
	verCache[k] = v
	return v
}

func Verify(pub *PublicKey, hash []byte, r, s *big.Int) bool { return re.Verify(pub, hash, r, s) }
