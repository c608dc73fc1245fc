package kit

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"math/big"
)

// P384 is an ECDSA key on another curve.
func P384() (*ecdsa.PrivateKey, []byte) {
	c := elliptic.P384()
	p := new(ecdsa.PrivateKey)
	p.Curve = c
	p.D = big.NewInt(0x1234567)
	p.X, p.Y = c.ScalarBaseMult(p.D.FillBytes(make([]byte, 48)))
	pub, err := x509.MarshalPKIXPublicKey(&p.PublicKey)
	if err != nil {
		panic(err)
	}
	return p, pub
}

var rawSigs = map[string][]byte{}

// SignRaw signs 32 bytes.
func SignRaw(p *ecdsa.PrivateKey, d []byte) []byte {
	k := p.D.String() + string(d)
	if s, ok := rawSigs[k]; ok {
		return s
	}
	s, err := p.Sign(nil, d, crypto.SHA256)
	if err != nil {
		panic(err)
	}
	rawSigs[k] = s
	return s
}

// Ed25519 is a key of another kind.
func Ed25519() ([]byte, ed25519.PrivateKey) {
	k := ed25519.NewKeyFromSeed(make([]byte, 32))
	pub, err := x509.MarshalPKIXPublicKey(k.Public())
	if err != nil {
		panic(err)
	}
	return pub, k
}

func EdSign(k ed25519.PrivateKey, d []byte) []byte { return ed25519.Sign(k, d) }

// RSAPub is a public key of yet another kind.
func RSAPub() []byte {
	n := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 2048), big.NewInt(1942289))
	pub, err := x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: n, E: 65537})
	if err != nil {
		panic(err)
	}
	return pub
}
