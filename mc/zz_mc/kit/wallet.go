package kit

import (
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	bcwallet "github.com/levilutz/basiccoin/cmd/bcwallet"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
	vos "github.com/levilutz/basiccoin/zz_mc/shim/os"
)

// Run is the outcome of one run of the wallet program.
type Run struct {
	Out     string
	Failed  string // panicked or never ended
	Success bool
}

// Wallet is a user's machine on which the wallet program is run.
type Wallet struct {
	X *mcx.X
	N *mcrt.Node
}

func NewWallet(x *mcx.X, name, ip string) *Wallet { return &Wallet{x, x.S.NewNode(name, ip)} }

// Run runs the wallet program once on the machine's files.
func (w *Wallet) Run(stdin string, args ...string) (r Run) {
	w.N.Args = append([]string{"bcwallet"}, args...)
	vos.Args = w.N.Args
	w.N.Stdin = []byte(stdin)
	w.N.Out.Reset()
	w.N.Terminated = false
	ok, pv := w.X.S.CallNodeTimeout(w.N, "wallet", 60*Sec, func() { bcwallet.RunMain() })
	w.X.Count("wallet_runs", 1)
	r.Out = w.N.Out.String()
	if !ok {
		r.Failed = fmt.Sprint(pv)
		if pv == nil {
			r.Failed = "no end"
			if w.N.Terminated {
				r.Failed = "exit"
			}
		}
	}
	r.Success = ok && strings.Contains(r.Out, "success")
	return
}

// FileKey is a key as a wallet file holds it.
type FileKey struct {
	Pkh  string
	Priv []byte
}

// KeyOf is key i of the harness.
func KeyOf(i int) FileKey {
	der, err := x509.MarshalECPrivateKey(Priv(i))
	if err != nil {
		panic(err)
	}
	return FileKey{Pkh(i).String(), der}
}

// WalletFile is a saved wallet as the program writes it.
func WalletFile(dev bool, node string, ks ...FileKey) []byte {
	l := []any{}
	for _, k := range ks {
		l = append(l, map[string]any{"publicKeyHash": k.Pkh, "privateKey": base64.StdEncoding.EncodeToString(k.Priv)})
	}
	b, _ := json.MarshalIndent(map[string]any{"dev": dev, "nodeAddr": node, "keys": l}, "", "    ")
	return b
}
