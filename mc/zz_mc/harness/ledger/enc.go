package ledger

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	"github.com/levilutz/basiccoin/internal/rest/models"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// pass encodes a body as the server does and decodes it as the client does.
func pass[K json.Marshaler](x *mcx.X, what string, in K) {
	n := x.S.NewNode("w", "10.0.0.9")
	var out K
	var err error
	ok, pv := x.S.CallNode(n, "encode", func() {
		var raw []byte
		if raw, err = json.Marshal(in); err == nil {
			err = json.Unmarshal(raw, &out)
		}
	})
	x.Count("answers encoded", 1)
	if !ok {
		err = fmt.Errorf("%v", pv)
	}
	if err != nil {
		x.Fail("encoding", "%s cannot be read back: %v", what, err)
	} else if !same(reflect.ValueOf(in), reflect.ValueOf(out)) {
		x.Fail("encoding", "%s is read back as something else: %v instead of %v", what, out, in)
	}
}

// same compares contents, nil and empty lists and maps alike.
func same(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Struct:
		if a.Type() == reflect.TypeOf(H{}) {
			return a.Interface() == b.Interface()
		}
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if v := b.MapIndex(k); !v.IsValid() || !same(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// encodings: every kind of answer, and posted transactions, read back as they were sent.
func encodings() mcx.Scenario {
	hs := []H{{}, kit.DH([]byte{1}), kit.DH([]byte{2}), core.NewHashTFromBytes(repeat(0xff, 32)), core.NewHashTFromBytes(append(repeat(0, 31), 1)), core.NewHashTFromBytes(append([]byte{1}, repeat(0, 31)...))}
	var vs []uint64
	for b := 0; b < 64; b++ {
		vs = append(vs, 1<<b-1, 1<<b, 1<<b+1)
	}
	vs = append(vs, math.MaxUint64)
	es := entities()
	return mcx.Scenario{Name: "encodings", Body: func(x *mcx.X) {
		switch kind := x.Pick(4); kind {
		case 0:
			h := hs[x.Pick(len(hs))]
			for _, v := range vs {
				m := map[H]uint64{h: v}
				pass(x, "balances", models.BalanceResp{Balances: m})
				pass(x, "confirmations", models.TxConfirmsResp{Confirms: m})
				pass(x, "rich list", models.RichListResp{RichList: m})
				for _, g := range hs {
					m := map[H]uint64{h: v, g: v ^ 1}
					pass(x, "balances", models.BalanceResp{Balances: m})
				}
				pass(x, "unspent outputs", models.UtxosResp{Utxos: map[core.Utxo]H{{TxId: h, Ind: v, Value: 1}: h, {TxId: h, Ind: 1, Value: v}: hs[1], {TxId: hs[2], Ind: v, Value: v}: h}})
			}
			for _, g := range hs {
				pass(x, "including blocks", models.TxIncludedBlockResp{IncludedBlocks: map[H]H{h: g, g: h}})
			}
		case 1:
			for n := 0; n <= len(hs); n++ {
				b, i, u := map[H]uint64{}, map[H]H{}, map[core.Utxo]H{}
				for k, h := range hs[:n] {
					b[h], i[h], u[core.Utxo{TxId: h, Ind: uint64(k)}] = uint64(k), h, h
					u[core.Utxo{TxId: h, Ind: uint64(k) + 1}] = h
				}
				pass(x, "balances", models.BalanceResp{Balances: b})
				pass(x, "confirmations", models.TxConfirmsResp{Confirms: b})
				pass(x, "rich list", models.RichListResp{RichList: b})
				pass(x, "including blocks", models.TxIncludedBlockResp{IncludedBlocks: i})
				pass(x, "unspent outputs", models.UtxosResp{Utxos: u})
			}
		default:
			const group = 256
			g := x.Pick((len(es) + group - 1) / group)
			for k, e := range es[g*group:] {
				if k == group {
					break
				}
				if kind == 3 {
					t, ok := e.v.(core.Tx)
					if !ok {
						continue
					}
					pass(x, "transactions", models.GetTxResp{Txs: map[H]core.Tx{hs[k%len(hs)]: t}})
					passTx(x, t)
					continue
				}
				switch v := e.v.(type) {
				case core.MerkleNode:
					pass(x, "nodes", models.GetMerkleResp{Merkles: map[H]core.MerkleNode{hs[k%len(hs)]: v}})
				case core.Block:
					pass(x, "blocks", models.GetBlockResp{Blocks: map[H]core.Block{hs[k%len(hs)]: v}})
				}
			}
		}
	}}
}

type txBody core.Tx

func (t txBody) MarshalJSON() ([]byte, error) { return json.Marshal(core.Tx(t)) }

func (t *txBody) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, (*core.Tx)(t)) }

func passTx(x *mcx.X, t core.Tx) { pass(x, "a posted transaction", txBody(t)) }

func repeat(b byte, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = b
	}
	return out
}
