package ledger

import (
	"fmt"
	"math"
	"math/big"

	"encoding/asn1"

	"crypto/elliptic"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// owned is a chain with outputs of several owners, one of whom has several outputs.
type owned struct {
	u  *kit.Uni
	ch []*kit.Blk
	sp core.Tx
}

func newOwned(p core.Params) *owned {
	o := &owned{u: kit.NewUni(p)}
	u := o.u
	a1 := u.Block("A1", nil, nil, kit.Key(1))
	o.sp = u.Tx("split", 0, []kit.In{{a1.Txs[0], 0, 1}}, []kit.Out{{200, 1}, {200, 1}, {210, 1}, {200, 2}, {180, 3}})
	a2 := u.Block("A2", a1, []core.Tx{o.sp}, kit.Key(2))
	o.ch = []*kit.Blk{a1, a2}
	return o
}

// variant is a changed transaction.
type variant struct {
	name string
	tx   core.Tx
	// sameSig: inputs were exchanged while every signature stayed one its key really made for these
	// outputs, on behalf of another input
	moved bool
}

func flip(b []byte, i int, m byte) []byte {
	c := append([]byte(nil), b...)
	c[i] ^= m
	return c
}

func sameTx(a, b core.Tx) bool {
	if a.IsCoinbase != b.IsCoinbase || len(a.Inputs) != len(b.Inputs) || kit.Content(a.MinBlock, a.Outputs) != kit.Content(b.MinBlock, b.Outputs) {
		return false
	}
	for i, x := range a.Inputs {
		y := b.Inputs[i]
		if x.Utxo != y.Utxo || string(x.PublicKey) != string(y.PublicKey) || string(x.Signature) != string(y.Signature) {
			return false
		}
	}
	return true
}

// variants of a signed transaction spending outputs of o.
func variants(o *owned, t core.Tx, bits bool) (out []variant) {
	add := func(n string, f func(t *core.Tx)) {
		c := kit.CloneTx(t)
		f(&c)
		if !sameTx(c, t) {
			out = append(out, variant{name: n, tx: c})
		}
	}
	for i := range t.Outputs {
		i := i
		for _, v := range []uint64{t.Outputs[i].Value + 1, t.Outputs[i].Value - 1, 0, math.MaxUint64} {
			v := v
			add(fmt.Sprintf("output %d worth %d", i, v), func(t *core.Tx) { t.Outputs[i].Value = v })
		}
		for k := 1; k <= 9; k += 2 {
			k := k
			add(fmt.Sprintf("output %d to owner %d", i, k), func(t *core.Tx) { t.Outputs[i].PublicKeyHash = kit.Pkh(k) })
		}
		add(fmt.Sprintf("output %d to nobody", i), func(t *core.Tx) { t.Outputs[i].PublicKeyHash = H{} })
		d := t.Outputs[i].PublicKeyHash.Data()
		for b := 0; b < 32; b++ {
			b := b
			add(fmt.Sprintf("output %d owner byte %d", i, b), func(t *core.Tx) {
				t.Outputs[i].PublicKeyHash = core.NewHashTFromBytes(flip(d[:], b, 1))
			})
		}
		add(fmt.Sprintf("output %d dropped", i), func(t *core.Tx) { t.Outputs = without(t.Outputs, i) })
		add(fmt.Sprintf("output %d twice", i), func(t *core.Tx) { t.Outputs = inserted(t.Outputs, i, t.Outputs[i]) })
	}
	add("outputs reversed", func(t *core.Tx) { t.Outputs = reversed(t.Outputs) })
	add("zero output added", func(t *core.Tx) { t.Outputs = append(t.Outputs, core.TxOut{PublicKeyHash: kit.Pkh(9)}) })
	for _, m := range []uint64{0, 1, 2, 3, 4, 1 << 32, math.MaxUint64} {
		m := m
		add(fmt.Sprintf("minimum height %d", m), func(t *core.Tx) { t.MinBlock = m })
	}
	add("flagged coinbase", func(t *core.Tx) { t.IsCoinbase = true })
	add("flagged coinbase without inputs", func(t *core.Tx) { t.IsCoinbase = true; t.Inputs = []core.TxIn{} })
	for i := range t.Inputs {
		i := i
		in := t.Inputs[i]
		for _, v := range []uint64{in.Utxo.Value + 1, in.Utxo.Value - 1, 0, math.MaxUint64} {
			v := v
			add(fmt.Sprintf("input %d claims %d", i, v), func(t *core.Tx) { t.Inputs[i].Utxo.Value = v })
		}
		for k := 0; k < 6; k++ {
			k := k
			add(fmt.Sprintf("input %d index %d", i, k), func(t *core.Tx) { t.Inputs[i].Utxo.Ind = uint64(k) })
			if k < 5 {
				add(fmt.Sprintf("input %d is output %d with its value", i, k), func(t *core.Tx) {
					t.Inputs[i].Utxo.Ind = uint64(k)
					t.Inputs[i].Utxo.Value = o.sp.Outputs[k].Value
				})
				add(fmt.Sprintf("input added: output %d with the signature of input %d", k, i), func(t *core.Tx) {
					n := in
					n.Utxo.Ind = uint64(k)
					n.Utxo.Value = o.sp.Outputs[k].Value
					t.Inputs = append(t.Inputs, n)
				})
			}
		}
		for n, id := range []H{o.ch[0].Txs[0].Hash(), o.ch[1].Txs[0].Hash(), kit.DH([]byte("x")), {}} {
			id := id
			add(fmt.Sprintf("input %d of transaction %d", i, n), func(t *core.Tx) { t.Inputs[i].Utxo.TxId = id })
			if n < 2 {
				v := o.ch[n].Txs[0].Outputs[0].Value
				add(fmt.Sprintf("input %d is coinbase %d with its value", i, n), func(t *core.Tx) {
					t.Inputs[i].Utxo = core.Utxo{TxId: id, Value: v}
				})
			}
		}
		if len(t.Inputs) > 1 {
			add(fmt.Sprintf("input %d dropped", i), func(t *core.Tx) { t.Inputs = without(t.Inputs, i) })
			j := (i + 1) % len(t.Inputs)
			add(fmt.Sprintf("keys of %d and %d exchanged", i, j), func(t *core.Tx) {
				t.Inputs[i].PublicKey, t.Inputs[j].PublicKey = t.Inputs[j].PublicKey, t.Inputs[i].PublicKey
			})
			add(fmt.Sprintf("signature of %d is that of %d", i, j), func(t *core.Tx) { t.Inputs[i].Signature = t.Inputs[j].Signature })
		}
		add(fmt.Sprintf("input %d twice", i), func(t *core.Tx) { t.Inputs = append(t.Inputs, t.Inputs[i]) })
		// keys
		for k := 1; k <= 4; k++ {
			k := k
			add(fmt.Sprintf("key of owner %d on input %d", k, i), func(t *core.Tx) { t.Inputs[i].PublicKey = kit.Pub(k) })
			add(fmt.Sprintf("input %d signed by owner %d", i, k), func(t *core.Tx) {
				t.Inputs[i].Signature = kit.SignFor(k, t.MinBlock, t.Outputs)
			})
			add(fmt.Sprintf("input %d key and signature of owner %d", i, k), func(t *core.Tx) {
				t.Inputs[i].PublicKey = kit.Pub(k)
				t.Inputs[i].Signature = kit.SignFor(k, t.MinBlock, t.Outputs)
			})
		}
		// signatures over something else
		for n, h := range []H{core.TxHashPreSig(t.MinBlock+1, t.Outputs), core.TxHashPreSig(t.MinBlock, reversed(append([]core.TxOut{{Value: 1}}, t.Outputs...))), t.Hash(), {}, in.Utxo.Hash(), core.TxHashPreSig(t.MinBlock, nil)} {
			h := h
			add(fmt.Sprintf("input %d signed over something else %d", i, n), func(t *core.Tx) { t.Inputs[i].Signature = kit.Sign(1, h) })
		}
		n := elliptic.P256().Params().N
		var rs struct{ R, S *big.Int }
		if _, err := asn1.Unmarshal(in.Signature, &rs); err == nil {
			for k, v := range [][2]*big.Int{{rs.S, rs.R}, {big.NewInt(0), rs.S}, {rs.R, big.NewInt(0)}, {n, rs.S}, {rs.R, n}, {new(big.Int).Add(rs.R, n), rs.S}, {rs.R, new(big.Int).Add(rs.S, n)}, {new(big.Int).Neg(rs.R), rs.S}, {big.NewInt(0), big.NewInt(0)}, {big.NewInt(1), big.NewInt(1)}} {
				b, _ := asn1.Marshal(struct{ R, S *big.Int }{v[0], v[1]})
				add(fmt.Sprintf("signature %d crafted %d", i, k), func(t *core.Tx) { t.Inputs[i].Signature = b })
			}
		}
		for _, what := range []string{"signature", "key"} {
			what := what
			get := func(t *core.Tx) *[]byte {
				if what == "key" {
					return &t.Inputs[i].PublicKey
				}
				return &t.Inputs[i].Signature
			}
			ln := len(*get(&t))
			ms := []byte{1, 0x80, 0xff}
			if bits {
				ms = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255, 85}
			}
			for b := 0; b < ln; b++ {
				b := b
				for _, m := range ms {
					m := m
					add(fmt.Sprintf("%s %d byte %d^%d", what, i, b, m), func(t *core.Tx) { *get(t) = flip(*get(t), b, m) })
				}
				add(fmt.Sprintf("%s %d cut at %d", what, i, b), func(t *core.Tx) { *get(t) = (*get(t))[:b:b] })
				add(fmt.Sprintf("%s %d without its first %d", what, i, b+1), func(t *core.Tx) { *get(t) = append([]byte{}, (*get(t))[b+1:]...) })
			}
			add(what+" absent", func(t *core.Tx) { *get(t) = nil })
			add(what+" with a byte appended", func(t *core.Tx) { *get(t) = append(*get(t), 0) })
			add(what+" with a byte prepended", func(t *core.Tx) { *get(t) = append([]byte{0}, *get(t)...) })
			add(what+" doubled", func(t *core.Tx) { *get(t) = append(*get(t), *get(t)...) })
		}
	}
	// A signature made for one set of inputs authorises spending only those inputs.
	authorised := map[string]bool{}
	for _, in := range t.Inputs {
		authorised[fmt.Sprint(in.Utxo, string(in.PublicKey), string(in.Signature))] = true
	}
	orig := kit.Content(t.MinBlock, t.Outputs)
	for n := range out {
		v := &out[n]
		if kit.Content(v.tx.MinBlock, v.tx.Outputs) != orig {
			continue
		}
		for _, in := range v.tx.Inputs {
			for _, was := range t.Inputs {
				if string(in.Signature) == string(was.Signature) && !authorised[fmt.Sprint(in.Utxo, string(in.PublicKey), string(in.Signature))] {
					v.moved = true
				}
			}
		}
		if len(v.tx.Inputs) != len(t.Inputs) {
			v.moved = true
		}
	}
	return
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// oddKeys is a chain whose outputs belong to the hashes of byte strings that are no usable keys (and of
// one unusual but usable one), and attempts to spend them.
func oddKeys() (u *kit.Uni, ch []*kit.Blk, out []variant, want []bool) {
	p := kit.SmallParams()
	p.MaxTxVSize = 3000
	p.MaxBlockVSize = 6000
	u = kit.NewUni(p)
	a1 := u.Block("A1", nil, nil, kit.Key(1))
	p256 := kit.Pub(1)
	k384, p384 := kit.P384()
	ed, edKey := kit.Ed25519()
	list := []struct {
		name string
		pub  []byte
	}{{"empty", []byte{}}, {"one byte", []byte{0}}, {"junk", []byte("not a key at all")}, {"half of a key", p256[:40]}, {"key with a byte appended", append(append([]byte{}, p256...), 0)},
		{"point not on the curve", flip(p256, len(p256)-1, 1)}, {"raw point", p256[26:]}, {"ed25519", ed}, {"rsa", kit.RSAPub()}, {"dsa-like header", append([]byte{0x30, 0x59}, make([]byte, 89)...)}, {"p384", p384}}
	sp := kit.MakeTx(0, []kit.In{{a1.Txs[0], 0, 1}}, nil)
	for range list {
		sp.Outputs = append(sp.Outputs, core.TxOut{Value: 50})
	}
	for i, l := range list {
		sp.Outputs[i].PublicKeyHash = kit.DH(l.pub)
	}
	sp.Inputs[0].Signature = kit.SignFor(1, 0, sp.Outputs)
	u.Probe("split", sp)
	a2 := u.Block("A2", a1, []core.Tx{sp}, kit.Key(1))
	ch = []*kit.Blk{a1, a2}
	u.Valid(ch...)
	for i, l := range list {
		outs := []core.TxOut{{Value: 30, PublicKeyHash: kit.Pkh(4)}}
		pre := core.TxHashPreSig(0, outs)
		d := pre.Data()
		good := kit.SignFor(1, 0, outs)
		sigs := map[string][]byte{"nil": nil, "empty": {}, "zero": {0}, "72 zeros": make([]byte, 72), "by another owner": good,
			"ed25519": kit.EdSign(edKey, d[:]), "p384": kit.Record(p384, kit.SignRaw(k384, d[:]), 0, outs)}
		for _, sn := range []string{"nil", "empty", "zero", "72 zeros", "by another owner", "ed25519", "p384"} {
			for _, key := range [][]byte{l.pub, p256, nil} {
				t := core.Tx{Inputs: []core.TxIn{{Utxo: core.Utxo{TxId: sp.Hash(), Ind: uint64(i), Value: 50}, PublicKey: key, Signature: sigs[sn]}}, Outputs: outs}
				out = append(out, variant{name: fmt.Sprintf("output of %s key, key of %d bytes, signature %s", l.name, len(key), sn), tx: t})
				want = append(want, l.name == "p384" && sn == "p384" && len(key) == len(l.pub))
			}
		}
	}
	return
}

func c03(tier string) []mcx.Scenario {
	pr := ledgerProps("C03")
	one := func(o *owned) core.Tx {
		return kit.MakeTx(2, []kit.In{{o.sp, 0, 1}}, []kit.Out{{100, 4}, {30, 5}, {20, 6}, {40, 1}})
	}
	two := func(o *owned) core.Tx {
		return kit.MakeTx(0, []kit.In{{o.sp, 1, 1}, {o.sp, 3, 2}}, []kit.Out{{350, 4}})
	}
	three := func(o *owned) core.Tx {
		return kit.MakeTx(3, []kit.In{{o.sp, 0, 1}, {o.sp, 2, 1}, {o.sp, 4, 3}}, []kit.Out{{300, 5}, {200, 1}})
	}
	scn := func(mk func(o *owned) core.Tx, asBlock bool) func(x *mcx.X) {
		o := newOwned(kit.SmallParams())
		base := mk(o)
		vs := variants(o, base, tier == "thorough")
		const group = 24
		return func(x *mcx.X) {
			o := newOwned(kit.SmallParams())
			u := o.u
			u.Valid(o.ch...)
			g := x.Pick((len(vs) + group - 1) / group)
			h := newHist(x, u, true, nil, pr...)
			h.seq(headOp("A1-A2", o.ch...))
			for _, v := range vs[g*group : least(len(vs), (g+1)*group)] {
				u.AddTx(v.name, v.tx)
				h.path = h.path[:1]
				x.Count("variants offered", 1)
				why := h.known.TxErr(v.tx)
				var ops []op
				if asBlock {
					if v.tx.IsCoinbase {
						continue
					}
					ops = append(ops, headOp("block of "+v.name, holding(u, "block of "+v.name, o.ch[1], v.tx)))
				} else {
					ops = append(ops, txOp(v.name, v.tx))
				}
				h.seq(ops...)
				if h.n.Dead != "" {
					return
				}
				_, has := h.known.Tx[v.tx.Hash()]
				if has && why == "" {
					x.Count("variants accepted", 1)
					if v.moved {
						h.x.Fail("signature-reused", "after [%s]: a signature made for a transaction with other inputs was accepted", v.name)
					}
				}
				if asBlock && len(h.n.Heads) > 1 {
					// start over from the same point for the next variant
					h = newHist(x, u, true, nil, pr...)
					h.seq(headOp("A1-A2", o.ch...))
				}
			}
			// the genuine transaction is accepted all along
			u.AddTx("genuine", base)
			h.seq(txOp("genuine", base))
			x.State(mcx.Hash(g), false)
			if g == 0 {
				x.Sample("first group: %s ... %s", vs[0].name, vs[least(group, len(vs))-1].name)
			}
		}
	}
	d := 3
	if tier == "thorough" {
		d = 4
	}
	f := theForks()
	odd := func(asBlock bool) func(x *mcx.X) {
		u, ch, spends, ok := oddKeys()
		const group = 20
		return func(x *mcx.X) {
			g := x.Pick((len(spends) + group - 1) / group)
			h := newHist(x, u, true, nil, pr...)
			h.seq(headOp("A1-A2", ch...))
			for n := g * group; n < least(len(spends), (g+1)*group); n++ {
				v := spends[n]
				u.Probe(v.name, v.tx)
				h.path = h.path[:1]
				x.Count("spends by unusual keys", 1)
				if asBlock {
					h.seq(headOp("block of "+v.name, u.Once("block of "+v.name, func() *kit.Blk { return holding(u, "block of "+v.name, ch[1], v.tx) })))
				} else {
					h.seq(txOp(v.name, v.tx))
				}
				if h.n.Dead != "" {
					return
				}
				if _, has := h.known.Tx[v.tx.Hash()]; has != ok[n] {
					x.Fail("accept", "after [%s]: accepted %v", v.name, has)
				}
				if asBlock && len(h.n.Heads) > 1 {
					h = newHist(x, u, true, nil, pr...)
					h.seq(headOp("A1-A2", ch...))
				}
			}
			x.State(mcx.Hash(g), false)
		}
	}
	return []mcx.Scenario{
		{Name: "one-input", Body: scn(one, false)},
		{Name: "two-owners", Body: scn(two, false)},
		{Name: "three-inputs", Body: scn(three, false)},
		{Name: "two-owners-in-blocks", Body: scn(two, true)},
		{Name: "unusual-keys", Body: odd(false)},
		{Name: "unusual-keys-in-blocks", Body: odd(true)},
		{Name: "histories", Body: func(x *mcx.X) {
			newHist(x, f.u, true, nil, pr...).run(append(f.ops(), f.badOps()...), d, nil)
		}},
		largeScen(pr, 2),
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C03", Scenarios: c03, Assumptions: append([]string{"ECDSA signatures cannot be forged; another valid signature by the same key over the same content counts as that owner's signature"}, ledgerAssume...),
		Rule: "every single change (each field, each byte of every key and signature, each exchange and reuse of inputs, keys and signatures) of signed transactions with one, two and three inputs, offered alone and inside blocks"})
}
