package ledger

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
	"github.com/levilutz/basiccoin/zz_mc/harness/wire"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// entity is any identified thing with a description of its content.
type entity struct {
	kind, name, field string
	v                 any
}

func (e entity) id() H {
	switch t := e.v.(type) {
	case core.Tx:
		return t.Hash()
	case core.MerkleNode:
		return t.Hash()
	case core.Block:
		return t.Hash()
	}
	panic("kind")
}

// norm: content with nil and empty lists alike.
func (e entity) norm() string {
	if t, ok := e.v.(core.Tx); ok {
		s := fmt.Sprint("tx", t.IsCoinbase, t.MinBlock, len(t.Inputs), len(t.Outputs))
		for _, i := range t.Inputs {
			s += fmt.Sprintf("|%v %d %d %x %x", i.Utxo.TxId, i.Utxo.Ind, i.Utxo.Value, i.PublicKey, i.Signature)
		}
		for _, o := range t.Outputs {
			s += fmt.Sprintf("|%d %v", o.Value, o.PublicKeyHash)
		}
		return s
	}
	return fmt.Sprintf("%s%v", e.kind, e.v)
}

func bytesVariants(b []byte) (out [][]byte) {
	out = append(out, nil, []byte{0}, []byte{0, 0}, []byte{1})
	for i := range b {
		for _, m := range []byte{1, 0x80} {
			out = append(out, flip(b, i, m))
		}
	}
	for i := 1; i < len(b); i += 7 {
		out = append(out, b[:i:i])
	}
	out = append(out, append(append([]byte{}, b...), 0))
	return
}

func hashVariants(h H) (out []H) {
	d := h.Data()
	for i := range d {
		out = append(out, core.NewHashTFromBytes(flip(d[:], i, 1)), core.NewHashTFromBytes(flip(d[:], i, 0x80)))
	}
	return append(out, H{}, kit.DH(nil))
}

func u64Variants(v uint64) (out []uint64) {
	for b := 0; b < 64; b++ {
		out = append(out, v^(1<<b))
	}
	return append(out, 0, 1, math.MaxUint64, v+1, v-1)
}

// entities lists base entities with every single-field variant.
func entities() (out []entity) {
	u := kit.NewUni(kit.SmallParams())
	a1 := u.Block("A1", nil, nil, kit.Key(1))
	t1 := u.Tx("t1", 3, []kit.In{{a1.Txs[0], 0, 1}}, []kit.Out{{600, 3}, {390, 1}})
	t2 := u.Tx("t2", 0, []kit.In{{t1, 0, 3}, {t1, 1, 1}}, []kit.Out{{590, 4}})
	a2 := u.Block("A2", a1, []core.Tx{t1, t2})
	txs := []core.Tx{t1, t2, a1.Txs[0], {}, {IsCoinbase: true}, {Outputs: make([]core.TxOut, 1)}, {Outputs: make([]core.TxOut, 2)}, {Inputs: make([]core.TxIn, 1)}, {Inputs: make([]core.TxIn, 2)}}
	for n, t := range txs {
		n, t := n, t
		add := func(f string, g func(c *core.Tx)) {
			c := kit.CloneTx(t)
			g(&c)
			out = append(out, entity{"tx", fmt.Sprintf("tx%d", n), f, c})
		}
		add("", func(c *core.Tx) {})
		add("IsCoinbase", func(c *core.Tx) { c.IsCoinbase = !c.IsCoinbase })
		for _, v := range u64Variants(t.MinBlock) {
			v := v
			add("MinBlock", func(c *core.Tx) { c.MinBlock = v })
		}
		for i := range t.Inputs {
			i := i
			for _, v := range hashVariants(t.Inputs[i].Utxo.TxId) {
				v := v
				add("Input.TxId", func(c *core.Tx) { c.Inputs[i].Utxo.TxId = v })
			}
			for _, v := range u64Variants(t.Inputs[i].Utxo.Ind) {
				v := v
				add("Input.Ind", func(c *core.Tx) { c.Inputs[i].Utxo.Ind = v })
			}
			for _, v := range u64Variants(t.Inputs[i].Utxo.Value) {
				v := v
				add("Input.Value", func(c *core.Tx) { c.Inputs[i].Utxo.Value = v })
			}
			add("Input.Ind<->Value", func(c *core.Tx) {
				c.Inputs[i].Utxo.Ind, c.Inputs[i].Utxo.Value = c.Inputs[i].Utxo.Value, c.Inputs[i].Utxo.Ind
			})
			for _, v := range bytesVariants(t.Inputs[i].PublicKey) {
				v := v
				add("Input.PublicKey", func(c *core.Tx) { c.Inputs[i].PublicKey = v })
			}
			for _, v := range bytesVariants(t.Inputs[i].Signature) {
				v := v
				add("Input.Signature", func(c *core.Tx) { c.Inputs[i].Signature = v })
			}
			all := append(append([]byte{}, t.Inputs[i].PublicKey...), t.Inputs[i].Signature...)
			for k := 0; k <= len(all); k++ {
				k := k
				add("Input.PublicKey|Signature", func(c *core.Tx) { c.Inputs[i].PublicKey = all[:k:k]; c.Inputs[i].Signature = all[k:] })
			}
			add("Input dropped", func(c *core.Tx) { c.Inputs = without(c.Inputs, i) })
			add("Input repeated", func(c *core.Tx) { c.Inputs = inserted(c.Inputs, i, c.Inputs[i]) })
		}
		for i := range t.Outputs {
			i := i
			for _, v := range hashVariants(t.Outputs[i].PublicKeyHash) {
				v := v
				add("Output.PublicKeyHash", func(c *core.Tx) { c.Outputs[i].PublicKeyHash = v })
			}
			for _, v := range u64Variants(t.Outputs[i].Value) {
				v := v
				add("Output.Value", func(c *core.Tx) { c.Outputs[i].Value = v })
			}
			add("Output dropped", func(c *core.Tx) { c.Outputs = without(c.Outputs, i) })
			add("Output repeated", func(c *core.Tx) { c.Outputs = inserted(c.Outputs, i, c.Outputs[i]) })
		}
		add("Inputs reversed", func(c *core.Tx) { c.Inputs = reversed(c.Inputs) })
		add("Outputs reversed", func(c *core.Tx) { c.Outputs = reversed(c.Outputs) })
		add("Input added", func(c *core.Tx) { c.Inputs = append(c.Inputs, core.TxIn{}) })
		add("Output added", func(c *core.Tx) { c.Outputs = append(c.Outputs, core.TxOut{}) })
	}
	// a transaction with a great many inputs and outputs, changed at one of them
	const many = 300
	var ins []kit.In
	var outs []kit.Out
	for i := 0; i < many; i++ {
		ins, outs = append(ins, kit.In{Tx: t2, N: 0, K: 4}), append(outs, kit.Out{V: uint64(i), K: 5 + i%3})
	}
	big := kit.MakeTx(7, ins[:1], outs)
	for i := 1; i < many; i++ {
		in := big.Inputs[0]
		in.Utxo.Ind = uint64(i)
		big.Inputs = append(big.Inputs, in)
	}
	for _, i := range []int{0, 1, 15, 16, 31, 32, 63, 64, 65, 99, 100, 127, 128, 129, 254, 255, 256, 257, many - 1} {
		i := i
		add := func(f string, g func(c *core.Tx)) {
			c := kit.CloneTx(big)
			g(&c)
			out = append(out, entity{"tx", fmt.Sprintf("many-parts:%d", i), f, c})
		}
		if i == 0 {
			add("", func(c *core.Tx) {})
		}
		add("Input.TxId", func(c *core.Tx) { c.Inputs[i].Utxo.TxId = kit.DH([]byte{1}) })
		add("Input.Ind", func(c *core.Tx) { c.Inputs[i].Utxo.Ind ^= 1 << 40 })
		add("Input.Value", func(c *core.Tx) { c.Inputs[i].Utxo.Value ^= 1 })
		add("Input.PublicKey", func(c *core.Tx) { c.Inputs[i].PublicKey = flip(c.Inputs[i].PublicKey, 40, 1) })
		add("Input.Signature", func(c *core.Tx) { c.Inputs[i].Signature = flip(c.Inputs[i].Signature, 40, 1) })
		add("Input dropped", func(c *core.Tx) { c.Inputs = without(c.Inputs, i) })
		add("Output.Value", func(c *core.Tx) { c.Outputs[i].Value ^= 1 << 20 })
		add("Output.PublicKeyHash", func(c *core.Tx) { c.Outputs[i].PublicKeyHash = kit.DH([]byte{2}) })
		add("Output dropped", func(c *core.Tx) { c.Outputs = without(c.Outputs, i) })
		add("cut here", func(c *core.Tx) { c.Inputs = c.Inputs[:i] })
		add("outputs cut here", func(c *core.Tx) { c.Outputs = c.Outputs[:i] })
	}
	for n, m := range append(append([]core.MerkleNode{}, a2.Merkles...), core.MerkleNode{}, core.MerkleNode{LChild: t1.Hash(), RChild: t1.Hash()}) {
		add := func(f string, c core.MerkleNode) {
			out = append(out, entity{"node", fmt.Sprintf("node%d", n), f, c})
		}
		add("", m)
		for _, v := range hashVariants(m.LChild) {
			add("LChild", core.MerkleNode{LChild: v, RChild: m.RChild})
		}
		for _, v := range hashVariants(m.RChild) {
			add("RChild", core.MerkleNode{LChild: m.LChild, RChild: v})
		}
		add("children exchanged", core.MerkleNode{LChild: m.RChild, RChild: m.LChild})
		add("left twice", core.MerkleNode{LChild: m.LChild, RChild: m.LChild})
		add("right twice", core.MerkleNode{LChild: m.RChild, RChild: m.RChild})
	}
	for n, b := range []core.Block{a1.B, a2.B, {}} {
		b := b
		add := func(f string, g func(c *core.Block)) {
			c := b
			g(&c)
			out = append(out, entity{"block", fmt.Sprintf("block%d", n), f, c})
		}
		add("", func(c *core.Block) {})
		fs := []struct {
			n string
			p func(c *core.Block) *H
		}{{"PrevBlockId", func(c *core.Block) *H { return &c.PrevBlockId }}, {"MerkleRoot", func(c *core.Block) *H { return &c.MerkleRoot }},
			{"Target", func(c *core.Block) *H { return &c.Target }}, {"Noise", func(c *core.Block) *H { return &c.Noise }}}
		for i, f := range fs {
			for _, v := range hashVariants(*f.p(&b)) {
				v := v
				add(f.n, func(c *core.Block) { *f.p(c) = v })
			}
			for _, g := range fs[i+1:] {
				add(f.n+"<->"+g.n, func(c *core.Block) { *f.p(c), *g.p(c) = *g.p(c), *f.p(c) })
			}
		}
		for _, v := range u64Variants(b.Nonce) {
			v := v
			add("Nonce", func(c *core.Block) { c.Nonce = v })
		}
		for _, v := range u64Variants(b.MinedTime) {
			v := v
			add("MinedTime", func(c *core.Block) { c.MinedTime = v })
		}
	}
	return
}

func c12(tier string) []mcx.Scenario {
	es := entities()
	const group = 64
	n := (len(es) + group - 1) / group
	ids := make([]H, len(es))
	norms := make([]string, len(es))
	ready := false
	return []mcx.Scenario{
		{Name: "all-pairs-of-variants", Body: func(x *mcx.X) {
			if !ready {
				for i, e := range es {
					ids[i], norms[i] = e.id(), e.norm()
				}
				ready = true
			}
			g := x.Pick(n)
			for i := g * group; i < least(len(es), (g+1)*group); i++ {
				e := es[i]
				if e.id() != ids[i] || e.norm() != norms[i] {
					x.Fail("unstable", "%s %s: id or content changed when hashed again", e.name, e.field)
				}
				if p := copyVia(e); p != "" {
					x.Fail("unstable", "%s %s: %s", e.name, e.field, p)
				}
				for j := range es {
					x.Count("pairs compared", 1)
					same := norms[i] == norms[j]
					if same != (ids[i] == ids[j]) {
						f := es[j]
						key := "collision"
						a, aok := e.v.(core.Block)
						b, bok := f.v.(core.Block)
						if aok && bok {
							a.MinedTime = b.MinedTime
							if a == b {
								key = "block-time-not-in-id"
							}
						}
						x.Fail(key, "%s (%s) and %s (%s): same content %v, same id %v", e.name, e.field, f.name, f.field, same, ids[i] == ids[j])
					}
				}
			}
			x.Count("entities", least(len(es), (g+1)*group)-g*group)
			x.State(mcx.Hash(g), false)
			x.Sample("entities %d..%d against all %d", g*group, least(len(es), (g+1)*group)-1, len(es))
		}},
		{Name: "received-under-an-id", MaxSteps: 20_000_000, Body: func(x *mcx.X) {
			g := x.Pick(n)
			a, b := wire.Pair(x)
			if a == nil {
				return
			}
			for i := g * group; i < least(len(es), (g+1)*group); i++ {
				e := es[i]
				for _, f := range others(es, i) {
					id := f.id()
					got := sendAs(a, b, e, id)
					err := b.Err()
					if a.HasErr() {
						x.Fail("not sent", "%s (%s): %v", e.name, e.field, a.Err())
						return
					}
					if id == e.id() {
						if err != nil || got.norm() != e.norm() || got.id() != id {
							x.Fail("refused", "%s (%s) received under its own id: %v", e.name, e.field, err)
							return
						}
					} else if err == nil {
						x.Fail("substituted", "%s (%s) was taken for %s (%s)", e.name, e.field, f.name, f.field)
						return
					}
					x.Count("receptions", 1)
				}
			}
			x.State(mcx.Hash("recv", g), false)
		}},
	}
}

// copyVia: the id of a copy, and of a copy sent through JSON, is the same.
func copyVia(e entity) string {
	switch t := e.v.(type) {
	case core.Tx:
		if kit.CloneTx(t).Hash() != t.Hash() {
			return "a copy has another id"
		}
	}
	b, err := json.Marshal(e.v)
	if err != nil {
		return "cannot be encoded: " + err.Error()
	}
	p := reflect.New(reflect.TypeOf(e.v))
	if err := json.Unmarshal(b, p.Interface()); err != nil {
		return "cannot be decoded: " + err.Error()
	}
	if (entity{v: p.Elem().Interface()}).id() != e.id() {
		return "a copy sent as JSON has another id"
	}
	return ""
}

func init() {
	mcx.Register(&mcx.Check{ID: "C12", Scenarios: c12, Assumptions: []string{"SHA-256 has no collisions among the compared contents"},
		Rule: "every pair among base transactions, nodes and blocks and all their single-field variants (every bit of every number, two bits of every byte of every hash, key and signature, every split of key|signature, exchanged, dropped, repeated and added parts)"})
}

// others: the entity itself and some of its kind that differ from it.
func others(es []entity, i int) (out []entity) {
	out = append(out, es[i])
	ds := []int{-40, -2, -1, 1, 2, 40}
	if t, ok := es[i].v.(core.Tx); ok && len(t.Inputs)+len(t.Outputs) > 50 {
		ds = []int{-1, 1, 11}
	}
	for _, d := range ds {
		if k := i + d; k >= 0 && k < len(es) && es[k].kind == es[i].kind {
			out = append(out, es[k])
		}
	}
	return
}

// sendAs transfers e to a receiver expecting the given id.
func sendAs(a, b *prot.Conn, e entity, id H) entity {
	r := e
	switch t := e.v.(type) {
	case core.Tx:
		a.WriteTx(t)
		r.v = b.ReadTx(id)
	case core.MerkleNode:
		a.WriteMerkle(t)
		r.v = b.ReadMerkle(id)
	case core.Block:
		a.WriteBlock(t)
		r.v = b.ReadBlock(id)
	}
	return r
}
