package ledger

import (
	"fmt"
	"math"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// wrapFee is inputs minus outputs as 64-bit arithmetic sees it.
func wrapFee(t core.Tx) uint64 {
	f := uint64(0)
	for _, i := range t.Inputs {
		f += i.Utxo.Value
	}
	for _, o := range t.Outputs {
		f -= o.Value
	}
	return f
}

// holding builds a block whose coinbase takes what 64-bit arithmetic says the fees are.
func holding(u *kit.Uni, name string, parent *kit.Blk, txs ...core.Tx) *kit.Blk {
	v := u.P.BlockReward
	for _, t := range txs {
		v += wrapFee(t)
	}
	cb := kit.Coinbase(u.Ref.Height(parent.ID)+1, v, 40+len(u.Blks))
	return u.Block(name, parent, txs, kit.CbTx(cb))
}

func c01(tier string) []mcx.Scenario {
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	// amounts around the 64-bit range in transactions
	u := kit.NewUni(kit.SmallParams())
	a1 := u.Block("A1", nil, nil, kit.Key(1))
	a2 := u.Block("A2", a1, nil, kit.Key(2))
	b1 := u.Block("B1", nil, nil, kit.Key(2), kit.Noise(3))
	b2 := u.Block("B2", b1, nil, kit.Noise(3))
	b3 := u.Block("B3", b2, nil, kit.Noise(3))
	in := []kit.In{{a1.Txs[0], 0, 1}}
	var ops, more []op
	ops = append(ops, headOp("A1", a1), headOp("A2", a2), headOp("B1-B3", b1, b2, b3))
	tx := func(name string, ins []kit.In, outs []kit.Out, blk bool) core.Tx {
		t := u.Tx(name, 0, ins, outs)
		ops = append(ops, txOp(name, t))
		if blk {
			ops = append(ops, headOp("blk:"+name, holding(u, "blk:"+name, a1, t)))
			// the same with coinbases that take the fee, the inputs or a reward once more or less
			fee, tot := int64(wrapFee(t)), int64(kit.InSum(t).Uint64())
			seen := map[int64]bool{0: true, 1: true, -1: true}
			for _, d := range []int64{fee, -fee, tot, 1000, 1, -1} {
				if (!seen[d] || name == "allfee") && d > -1000 {
					seen[d] = true
					more = append(more, headOp(fmt.Sprintf("blk:%s%+d", name, d), u.Block(fmt.Sprintf("blk:%s%+d", name, d), a1, []core.Tx{t}, kit.CbTx(kit.Coinbase(2, uint64(1000+int64(wrapFee(t))+d), 40+len(u.Blks))))))
				}
			}
		}
		return t
	}
	const max = math.MaxUint64
	t1 := tx("plain", in, []kit.Out{{500, 3}, {490, 1}}, true)
	tx("zero", in, []kit.Out{{0, 3}, {999, 1}}, true)
	tx("allfee", in, nil, true)
	tx("wrap2", in, []kit.Out{{1 << 63, 3}, {1 << 63, 4}, {990, 1}}, true)
	tx("wrapmax", in, []kit.Out{{max, 3}, {2, 4}}, true)
	tx("wrap3", in, []kit.Out{{6148914691236517206, 3}, {6148914691236517206, 4}, {6148914691236517206, 1}}, true)
	tx("max", in, []kit.Out{{max, 3}}, true)
	tx("equal", in, []kit.Out{{1000, 3}}, true)
	tx("more", in, []kit.Out{{1001, 3}}, true)
	tx("twice", []kit.In{{a1.Txs[0], 0, 1}, {a1.Txs[0], 0, 1}}, []kit.Out{{1900, 3}}, true)
	// claims more than the output is worth
	cl := kit.MakeTx(0, in, []kit.Out{{3000, 3}})
	cl.Inputs[0].Utxo.Value = 5000
	u.AddTx("claim", cl)
	ops = append(ops, txOp("claim", cl), headOp("blk:claim", holding(u, "blk:claim", a1, cl)))
	// a coinbase that belongs to no block, and a spend of it
	fake := kit.Coinbase(2, max, 4)
	u.AddTx("fake", fake)
	sf := u.Tx("spendfake", 0, []kit.In{{fake, 0, 4}}, []kit.Out{{max - 5, 5}})
	ops = append(ops, txOp("fake", fake), txOp("spendfake", sf), headOp("blk:spendfake", holding(u, "blk:spendfake", a1, sf)))
	fake2 := kit.Coinbase(3, max, 4)
	u.AddTx("fake2", fake2)
	sf2 := u.Tx("spendfakes", 0, []kit.In{{fake, 0, 4}, {fake2, 0, 4}}, []kit.Out{{max - 5, 5}})
	ops = append(ops, txOp("fake2", fake2), txOp("spendfakes", sf2))
	// coinbases that take more or less than they may
	ops = append(ops,
		headOp("cb+1", u.Block("cb+1", a1, nil, kit.Extra(1))),
		headOp("cb-1", u.Block("cb-1", a1, nil, kit.Extra(-1))),
		headOp("cb+fee", u.Block("cb+fee", a1, []core.Tx{t1}, kit.Extra(10))),
		headOp("cb-fee", u.Block("cb-fee", a1, []core.Tx{t1}, kit.Extra(-10))),
		headOp("cb=max", u.Block("cb=max", a1, nil, kit.CbTx(kit.Coinbase(2, max, 7)))),
		headOp("cb=reward-wrap", u.Block("cb0", a1, nil, kit.CbTx(kit.Coinbase(2, 0, 7)))),
		headOp("nocb", u.Block("nocb", a1, []core.Tx{t1}, kit.NoCb())),
		op{name: "mine", mine: true},
	)
	two := kit.Coinbase(2, 1000, 8)
	two.Outputs = append(two.Outputs, core.TxOut{Value: 1000, PublicKeyHash: kit.Pkh(9)})
	ops = append(ops, headOp("cb2out", u.Block("cb2out", a1, nil, kit.CbTx(two))))
	c2 := kit.Coinbase(2, 1000, 8)
	ops = append(ops, headOp("twocb", u.Block("twocb", a1, []core.Tx{c2})))
	cin := kit.Coinbase(2, 2000, 8)
	cin.Inputs = t1.Inputs
	ops = append(ops, headOp("cbin", u.Block("cbin", a1, nil, kit.CbTx(cin))))

	// off by powers of two, in coinbases and in transactions
	for _, k := range []int{8, 16, 24, 31, 32, 33, 48, 53, 62, 63} {
		d := uint64(1) << k
		n := fmt.Sprintf("cb+2^%d", k)
		more = append(more, headOp(n, u.Block(n, a1, nil, kit.CbTx(kit.Coinbase(2, 1000+d, 7)))),
			headOp(n+"t", u.Block(n+"t", a1, []core.Tx{t1}, kit.CbTx(kit.Coinbase(2, 1010+d, 7)))))
		t := u.Tx(fmt.Sprintf("out+2^%d", k), 0, in, []kit.Out{{100 + d, 3}, {400, 1}})
		more = append(more, txOp(nameOf(u, t), t), headOp("blk:"+nameOf(u, t), holding(u, "blk:"+nameOf(u, t), a1, t)))
	}

	// the whole supply near the top of the range
	p := kit.SmallParams()
	p.BlockReward = 1 << 62
	v := kit.NewUni(p)
	d1 := v.Block("D1", nil, nil, kit.Key(1))
	d2 := v.Block("D2", d1, nil, kit.Key(1))
	both := []kit.In{{d1.Txs[0], 0, 1}, {d2.Txs[0], 0, 1}}
	j := v.Tx("join", 0, both, []kit.Out{{1<<63 - 10, 3}})
	jz := v.Tx("join0", 0, both, []kit.Out{{1 << 63, 3}})
	jm := v.Tx("join+", 0, both, []kit.Out{{1 << 63, 3}, {1 << 63, 4}, {1<<63 - 1, 5}})
	sp := v.Tx("split", 0, []kit.In{{d1.Txs[0], 0, 1}}, []kit.Out{{1 << 61, 3}, {1<<61 - 1, 4}})
	sw := v.Tx("splitwrap", 0, []kit.In{{d1.Txs[0], 0, 1}}, []kit.Out{{1 << 63, 3}, {1 << 63, 4}, {1 << 61, 4}})
	one := v.Tx("one-more", 0, both, []kit.Out{{1<<63 - 10, 3}, {11, 4}})
	d3 := holding(v, "D3", d2, j)
	vops := []op{headOp("D1-D2", d1, d2), headOp("D3", d3), headOp("D3sp", holding(v, "D3sp", d2, sp)),
		headOp("D3jz", holding(v, "D3jz", d2, jz)), headOp("D3jm", holding(v, "D3jm", d2, jm)), headOp("D3sw", holding(v, "D3sw", d2, sw)),
		headOp("D3spj", holding(v, "D3spj", d2, sp, j)), headOp("D2x", holding(v, "D2x", d1, sp)),
		headOp("D3+1", v.Block("D3+1", d2, nil, kit.Extra(1))), headOp("D3-1", v.Block("D3-1", d2, nil, kit.Extra(-1))), headOp("D3+64", v.Block("D3+64", d2, []core.Tx{j}, kit.Extra(64))),
		headOp("D3one", holding(v, "D3one", d2, one)), txOp("one", one),
		txOp("join", j), txOp("join0", jz), txOp("join+", jm), txOp("split", sp), txOp("splitwrap", sw)}
	pr := ledgerProps("C01")
	return []mcx.Scenario{
		{Name: "amounts", Body: func(x *mcx.X) {
			h := newHist(x, u, true, nil, pr...)
			h.seq(headOp("A1", a1))
			h.run(ops, depth, nil)
		}},
		{Name: "coinbase-amounts", Body: func(x *mcx.X) {
			h := newHist(x, u, true, nil, pr...)
			h.seq(headOp("A1", a1))
			h.run(append([]op{headOp("A2", a2), headOp("B1-B3", b1, b2, b3), {name: "mine", mine: true}}, more...), depth-1, nil)
		}},
		{Name: "large-supply", Body: func(x *mcx.X) { newHist(x, v, true, nil, pr...).run(vops, depth+1, nil) }},
		{Name: "forks", Body: func(x *mcx.X) { f := theForks(); newHist(x, f.u, true, nil, pr...).run(f.ops(), depth, nil) }},
		largeScen(pr, depth-1),
		sideScen(pr, 3),
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C01", Scenarios: c01, Assumptions: ledgerAssume, Rule: ledgerRule})
}
