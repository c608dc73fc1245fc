package ledger

import (
	"fmt"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// pool is a universe of pending transactions competing for block space.
type pool struct {
	u      *kit.Uni
	chain  []*kit.Blk
	branch []*kit.Blk // an alternative, longer chain
	txs    []core.Tx
	names  []string
}

func newPool(limit uint64) *pool {
	p := kit.SmallParams()
	p.MaxBlockVSize = limit
	b := &pool{u: kit.NewUni(p)}
	u := b.u
	a1 := u.Block("A1", nil, nil, kit.Key(1))
	a2 := u.Block("A2", a1, nil, kit.Key(2))
	sp := u.Tx("split", 0, []kit.In{{a1.Txs[0], 0, 1}}, []kit.Out{{190, 1}, {190, 1}, {190, 1}, {190, 1}, {190, 1}})
	a3 := u.Block("A3", a2, []core.Tx{sp})
	b.chain = []*kit.Blk{a1, a2, a3}
	y3 := u.Block("Y3", a2, nil, kit.Noise(1))
	y4 := u.Block("Y4", y3, nil, kit.Noise(1))
	b.branch = []*kit.Blk{y3, y4}
	add := func(name string, min uint64, ins []kit.In, outs ...kit.Out) core.Tx {
		t := u.Tx(name, min, ins, outs)
		b.txs = append(b.txs, t)
		b.names = append(b.names, name)
		return t
	}
	o := func(n ...int) (ins []kit.In) {
		for _, i := range n {
			ins = append(ins, kit.In{sp, i, 1})
		}
		return
	}
	p1 := add("p1-fee50", 0, o(0), kit.Out{140, 3})
	add("p2-fee60-conflicts-p1", 0, o(0), kit.Out{130, 4})
	add("p3-two-inputs-fee100", 0, o(1, 2), kit.Out{280, 3})
	add("p4-fee20-conflicts-p3", 0, o(2), kit.Out{170, 3})
	add("p5-fee70-conflicts-p3", 0, o(1), kit.Out{120, 3})
	add("p6-child-of-p1-fee140", 0, []kit.In{{p1, 0, 3}})
	add("p7-fee1", 0, o(3), kit.Out{189, 3})
	add("p8-locked-fee150", 5, o(3), kit.Out{40, 3})
	many := []kit.Out{}
	for i := 0; i < 12; i++ {
		many = append(many, kit.Out{5, 10 + i})
	}
	add("p9-large-fee130", 0, o(4), many...)
	add("p10-fee50-again", 0, []kit.In{{a2.Txs[0], 0, 2}}, kit.Out{950, 3})
	return b
}

func c10(tier string) []mcx.Scenario {
	pr := ledgerProps("C10")
	var out []mcx.Scenario
	limits := []uint64{112 + 2*330, 112 + 3*345, 4000}
	if tier == "thorough" {
		limits = append(limits, 112, 112+280, 112+331, 112+700, 112+900, 112+1300, 112+1600)
	}
	// limits some sets of transactions reach exactly (newPool adds what the split needs)
	sz := func(ns ...int) (s uint64) {
		s = kit.CoinbaseVSize
		all := newPool(4000)
		for _, n := range ns {
			s += kit.TxVSize(all.txs[n])
		}
		return s - 360
	}
	limits = append(limits, sz(0, 9), sz(1, 2), sz(2, 4, 9))
	for i, lim := range limits {
		b := newPool(lim + 360)
		f := fmt.Sprintf("subsets-of-pending-limit-%d", lim)
		_ = i
		out = append(out, mcx.Scenario{Name: f, Body: func(x *mcx.X) {
			var sel []int
			for i := range b.txs {
				if x.Pick(2) == 1 {
					sel = append(sel, i)
				}
			}
			// in listed order or reversed, before or after the chain is built
			if x.Pick(2) == 1 {
				for i, j := 0, len(sel)-1; i < j; i, j = i+1, j-1 {
					sel[i], sel[j] = sel[j], sel[i]
				}
			}
			h := newHist(x, b.u, true, nil, pr...)
			h.seq(headOp("A1-A3", b.chain...))
			for _, i := range sel {
				h.seq(txOp(b.names[i], b.txs[i]))
			}
			h.seq(op{name: "mine", mine: true}, op{name: "mine", mine: true})
			if len(sel) == 3 {
				h.x.Sample("[%v]: last template %v", h.path, h.u.Names(h.n.Targets[len(h.n.Targets)-1].TxIds))
			}
			h.x.State(mcx.Hash(h.n.Targets), false)
		}})
	}
	b := newPool(112 + 3*345 + 360)
	depth := 5
	fd := 4
	if tier == "thorough" {
		depth = 6
	}
	ops := []op{headOp("Y3-Y4", b.branch...), {name: "mine", mine: true}}
	for _, i := range []int{0, 1, 2, 4, 5, 7, 8, 9} {
		ops = append(ops, txOp(b.names[i], b.txs[i]))
	}
	out = append(out, mcx.Scenario{Name: "orders-and-reorganisation", Body: func(x *mcx.X) {
		h := newHist(x, b.u, true, nil, pr...)
		h.seq(headOp("A1-A3", b.chain...))
		h.run(ops, depth, nil)
	}})
	f := theForks()
	fops := append(f.ops(), f.badOps()...)
	out = append(out, mcx.Scenario{Name: "forks", Body: func(x *mcx.X) { newHist(x, f.u, true, nil, pr...).run(fops, fd, nil) }})
	return append(out, largeScen(pr, 2), sideScen(pr, 3))
}

func init() {
	mcx.Register(&mcx.Check{ID: "C10", Scenarios: c10, Assumptions: ledgerAssume, Rule: ledgerRule})
}
