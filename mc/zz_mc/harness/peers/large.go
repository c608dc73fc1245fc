package peers

import (
	"fmt"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// large is a world of long chains and blocks with many transactions.
type large struct {
	w      *world
	l, m   []*kit.Blk // from the first block; they part after the third
	l2     *kit.Blk   // far beyond the end of l
	spread []core.Tx
	wide   core.Tx   // nearly of the greatest size, valid on l[1]
	pend   []core.Tx // valid on l and m
}

const largeN = 110

var largeOnce *large

func theLarge() *large {
	if largeOnce != nil {
		return largeOnce
	}
	p := kit.SmallParams()
	p.BlockReward = 1_000_000
	p.MaxTxVSize = 60_000
	p.MaxBlockVSize = 120_000
	u := kit.NewUni(p)
	u.Earlier(2_000_000)
	g := &large{w: &world{u: u, bad: map[*kit.Blk]*kit.Blk{}}}
	largeOnce = g
	a1 := u.Block("L1", nil, nil, kit.Key(1))
	var outs []kit.Out
	for i := 0; i < 3*largeN; i++ {
		outs = append(outs, kit.Out{V: uint64(1000 + i), K: 10 + i%10})
	}
	fan := u.Tx("fan", 0, []kit.In{{Tx: a1.Txs[0], N: 0, K: 1}}, outs)
	a2 := u.Block("L2", a1, []core.Tx{fan})
	in := func(i int) kit.In { return kit.In{Tx: fan, N: i, K: 10 + i%10} }
	var gi []kit.In
	for i := 0; i < largeN; i++ {
		g.spread = append(g.spread, u.Tx(fmt.Sprintf("s%d", i), 0, []kit.In{in(i)}, []kit.Out{{V: uint64(700 + i), K: 21}}))
		g.pend = append(g.pend, u.Tx(fmt.Sprintf("p%d", i), 0, []kit.In{in(largeN + i)}, []kit.Out{{V: uint64(700 + 2*i), K: 22}}))
		gi = append(gi, in(2*largeN+i))
	}
	gather := u.Tx("gather", 0, gi, []kit.Out{{V: 50_000, K: 23}})
	a3 := u.Block("L3", a2, append(append([]core.Tx{}, g.spread...), gather))
	g.l = []*kit.Blk{a1, a2, a3}
	g.m = []*kit.Blk{a1, a2, a3}
	for i := 4; i <= 145; i++ {
		g.l = append(g.l, u.Block(fmt.Sprintf("L%d", i), g.l[i-2], nil, kit.Key(30)))
	}
	for i := 4; i <= 148; i++ {
		g.m = append(g.m, u.Block(fmt.Sprintf("M%d", i), g.m[i-2], nil, kit.Key(31), kit.Noise(3)))
	}
	g.l2 = g.l[len(g.l)-1]
	for i := 146; i <= 1100; i++ {
		g.l2 = u.Block(fmt.Sprintf("L%d", i), g.l2, nil, kit.Key(30))
	}
	var wide []kit.Out // a transaction of many outputs as large as a block may hold
	for i := 0; i < 800; i++ {
		wide = append(wide, kit.Out{V: uint64(1 + i%3), K: 10 + i%10})
	}
	g.wide = u.Tx("wide", 0, gi[1:], wide)
	u.Valid(g.l[144], g.m[147], g.l2)
	return g
}

// largeSync: nodes lacking, or parting by, more than a hundred blocks converge, when they connect and while connected.
func largeSync() mcx.Scenario {
	return mcx.Scenario{Name: "in-large-numbers", Body: func(x *mcx.X) {
		g := theLarge()
		w := g.w
		hs := []*kit.Blk{nil, g.l[1], g.l[2], g.l[69], g.l[144], g.m[69], g.m[147], g.l2}
		i, j := x.Pick(len(hs)), x.Pick(len(hs))
		more := x.Pick(2) == 1
		a := kit.StartFull(x, "a", "10.0.0.1", kit.FullOpt{P: w.u.P})
		w.give(x, a, hs[i])
		b := kit.StartFull(x, "b", "10.0.0.2", kit.FullOpt{P: w.u.P, Seeds: []string{"10.0.0.1" + kit.Port}, Late: true})
		w.give(x, b, hs[j])
		b.StartNet()
		settle(x, 6*sec)
		given := []*kit.Blk{hs[i], hs[j]}
		desc := fmt.Sprintf("a has %s, b dials with %s", nm(hs[i]), nm(hs[j]))
		if more {
			desc += ", then a learns " + g.l2.Name
			w.give(x, a, g.l2)
			given = append(given, g.l2)
			settle(x, 6*sec)
		}
		w.converged(x, desc, []*kit.Node{a, b}, given)
		x.State(mcx.Hash(desc), false)
		x.Sample("%s", desc)
	}}
}
