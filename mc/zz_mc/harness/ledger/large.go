package ledger

import (
	"fmt"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// large is a universe of ordinary things in unusual numbers: chains of some 150 blocks, transactions with more
// than 100 inputs and outputs, blocks and sets of pending transactions of more than 100.
type large struct {
	u             *kit.Uni
	pre           []op
	ops           []op
	fan           core.Tx
	base          *kit.Blk   // holds fan
	long          []*kit.Blk // continues base by 140 blocks
	away          []*kit.Blk // from the first block, longer than that
	spread        []core.Tx  // 110 transactions spending one output of fan each
	gather        core.Tx    // 110 inputs and outputs
	bad           []core.Tx  // the same with something wrong at the end
	spreadB, manB *kit.Blk
}

const (
	largeN     = 110
	largeChain = 140
)

var largeOnce *large

func theLarge() *large {
	if largeOnce == nil {
		largeOnce = newLarge()
	}
	return largeOnce
}

func newLarge() *large {
	p := kit.SmallParams()
	p.BlockReward = 1_000_000
	p.MaxTxVSize = 60_000
	p.MaxBlockVSize = 120_000
	g := &large{u: kit.NewUni(p)}
	u := g.u
	u.Earlier(200_000)
	a1 := u.Block("A1", nil, nil, kit.Key(1))
	var outs []kit.Out
	for i := 0; i < 3*largeN; i++ {
		outs = append(outs, kit.Out{V: uint64(1000 + i), K: 10 + i%40})
	}
	for i := 0; i < 270; i++ { // one owner has very many
		outs = append(outs, kit.Out{V: uint64(700 + i), K: 69})
	}
	g.fan = u.Tx("fan", 0, []kit.In{{a1.Txs[0], 0, 1}}, outs)
	g.base = u.Block("A2", a1, []core.Tx{g.fan})
	in := func(i int) kit.In { return kit.In{Tx: g.fan, N: i, K: 10 + i%40} }
	for i := 0; i < largeN; i++ {
		g.spread = append(g.spread, u.Tx(fmt.Sprintf("s%d", i), 0, []kit.In{in(i)}, []kit.Out{{V: uint64(800 + i), K: 60 + i%7}}))
	}
	var gi []kit.In
	var gouts []kit.Out
	for i := 0; i < largeN; i++ {
		gi = append(gi, in(largeN-1+i)) // shares one output with the last of spread
		gouts = append(gouts, kit.Out{V: uint64(900 + i), K: 70 + i%3})
	}
	g.gather = u.Tx("gather", 0, gi, gouts)
	rev := make([]kit.In, len(gi))
	for i := range gi {
		rev[len(gi)-1-i] = gi[i]
	}
	gatherRev := u.Tx("gather-reversed", 0, rev, gouts[1:])
	rival := u.Tx("rival", 0, []kit.In{in(2*largeN - 2)}, []kit.Out{{V: 500, K: 75}}) // last input of gather
	// the same transaction with something wrong at its very end
	last := len(gi) - 1
	wrong := func(name string, f func(t *core.Tx)) core.Tx {
		t := kit.CloneTx(g.gather)
		f(&t)
		return u.AddTx(name, t)
	}
	resign := func(t *core.Tx) {
		for i := range t.Inputs {
			t.Inputs[i].Signature = kit.SignFor(gi[i].K, t.MinBlock, t.Outputs)
		}
	}
	g.bad = []core.Tx{
		wrong("gather:other-signature", func(t *core.Tx) {
			t.Inputs[last].Signature = kit.SignFor(gi[last].K, 1, t.Outputs)
		}),
		wrong("gather:other-owner", func(t *core.Tx) {
			t.Inputs[last].PublicKey, t.Inputs[last].Signature = kit.Pub(9), kit.SignFor(9, 0, t.Outputs)
		}),
		wrong("gather:claims-more", func(t *core.Tx) { t.Inputs[last].Utxo.Value += 50 }),
		wrong("gather:unknown-output", func(t *core.Tx) { t.Inputs[last].Utxo.Ind = uint64(len(outs)) }),
		wrong("gather:same-output-twice", func(t *core.Tx) { t.Inputs[last] = t.Inputs[0] }),
		wrong("gather:creates-value", func(t *core.Tx) { t.Outputs[last].Value += 200_000; resign(t) }),
	}
	over := make([]kit.Out, 0, 1600)
	for i := 0; i < 1600; i++ {
		over = append(over, kit.Out{V: 0, K: 70})
	}
	tooBig := u.Tx("too-large", 0, []kit.In{in(0)}, over)
	g.spreadB = u.Block("A3:spread", g.base, g.spread)
	g.manB = u.Block("A3:gather", g.base, []core.Tx{g.gather})
	b := func(name string, parent *kit.Blk, txs []core.Tx, o ...kit.Opt) *kit.Blk {
		k := u.Block(name, parent, txs, append(o, kit.Noise(5))...)
		u.Invalid(k)
		return k
	}
	mid := g.spread[largeN/2]
	again := append(append([]core.Tx{}, g.spread[:largeN-1]...), g.gather, rival) // last conflicts with the one before
	badB := []*kit.Blk{
		b("A3:last-conflicts", g.base, append(append([]core.Tx{}, g.spread...), g.gather)),
		b("A3:rival-last", g.base, again),
		b("A3:coinbase+1", g.base, g.spread, kit.Extra(1)),
		b("A3:coinbase-1", g.base, g.spread, kit.Extra(-1)),
		b("A3:many-conflict-with-first", g.base, []core.Tx{rival, g.gather}),
		b("A3:many-conflict-with-last", g.base, append(append([]core.Tx{}, g.spread...), gatherRev)),
		b("A4:again", g.spreadB, []core.Tx{mid}),
		b("A4:many-respend", g.spreadB, []core.Tx{gatherRev}),
		b("A4:respend", g.manB, []core.Tx{rival}),
	}
	// trees as deep as they are wide, and one transaction at both ends of a block
	comb := func(ids []H) (out []core.MerkleNode) {
		cur := ids[len(ids)-1]
		for i := len(ids) - 2; i >= 0; i-- {
			m := core.MerkleNode{LChild: ids[i], RChild: cur}
			out = append(out, m)
			cur = m.Hash()
		}
		return
	}
	combLeft := func(ids []H) (out []core.MerkleNode) {
		cur := ids[1]
		for _, id := range append(append([]H{}, ids[2:]...), ids[0]) {
			m := core.MerkleNode{LChild: cur, RChild: id}
			out = append(out, m)
			cur = m.Hash()
		}
		return
	}
	ends := append(append([]core.Tx{}, g.spread...), g.spread[0])
	trees := []*kit.Blk{u.Block("A3:comb", g.base, g.spread, kit.WithTree(comb), kit.Noise(6))}
	badB = append(badB, b("A3:comb-first-again", g.base, ends, kit.WithTree(comb)), b("A3:first-again", g.base, ends))
	trees = append(trees, u.Block("A3:comb-left", g.base, g.spread, kit.WithTree(combLeft), kit.Noise(6)))
	badB = append(badB, b("A3:comb-left-first-again", g.base, ends, kit.WithTree(combLeft)))
	u.Valid(trees...)
	prev := g.spreadB
	for i := 0; i < largeChain; i++ {
		prev = u.Block(fmt.Sprintf("A%d", i+4), prev, nil)
		g.long = append(g.long, prev)
	}
	deep := b("Aend:respend-deep", prev, []core.Tx{g.gather})
	deep2 := b("Aend:again-deep", prev, []core.Tx{mid})
	prev = a1
	for i := 0; i < largeChain+6; i++ {
		prev = u.Block(fmt.Sprintf("B%d", i+2), prev, nil, kit.Noise(3))
		g.away = append(g.away, prev)
	}
	u.Valid(g.spreadB, g.manB, g.long[len(g.long)-1], prev)
	g.pre = []op{headOp("A1", a1), headOp("A2", g.base)}
	pend := bus.CandidateHeadEvent{Txs: append([]core.Tx{}, g.spread...)}
	for _, i := range []int{3 * largeN, 3*largeN + 100, len(outs) - 1} {
		pend.Txs = append(pend.Txs, u.Tx(fmt.Sprintf("h%d", i), 0, []kit.In{{Tx: g.fan, N: i, K: 69}}, []kit.Out{{V: 600, K: 76}}))
	}
	cont := u.Block("A-end2", g.long[len(g.long)-1], nil)
	for i := 0; i < 6; i++ {
		cont = u.Block(fmt.Sprintf("A-end%d", 3+i), cont, nil)
	}
	chain := append([]*kit.Blk{g.spreadB}, g.long...)
	g.ops = []op{
		evOp("pending:s0-s109,h330,h430,h599", pend), headOp("A3:spread", g.spreadB), headOp("A3:gather", g.manB),
		headOp("A3:spread-A143", chain...), headOp("B2-B147", g.away...),
		headOp("A-A151", append(append([]*kit.Blk{}, chain...), u.Chain(cont)[len(chain)+2:]...)...),
		txOp("gather", g.gather), txOp("rival", rival), txOp("gather-reversed", gatherRev), txOp("too-large", tooBig), {name: "mine", mine: true},
	}
	for _, t := range g.bad {
		g.ops = append(g.ops, txOp(nameOf(u, t), t), headOp("A3:"+nameOf(u, t), holding(u, "A3:"+nameOf(u, t), g.base, t)))
	}
	g.ops = append(g.ops, headOp("A3:comb", trees[0]), headOp("A3:comb-left", trees[1]))
	for _, k := range badB {
		if k.B.PrevBlockId == g.base.ID {
			g.ops = append(g.ops, headOp(k.Name, k))
		} else {
			par := g.spreadB
			if k.B.PrevBlockId == g.manB.ID {
				par = g.manB
			}
			g.ops = append(g.ops, headOp(par.Name+"-"+k.Name, par, k))
		}
	}
	g.ops = append(g.ops, headOp(deep.Name, append(append([]*kit.Blk{}, chain...), deep)...), headOp(deep2.Name, append(append([]*kit.Blk{}, chain...), deep2)...))
	return g
}

func nameOf(u *kit.Uni, t core.Tx) string { return u.Name(t.Hash()) }

// largeScen is the scenario of that universe for a property of the ledger.
func largeScen(pr []string, depth int) mcx.Scenario {
	return mcx.Scenario{Name: "in-large-numbers", Body: func(x *mcx.X) {
		g := theLarge()
		h := newHist(x, g.u, true, nil, pr...)
		h.seq(g.pre...)
		h.run(g.ops, depth, nil)
	}}
}
