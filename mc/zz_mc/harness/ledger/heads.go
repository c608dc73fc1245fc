package ledger

import (
	"math/big"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

var ledgerAssume = []string{
	"the chain processes one event at a time (its loop is the real one; events arrive through the real bus); inputs come from the stated universe of transactions and blocks; difficulty is low so that blocks can be made",
}

var ledgerRule = "every sequence of at most the stated number of operations (offering a head with its data, offering a transaction, mining the offered template, restarting) over the scenario's universe; a state is a distinct combination of held entities, head, answers, template and the chain's complete memory; continuations of a state already reached are explored once"

func lowTarget(div int64) H {
	return kit.FromBig(new(big.Int).Div(kit.Big(kit.EasyTarget), big.NewInt(div)))
}

// works is a universe whose blocks differ in work: the difficulty changes at height 4.
type works struct {
	u                                *kit.Uni
	a1, a2, a3, a3b, c1, c2, c3, c4  *kit.Blk
	e4, e5, e6, e7, s4, s4b, s4m, s5 *kit.Blk
	s4p, h4, h5, h4bad, h5bad        *kit.Blk
	easy, hard                       H
}

func newWorks(max, orig H) *works {
	p := kit.SmallParams()
	p.DifficultyPeriod = 4
	p.MaxTarget, p.OriginalTarget = max, orig
	w := &works{u: kit.NewUni(p)}
	u := w.u
	w.a1 = u.Block("a1", nil, nil, kit.Key(1))
	w.a2 = u.Block("a2", w.a1, nil, kit.Key(2))
	w.a3 = u.Block("a3", w.a2, nil, kit.Key(3))
	w.a3b = u.Block("a3'", w.a2, nil, kit.Noise(1))
	w.c1 = u.Block("c1", nil, nil, kit.Noise(2))
	w.c2 = u.Block("c2", w.c1, nil, kit.Noise(2))
	w.c3 = u.Block("c3", w.c2, nil, kit.Noise(2))
	w.c4 = u.Block("c4", w.c3, nil, kit.Noise(2), kit.Target(p.OriginalTarget))
	same := p.OriginalTarget
	easy, hard := u.MaxNext(same), u.MinNext(same)
	w.easy, w.hard = easy, hard
	w.e4 = u.Block("e4", w.a3, nil, kit.Target(easy))
	w.e5 = u.Block("e5", w.e4, nil)
	w.e6 = u.Block("e6", w.e5, nil)
	w.e7 = u.Block("e7", w.e6, nil)
	w.s4 = u.Block("s4", w.a3, nil, kit.Target(same))
	all := new(big.Int).Lsh(big.NewInt(1), 256)
	w.s4b = u.Block("s4'", w.a3, nil, kit.Target(same), kit.Noise(1))
	w.s4m = u.Block("s4-", w.a3, nil, kit.Target(kit.FromBig(new(big.Int).Sub(kit.Big(same), big.NewInt(1)))))
	w.s4p = u.Block("s4+", w.a3, nil, kit.Target(kit.FromBig(new(big.Int).Div(all, new(big.Int).Add(new(big.Int).Div(all, kit.Big(same)), big.NewInt(1))))))
	w.s5 = u.Block("s5", w.s4, nil)
	w.h4 = u.Block("h4", w.a3, nil, kit.Target(hard))
	w.h5 = u.Block("h5", w.h4, nil)
	cb := []kit.In{{w.a1.Txs[0], 0, 1}}
	d1 := kit.MakeTx(0, cb, []kit.Out{{900, 5}})
	d2 := kit.MakeTx(0, cb, []kit.Out{{910, 6}})
	w.h4bad = u.Block("h4bad", w.a3, []core.Tx{d1, d2}, kit.Target(hard))
	w.h5bad = u.Block("h5bad", w.h4bad, nil)
	u.Valid(w.a1, w.a2, w.a3, w.a3b, w.c1, w.c2, w.c3, w.c4, w.e4, w.e5, w.e6, w.e7, w.s4, w.s4b, w.s4m, w.s5, w.s4p, w.h4, w.h5)
	u.Invalid(w.h4bad, w.h5bad)
	return w
}

func c04(tier string) []mcx.Scenario {
	w := newWorks(kit.EasyTarget, lowTarget(4))
	depth := 4
	if tier == "thorough" {
		depth = 6
	}
	hard := map[string]*works{"production": newWorks(kit.ProdTarget, kit.FromBig(new(big.Int).Rsh(kit.Big(kit.ProdTarget), 3))), "hard": newWorks(kit.ProdTarget, kit.HardTarget)}
	opsOf := func(w *works) []op {
		return []op{
			headOp("a1", w.a1), headOp("a2", w.a2), headOp("a3", w.a3), headOp("a3'", w.a3b),
			headOp("a1-a3", w.a1, w.a2, w.a3), headOp("c1-c4", w.c1, w.c2, w.c3, w.c4), headOp("c1-c2", w.c1, w.c2),
			headOp("e4-e7", w.e4, w.e5, w.e6, w.e7), headOp("e4", w.e4), headOp("e5-e6", w.e5, w.e6), headOp("e7", w.e7),
			headOp("s4", w.s4), headOp("s4'", w.s4b), headOp("s4-", w.s4m), headOp("s4+", w.s4p), headOp("s5", w.s5),
			headOp("h4", w.h4), headOp("h5", w.h5), headOp("h4bad", w.h4bad), headOp("h5bad", w.h5bad), headOp("h4bad-h5bad", w.h4bad, w.h5bad),
			{name: "mine", mine: true},
		}
	}
	ops := opsOf(w)
	var bare []op
	for _, k := range []*kit.Blk{w.a1, w.a2, w.a3, w.a3b, w.c1, w.c2, w.c3, w.c4, w.e4, w.e5, w.e6, w.e7, w.s4, w.s4b, w.s5, w.h4, w.h5, w.h4bad, w.h5bad} {
		bare = append(bare, bareOp("bare-"+k.Name, k))
	}
	bare = append(bare, evOp("bare-zero", bus.CandidateHeadEvent{}), evOp("bare-unknown", bus.CandidateHeadEvent{Head: kit.DH([]byte("nothing"))}),
		headOp("e4-e7", w.e4, w.e5, w.e6, w.e7), op{name: "mine", mine: true})
	dir := "/Data-1"
	f := theForks()
	pr := ledgerProps("C04")
	return []mcx.Scenario{
		{Name: "different-work", Body: func(x *mcx.X) { newHist(x, w.u, true, nil, pr...).run(ops, depth, nil) }},
		{Name: "different-work-from-a3", Body: func(x *mcx.X) {
			h := newHist(x, w.u, true, nil, pr...)
			h.seq(headOp("a1-a3", w.a1, w.a2, w.a3))
			h.run(ops, depth, nil)
		}},
		{Name: "production-difficulty", Body: func(x *mcx.X) {
			w := hard[[]string{"production", "hard"}[x.Pick(2)]]
			h := newHist(x, w.u, true, nil, pr...)
			if x.Pick(2) == 1 {
				h.seq(headOp("a1-a3", w.a1, w.a2, w.a3))
			}
			h.run(opsOf(w), depth-1, nil)
		}},
		{Name: "invalid-branches", Body: func(x *mcx.X) { newHist(x, f.u, true, nil, pr...).run(append(f.ops(), f.badOps()...), 3, nil) }},
		{Name: "heads-known-beforehand", Body: func(x *mcx.X) {
			h := newHist(x, w.u, true, nil, pr...)
			pre := [][]op{{}, {headOp("a1", w.a1)}, {headOp("a1-a3", w.a1, w.a2, w.a3)}, {headOp("c1-c2", w.c1, w.c2)}}
			h.seq(pre[x.Pick(len(pre))]...)
			h.seq(storeOp("store-all", w.a1, w.a2, w.a3, w.a3b, w.c1, w.c2, w.c3, w.c4, w.e4, w.e5, w.e6, w.e7, w.s4, w.s4b, w.s5, w.h4, w.h5, w.h4bad, w.h5bad))
			h.run(bare, depth-1, nil)
		}},
		{Name: "restarts", Body: func(x *mcx.X) {
			h := newHist(x, w.u, true, &dir, pr...)
			h.restarts(ops, 3)
		}},
		{Name: "without-miners", Body: func(x *mcx.X) { newHist(x, w.u, false, nil, pr...).run(ops[:len(ops)-1], 3, nil) }},
		largeScen(pr, depth-2),
		sideScen(append([]string{"accept"}, pr...), 3),
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C04", Scenarios: c04, Assumptions: ledgerAssume, Rule: ledgerRule})
}
