package ledger

import (
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// side is a universe in which chains with more work are no longer than, or shorter than, those they replace: three
// blocks, then branches of three difficulties that carry transfers, some of them minimum heights.
type side struct {
	u        *kit.Uni
	pre, ops []op
}

var sideOnce *side

func theSide() *side {
	if sideOnce != nil {
		return sideOnce
	}
	p := kit.SmallParams()
	p.DifficultyPeriod = 4
	p.MaxTarget, p.OriginalTarget = kit.EasyTarget, lowTarget(4)
	u := kit.NewUni(p)
	s := &side{u: u}
	sideOnce = s
	a1 := u.Block("a1", nil, nil, kit.Key(1))
	a2 := u.Block("a2", a1, nil, kit.Key(2))
	a3 := u.Block("a3", a2, nil, kit.Key(3))
	cb := func(k *kit.Blk, key int) []kit.In { return []kit.In{{Tx: k.Txs[0], N: 0, K: key}} }
	t1 := u.Tx("t1", 0, cb(a1, 1), []kit.Out{{V: 600, K: 3}, {V: 390, K: 1}})
	t1x := u.Tx("t1x", 0, cb(a1, 1), []kit.Out{{V: 980, K: 6}})
	t2 := u.Tx("t2", 0, []kit.In{{Tx: t1, N: 0, K: 3}}, []kit.Out{{V: 590, K: 4}})
	l5 := u.Tx("l5", 5, cb(a2, 2), []kit.Out{{V: 970, K: 5}})
	l6 := u.Tx("l6", 6, cb(a3, 3), []kit.Out{{V: 960, K: 6}})
	same := p.OriginalTarget
	easy, hard := u.MaxNext(same), u.MinNext(same)
	e4 := u.Block("e4", a3, []core.Tx{t1}, kit.Target(easy), kit.Key(7))
	e5 := u.Block("e5", e4, []core.Tx{t2, l5}, kit.Key(7))
	e6 := u.Block("e6", e5, []core.Tx{l6}, kit.Key(7))
	n4 := u.Block("n4", a3, nil, kit.Target(easy), kit.Key(7), kit.Noise(1))
	s4 := u.Block("s4", a3, []core.Tx{t1x}, kit.Target(same), kit.Key(8))
	s5 := u.Block("s5", s4, []core.Tx{l5}, kit.Key(8))
	h4 := u.Block("h4", a3, []core.Tx{t1, t2}, kit.Target(hard), kit.Key(9))
	h4l := u.Block("h4l", a3, []core.Tx{l5}, kit.Target(hard), kit.Key(9))
	h5 := u.Block("h5", h4, []core.Tx{l5}, kit.Key(9))
	u.Valid(a1, a2, a3, n4, e4, e5, e6, s4, s5, h4, h5)
	u.Invalid(h4l)
	part := kit.Event(h4)
	part.Txs = part.Txs[:1]
	half := kit.Event(s4, s5)
	half.Merkles = nil
	s.pre = []op{headOp("a1-a3", a1, a2, a3)}
	s.ops = []op{headOp("n4", n4), headOp("e4", e4), headOp("e4-e6", e4, e5, e6), headOp("s4", s4), headOp("s5", s4, s5), headOp("h4", h4), headOp("h5", h4, h5), headOp("h4l", h4l),
		evOp("h4 incomplete", part), evOp("s4-s5 without merkles", half),
		txOp("t1", t1), txOp("t1x", t1x), txOp("t2", t2), txOp("l5", l5), txOp("l6", l6), {name: "mine", mine: true}}
	return s
}

// sideScen is the scenario of that universe for a property of the ledger.
func sideScen(pr []string, depth int) mcx.Scenario {
	return mcx.Scenario{Name: "shorter-chains-with-more-work", Body: func(x *mcx.X) {
		s := theSide()
		h := newHist(x, s.u, true, nil, pr...)
		h.seq(s.pre...)
		h.run(s.ops, depth, nil)
	}}
}
