package ledger

import (
	"fmt"
	"math"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

func c09(tier string) []mcx.Scenario {
	depth := 5
	if tier == "thorough" {
		depth = 7
	}
	w := newWorks(kit.EasyTarget, lowTarget(4))
	u := w.u
	spend := func(name string, b *kit.Blk, k int, min uint64) core.Tx {
		return u.Tx(name, min, []kit.In{{b.Txs[0], 0, k}}, []kit.Out{{990, k}})
	}
	l4 := spend("L4", w.a1, 1, 4)
	l5 := spend("L5", w.a2, 2, 5)
	l7 := spend("L7", w.a3, 3, 7)
	lm := u.Tx("Lmax", math.MaxUint64, []kit.In{{w.a3.Txs[0], 0, 3}}, []kit.Out{{900, 3}})
	lm1 := u.Tx("Lmax-1", math.MaxUint64-1, []kit.In{{w.a2.Txs[0], 0, 2}}, []kit.Out{{800, 3}})
	ch := u.Tx("child4", 0, []kit.In{{l4, 0, 1}}, []kit.Out{{900, 5}})
	b := func(name string, parent *kit.Blk, txs ...core.Tx) *kit.Blk {
		o := []kit.Opt{kit.Noise(4)}
		return u.Block(name, parent, txs, o...)
	}
	t := func(name string, parent *kit.Blk, target H, txs ...core.Tx) *kit.Blk {
		return u.Block(name, parent, txs, kit.Target(target), kit.Noise(4))
	}
	easy, hard := w.easy, w.hard
	e4l := t("e4L4", w.a3, easy, l4)
	e4c := t("e4L4c", w.a3, easy, l4, ch)
	e4bad := t("e4L5", w.a3, easy, l5)
	e5l := b("e5L5", w.e4, l5)
	e6bad := b("e6L7", w.e5, l7)
	e7l := b("e7L7", w.e6, l7)
	e5max := b("e5Lmax", w.e4, lm)
	e5max1 := b("e5Lmax-1", w.e4, lm1)
	h4bad := t("h4L5", w.a3, hard, l5)
	h4l := t("h4L4", w.a3, hard, l4)
	h5l := b("h5L5", w.h4, l5)
	h5bad := b("h5L7", w.h4, l7)
	u.Valid(e4l, e4c, e5l, e7l, h4l, h5l)
	u.Invalid(e4bad, e6bad, e5max, e5max1, h4bad, h5bad)
	ops := []op{
		txOp("L4", l4), txOp("L5", l5), txOp("L7", l7), txOp("Lmax", lm), txOp("child4", ch),
		headOp("e4", w.e4), headOp("e5", w.e4, w.e5), headOp("e4L4", e4l), headOp("e4L4c", e4c), headOp("e4L5", e4bad),
		headOp("e5L5", w.e4, e5l), headOp("e6", w.e6), headOp("e6L7", e6bad), headOp("e4-e7L7", w.e4, w.e5, w.e6, e7l), headOp("e5Lmax", e5max), headOp("e5Lmax-1", e5max1),
		headOp("h4", w.h4), headOp("h4L5", h4bad), headOp("h4L4", h4l), headOp("h5L5", h5l), headOp("h5L7", h5bad),
		{name: "mine", mine: true},
	}
	// heights beyond every narrower number, and one reached long ago
	far := []op{headOp("e4", w.e4), headOp("e5", w.e4, w.e5), headOp("h4", w.h4), {name: "mine", mine: true}}
	for i, min := range []uint64{1<<8 + 4, 1<<16 + 4, 1<<31 + 4, 1 << 32, 1<<32 + 4, 1<<53 + 4, 1 << 63, 1<<63 + 4} {
		t := u.Tx(fmt.Sprintf("F%d", i), min, []kit.In{{w.a1.Txs[0], 0, 1}}, []kit.Out{{500 + uint64(i), 3}})
		k := b(fmt.Sprintf("e5F%d", i), w.e4, t)
		u.Invalid(k)
		far = append(far, txOp(fmt.Sprintf("F:%x", min), t), headOp(fmt.Sprintf("e5F:%x", min), w.e4, k))
	}
	dir := "/Data-1"
	pr := ledgerProps("C09")
	return []mcx.Scenario{
		{Name: "heights", Body: func(x *mcx.X) {
			h := newHist(x, u, true, nil, pr...)
			h.seq(headOp("a1-a3", w.a1, w.a2, w.a3))
			h.run(ops, depth-1, nil)
		}},
		{Name: "reorganised-down", Body: func(x *mcx.X) {
			h := newHist(x, u, true, nil, pr...)
			h.seq(headOp("a1-a3", w.a1, w.a2, w.a3), headOp("e4-e7L7", w.e4, w.e5, w.e6, e7l), txOp("L5", l5))
			h.run(ops, depth-1, nil)
		}},
		{Name: "reload-from-disk", Body: func(x *mcx.X) {
			h := newHist(x, u, true, &dir, pr...)
			h.seq(headOp("a1-a3", w.a1, w.a2, w.a3))
			heads := []H{w.e6.ID, e6bad.ID, h4bad.ID, e4bad.ID}
			h.seq(headOp("e4", w.e4, w.e5, w.e6), headOp("e6L7", e6bad), headOp("h4L5", h4bad), headOp("e4L5", e4bad))
			k := x.Pick(len(heads) + 1)
			if k > 0 {
				h.restart(&heads[k-1])
			} else {
				h.restart(nil)
			}
			h.lockErr()
			h.run(ops, depth-3, nil)
		}},
		{Name: "far-heights", Body: func(x *mcx.X) {
			h := newHist(x, u, true, nil, pr...)
			h.seq(headOp("a1-a3", w.a1, w.a2, w.a3))
			h.run(far, depth-2, nil)
		}},
		largeScen(pr, depth-3),
		sideScen(pr, 3),
	}
}

// lockErr: the current chain must hold no transaction below its minimum height.
func (h *hist) lockErr() {
	for id := h.head; !id.EqZero(); id = h.u.Ref.Bl[id].PrevBlockId {
		ht := h.u.Ref.Height(id)
		for _, t := range h.u.Ref.Leaves(h.u.Ref.Bl[id].MerkleRoot) {
			if h.u.Ref.Tx[t].MinBlock > ht {
				h.fail("lock", "%s is on the chain at height %d", h.u.Name(t), ht)
			}
		}
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C09", Scenarios: c09, Assumptions: ledgerAssume, Rule: ledgerRule})
}
