package ledger

import (
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// restart stops the node and starts it again on its files (with another head recorded, when given).
func (h *hist) restart(head *H) {
	h.path = append(h.path, "restart")
	h.x.S.KillNode(h.n.N)
	if head != nil {
		h.path[len(h.path)-1] = "restart with head " + h.u.Name(*head)
		h.n.N.FS.PutFile(*h.disk+"/head", []byte(head.String()))
	}
	h.restartOn(h.n.N.FS)
}

// restartOn starts a fresh process on the given files.
func (h *hist) restartOn(fs *mcrt.FS) {
	mn := h.x.S.NewNode("n", "10.0.0.1")
	mn.FS = fs
	h.n = kit.StartOn(h.x, mn, h.u.P, true, h.disk)
	h.head = h.n.Head()
	if h.n.Dead != "" {
		h.fail("dead", "%s", h.n.Dead)
		return
	}
	h.known = kit.NewRef(h.u.P)
	h.lost = map[H]bool{}
	h.sync(unix())
	l := h.u.Ref.Ledger(h.head)
	for id := range h.known.Tx {
		if _, ok := l.Inc[id]; !ok {
			h.lost[id] = true
		}
	}
	if !h.check {
		return
	}
	if l := h.u.Ref.Ledger(h.head); l.Err != "" {
		h.fail("spend", "after restarting, the head is %s: %s", h.u.Name(h.head), l.Err)
	}
}

func c02(tier string) []mcx.Scenario {
	f := theForks()
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	dir := "/Data-1"
	pr := ledgerProps("C02")
	ops := append(f.ops(), f.badOps()...)
	// re-inclusion and double spends across a reorganisation
	u := f.u
	late := u.Block("D4late", f.y3, []core.Tx{f.t1, f.t1x}, kit.Hide())
	late2 := u.Block("D4late2", f.y3, []core.Tx{f.t2}, kit.Hide())
	long := u.Block("D5", u.Block("A4again", f.a3, []core.Tx{f.t2}, kit.Noise(4), kit.Hide()), nil, kit.Hide())
	cbAgain := u.Block("Dcb", f.a1, []core.Tx{f.t1}, kit.CbTx(kit.Coinbase(2, 1010, 3)), kit.Hide(), kit.Noise(8))
	cbAgain2 := u.Block("Dcb3", cbAgain, nil, kit.CbTx(kit.Coinbase(3, 1000, 3)), kit.Hide(), kit.Noise(8))
	reops := append(ops[:len(ops):len(ops)], headOp("D4late", late), headOp("D4late2", late2), headOp("D5", long), headOp("Dcb-", cbAgain, cbAgain2))
	files := []op{headOp("A1", f.a1), headOp("A2", f.a2), headOp("A3", f.a3), headOp("X2", f.x2), headOp("X3", f.x3),
		headOp("D2both", f.bad[0]), headOp("D3again", f.bad[1]), headOp("D3again-D4", f.bad[1], f.bad[6]), headOp("D3order", f.bad[3]), headOp("D3respend", f.bad[4]),
		txOp("t1", f.t1), {name: "mine", mine: true}}
	heads := []H{f.a3.ID, f.x3.ID, f.bad[0].ID, f.bad[1].ID, f.bad[6].ID, f.bad[3].ID, f.bad[4].ID}
	return []mcx.Scenario{
		{Name: "double-spends", Body: func(x *mcx.X) { newHist(x, u, true, nil, pr...).run(ops, depth, nil) }},
		{Name: "double-spends-after-reorganisation", Body: func(x *mcx.X) {
			h := newHist(x, u, true, nil, pr...)
			pre := [][]op{
				{headOp("A1", f.a1), headOp("A2", f.a2), headOp("Y2-Y3", f.y2, f.y3)},
				{headOp("A1", f.a1), headOp("X2", f.x2), headOp("A2-A3", f.a2, f.a3)},
				{headOp("A1", f.a1), headOp("A2", f.a2), headOp("A3", f.a3), headOp("B1-B4", f.b1, f.b2, f.b3, f.b4), txOp("t1", f.t1)},
			}
			h.seq(pre[x.Pick(len(pre))]...)
			h.run(reops, 3, nil)
		}},
		{Name: "reload-from-disk", Body: func(x *mcx.X) {
			h := newHist(x, u, true, &dir, pr...)
			d := depth - 1
			for i := 0; i < d; i++ {
				k := x.Pick(len(files) + 1)
				h.check = !x.S.Replaying()
				if k == 0 {
					break
				}
				h.do(files[k-1])
			}
			h.check = true
			if h.n.Dead != "" {
				return
			}
			if k := x.Pick(len(heads) + 1); k > 0 {
				h.restart(&heads[k-1])
			} else {
				h.restart(nil)
			}
			h.judge()
		}},
		largeScen(pr, depth-2),
		sideScen(pr, 3),
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C02", Scenarios: c02, Assumptions: ledgerAssume, Rule: ledgerRule})
}
