package ledger

import (
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// forks is a universe with competing branches, transfers across them, chained transactions inside a
// block and double spends of every kind.
type forks struct {
	u                          *kit.Uni
	a1, a2, a3, a4, x2, x3, x4 *kit.Blk
	b1, b2, b3, b4, y2, y3     *kit.Blk
	tdup                       core.Tx
	ddup                       *kit.Blk
	bad                        []*kit.Blk
	ok3                        *kit.Blk
	t1, t1x, t2, t3, t4        core.Tx
}

func newForks() *forks {
	f := &forks{u: kit.NewUni(kit.SmallParams())}
	u := f.u
	f.a1 = u.Block("A1", nil, nil, kit.Key(1))
	cb := f.a1.Txs[0]
	f.t1 = u.Tx("t1", 0, []kit.In{{cb, 0, 1}}, []kit.Out{{600, 3}, {390, 1}})
	f.t1x = u.Tx("t1x", 0, []kit.In{{cb, 0, 1}}, []kit.Out{{980, 6}})
	f.t2 = u.Tx("t2", 0, []kit.In{{f.t1, 0, 3}}, []kit.Out{{590, 4}})
	f.t3 = u.Tx("t3", 0, []kit.In{{f.t2, 0, 4}, {f.t1, 1, 1}}, []kit.Out{{500, 5}, {470, 3}})
	f.t4 = u.Tx("t4", 0, []kit.In{{f.t1x, 0, 6}}, []kit.Out{{900, 3}})
	f.a2 = u.Block("A2", f.a1, []core.Tx{f.t1})
	f.a3 = u.Block("A3", f.a2, []core.Tx{f.t2, f.t3})
	f.a4 = u.Block("A4", f.a3, nil)
	f.x2 = u.Block("X2", f.a1, []core.Tx{f.t1x})
	f.x3 = u.Block("X3", f.x2, []core.Tx{f.t4})
	f.x4 = u.Block("X4", f.x3, nil)
	f.b1 = u.Block("B1", nil, nil, kit.Key(2), kit.Noise(9))
	f.b2 = u.Block("B2", f.b1, nil)
	f.b3 = u.Block("B3", f.b2, nil)
	f.b4 = u.Block("B4", f.b3, nil)
	f.y2 = u.Block("Y2", f.a1, nil, kit.Noise(7))
	f.y3 = u.Block("Y3", f.y2, nil, kit.Noise(7))
	u.Valid(f.a1, f.a2, f.a3, f.a4, f.x2, f.x3, f.x4, f.b1, f.b2, f.b3, f.b4, f.y2, f.y3)
	return f
}

func (f *forks) addBad() {
	u := f.u
	b := func(name string, parent *kit.Blk, txs ...core.Tx) *kit.Blk {
		k := u.Block(name, parent, txs, kit.Noise(5))
		f.bad = append(f.bad, k)
		return k
	}
	b("D2both", f.a1, f.t1, f.t1x) // two spends of one output in a block
	b("D3again", f.a2, f.t1)       // transaction already on the chain
	b("D3sib", f.a2, f.t4)         // spends an output of a sibling branch
	b("D3order", f.a2, f.t3, f.t2) // spends an output created later in the block
	b("D3respend", f.a2, f.t1x)    // output spent by an earlier block
	b("D2chainx", f.a1, f.t2)      // spends an output not on this chain
	b("D4after", f.bad[1])         // valid block on an invalid one
	b("D2rev", f.a1, f.t1x, f.t1)  // two spends, the better paying one first
	b("D3mix", f.a2, f.t2, f.t1x)  // a good one first
	b("D3mix2", f.a2, f.t2, f.t3, f.t2)
	f.ok3 = u.Block("D3ok", f.a2, []core.Tx{f.t2}, kit.Noise(5))
	b("D4bad", f.ok3, f.t3, f.t1x) // an invalid block on a valid new one
	in := kit.In{f.a1.Txs[0], 0, 1}
	f.tdup = u.Tx("tdup", 0, []kit.In{in, in}, []kit.Out{{990, 4}})
	f.ddup = holding(u, "Ddup", f.a1, f.tdup)
	u.Invalid(append(f.bad, f.ddup)...)
}

func ledgerProps(id string) []string {
	return map[string][]string{
		"C01": {"supply", "value"}, "C02": {"spend"}, "C03": {"accept"}, "C04": {"head"}, "C05": {"ledger", "reorg", "offered"},
		"C06": {"ledger", "head", "later", "template", "accept"}, "C07": {"accept"}, "C08": {"times"}, "C09": {"lock", "reorg", "offered"}, "C10": {"template"},
	}[id]
}

var forksOnce *forks

// theForks is the shared universe with its invalid branches.
func theForks() *forks {
	if forksOnce == nil {
		forksOnce = newForks()
		forksOnce.addBad()
	}
	return forksOnce
}

func (f *forks) ops() []op {
	return []op{
		headOp("A1", f.a1), headOp("A2", f.a2), headOp("A3", f.a3), headOp("A4", f.a4),
		headOp("X2", f.x2), headOp("X3", f.x3), headOp("X4", f.x4), headOp("Y2", f.y2), headOp("Y3", f.y3),
		headOp("B1", f.b1), headOp("B2", f.b2), headOp("B1-B3", f.b1, f.b2, f.b3), headOp("B1-B4", f.b1, f.b2, f.b3, f.b4),
		headOp("A1-A3", f.a1, f.a2, f.a3), headOp("A1-X2-X4", f.a1, f.x2, f.x3, f.x4),
		txOp("t1", f.t1), txOp("t1x", f.t1x), txOp("t2", f.t2), txOp("t3", f.t3), txOp("t4", f.t4),
		{name: "mine", mine: true},
	}
}

func (f *forks) badOps() (out []op) {
	for _, b := range f.bad {
		out = append(out, headOp(b.Name, b))
	}
	out = append(out, headOp("D3again-D4after", f.bad[1], f.bad[6]), headOp("D3ok-D4bad", f.ok3, f.bad[10]), txOp("tdup", f.tdup), headOp("Ddup", f.ddup))
	return
}

func c05(tier string) []mcx.Scenario {
	f := theForks()
	depth := 5
	if tier == "thorough" {
		depth = 6
	}
	dir := "/Data-1"
	pr := ledgerProps("C05")
	m := newMulti()
	return []mcx.Scenario{
		{Name: "forks", Body: func(x *mcx.X) { newHist(x, f.u, true, nil, pr...).run(f.ops(), depth, nil) }},
		{Name: "forks-with-invalid-branches", Body: func(x *mcx.X) {
			newHist(x, f.u, true, nil, pr...).run(append(f.ops(), f.badOps()...), depth-2, nil)
		}},
		{Name: "forks-without-miners-on-disk", Body: func(x *mcx.X) { newHist(x, f.u, false, &dir, pr...).run(f.ops(), 3, nil) }},
		{Name: "several-owners-and-outputs", Body: func(x *mcx.X) {
			h := newHist(x, m.u, true, nil, pr...)
			h.run(m.ops, depth, func() { h.richLists() })
		}},
		largeScen(pr, depth-3),
		sideScen(pr, 4),
	}
}

// multi: owners with several outputs, zero-valued outputs, payments to oneself and pending conflicts.
type multi struct {
	u   *kit.Uni
	ops []op
}

func newMulti() *multi {
	m := &multi{u: kit.NewUni(kit.SmallParams())}
	u := m.u
	a1 := u.Block("A1", nil, nil, kit.Key(1))
	a2 := u.Block("A2", a1, nil, kit.Key(1))
	b1 := u.Block("B1", nil, nil, kit.Key(2), kit.Noise(1))
	b2 := u.Block("B2", b1, nil, kit.Key(2), kit.Noise(1))
	b3 := u.Block("B3", b2, nil, kit.Key(2), kit.Noise(1))
	b4 := u.Block("B4", b3, nil, kit.Key(2), kit.Noise(1))
	sp := u.Tx("split", 0, []kit.In{{a1.Txs[0], 0, 1}}, []kit.Out{{300, 1}, {300, 1}, {0, 3}, {390, 4}})
	jn := u.Tx("join", 0, []kit.In{{sp, 0, 1}, {sp, 1, 1}, {a2.Txs[0], 0, 1}}, []kit.Out{{1590, 1}})
	zs := u.Tx("zero", 0, []kit.In{{sp, 2, 3}, {sp, 3, 4}}, []kit.Out{{0, 4}, {380, 3}})
	cf := u.Tx("conflict", 0, []kit.In{{sp, 1, 1}, {sp, 3, 4}}, []kit.Out{{600, 4}})
	a3 := u.Block("A3", a2, []core.Tx{sp}, kit.Key(1))
	a4 := u.Block("A4", a3, []core.Tx{jn, zs}, kit.Key(1))
	a4c := u.Block("A4c", a3, []core.Tx{cf}, kit.Key(1))
	a3s := u.Block("A3all", a2, []core.Tx{sp, jn, zs}, kit.Key(1))
	a5c := u.Block("A5c", a4c, nil)
	a4s := u.Block("A4all", a3s, nil)
	u.Valid(u.Blks...)
	m.ops = []op{headOp("A1-A2", a1, a2), headOp("A3", a3), headOp("A4", a4), headOp("A4c", a4c), headOp("A5c", a4c, a5c),
		headOp("A3all", a3s), headOp("A4all", a3s, a4s), headOp("B1-B3", b1, b2, b3), headOp("B1-B4", b1, b2, b3, b4),
		txOp("split", sp), txOp("join", jn), txOp("zero", zs), txOp("conflict", cf), {name: "mine", mine: true}}
	return m
}

// richLists asks for rich lists of every length, up to lengths beyond any signed integer.
func (h *hist) richLists() {
	if h.n.Dead != "" {
		return
	}
	bal := h.u.Ref.Ledger(h.head).Balances()
	for _, n := range []uint64{0, 1, 2, 3, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		a := h.n.Ask(nil, nil, n)
		if h.dead() {
			return
		}
		if a == nil {
			h.fail("dead", "no answer to a rich list query of length %d", n)
			h.n.Dead = "no answer"
			return
		}
		if d := h.u.RichErr(a.Rich, bal, n); d != "" {
			h.fail("ledger", "head %s, rich list of length %d: %s", h.u.Name(h.head), n, d)
		}
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C05", Scenarios: c05, Assumptions: ledgerAssume, Rule: ledgerRule})
}
