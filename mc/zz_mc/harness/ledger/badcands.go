package ledger

import (
	"fmt"
	"math"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// mutation derives a candidate event from another.
type mutation struct {
	name string
	f    func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent
}

// without drops element i of a list.
func without[T any](l []T, i int) []T {
	return append(append([]T{}, l[:i]...), l[i+1:]...)
}

// inserted puts v at position i.
func inserted[T any](l []T, i int, v T) []T {
	return append(append(append([]T{}, l[:i]...), v), l[i:]...)
}

func reversed[T any](l []T) []T {
	o := make([]T, 0, len(l))
	for i := len(l) - 1; i >= 0; i-- {
		o = append(o, l[i])
	}
	return o
}

// mutations of an event, given some foreign entities.
func mutations(e bus.CandidateHeadEvent, badTx []core.Tx, badMk []core.MerkleNode, badBl []core.Block, heads []H) (out []mutation) {
	add := func(n string, f func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent) {
		out = append(out, mutation{n, f})
	}
	for i := range e.Txs {
		i := i
		add(fmt.Sprint("drop tx ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Txs = without(e.Txs, i); return e })
		add(fmt.Sprint("twice tx ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Txs = inserted(e.Txs, i, e.Txs[i]); return e })
	}
	for i := range e.Merkles {
		i := i
		add(fmt.Sprint("drop node ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Merkles = without(e.Merkles, i); return e })
		add(fmt.Sprint("twice node ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent {
			e.Merkles = inserted(e.Merkles, i, e.Merkles[i])
			return e
		})
	}
	for i := range e.Blocks {
		i := i
		add(fmt.Sprint("drop block ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Blocks = without(e.Blocks, i); return e })
		add(fmt.Sprint("twice block ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent {
			e.Blocks = inserted(e.Blocks, i, e.Blocks[i])
			return e
		})
		add(fmt.Sprint("head is block ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Head = e.Blocks[i].Hash(); return e })
	}
	add("reverse txs", func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Txs = reversed(e.Txs); return e })
	add("reverse nodes", func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Merkles = reversed(e.Merkles); return e })
	add("reverse blocks", func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Blocks = reversed(e.Blocks); return e })
	add("no txs", func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Txs = nil; return e })
	add("no nodes", func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Merkles = nil; return e })
	add("no blocks", func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Blocks = nil; return e })
	for i, t := range badTx {
		i, t := i, t
		add(fmt.Sprint("foreign tx first ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Txs = inserted(e.Txs, 0, t); return e })
		add(fmt.Sprint("foreign tx last ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent {
			e.Txs = inserted(e.Txs, len(e.Txs), t)
			return e
		})
	}
	for i, m := range badMk {
		i, m := i, m
		add(fmt.Sprint("foreign node last ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent {
			e.Merkles = inserted(e.Merkles, len(e.Merkles), m)
			return e
		})
	}
	for i, b := range badBl {
		i, b := i, b
		add(fmt.Sprint("foreign block last ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent {
			e.Blocks = inserted(e.Blocks, len(e.Blocks), b)
			return e
		})
		add(fmt.Sprint("foreign head ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent {
			e.Blocks = inserted(e.Blocks, len(e.Blocks), b)
			e.Head = b.Hash()
			return e
		})
	}
	for i, hd := range heads {
		i, hd := i, hd
		add(fmt.Sprint("other head ", i), func(e bus.CandidateHeadEvent) bus.CandidateHeadEvent { e.Head = hd; return e })
	}
	return
}

// insane lists transactions, nodes and blocks no node may accept.
func insane(f *forks) (ts []core.Tx, ms []core.MerkleNode, bs []core.Block) {
	u := f.u
	t := kit.CloneTx(f.t1)
	t.Inputs[0].Signature = nil
	ts = append(ts, t)
	t = kit.CloneTx(f.t1)
	t.Inputs[0].PublicKey = nil
	ts = append(ts, t)
	t = kit.CloneTx(f.t1)
	t.Inputs[0].PublicKey = []byte{0x30, 0x59, 0x30}
	ts = append(ts, t)
	t = kit.CloneTx(f.t1)
	t.Inputs[0].Utxo.Ind = math.MaxUint64
	ts = append(ts, t)
	ts = append(ts, core.Tx{}, core.Tx{IsCoinbase: true}, core.Tx{IsCoinbase: true, Outputs: []core.TxOut{{Value: 0}}})
	big := kit.CloneTx(f.t1)
	for i := 0; i < 100; i++ {
		big.Outputs = append(big.Outputs, core.TxOut{})
	}
	ts = append(ts, big, f.tdup)
	forks := f
	for _, f := range []func(t *core.Tx){
		func(t *core.Tx) { t.Inputs[0].Utxo.Ind = 1 },
		func(t *core.Tx) { t.Inputs[0].Utxo.Value++ },
		func(t *core.Tx) { t.Inputs[0].Utxo.Value -= 5 },
		func(t *core.Tx) { t.Inputs[0].Utxo.TxId = kit.DH([]byte("no such thing")) },
		func(t *core.Tx) { t.Inputs[0].Utxo.TxId = forks.a1.ID },
		func(t *core.Tx) { t.Inputs[0].PublicKey = kit.Pub(2) },
		func(t *core.Tx) {
			t.Inputs[0].PublicKey, t.Inputs[0].Signature = kit.Pub(2), kit.SignFor(2, t.MinBlock, t.Outputs)
		},
		func(t *core.Tx) { t.Outputs[0].Value += 100 },
		func(t *core.Tx) { t.IsCoinbase = true },
	} {
		t := kit.CloneTx(forks.t1)
		f(&t)
		ts = append(ts, t)
	}
	none := kit.DH([]byte("no such thing"))
	ms = append(ms, core.MerkleNode{}, core.MerkleNode{LChild: none, RChild: none}, core.MerkleNode{LChild: f.a1.Txs[0].Hash(), RChild: none},
		core.MerkleNode{LChild: f.a1.B.MerkleRoot, RChild: f.a1.Txs[0].Hash()}, core.MerkleNode{LChild: f.a1.ID, RChild: f.a1.ID})
	mine := func(b core.Block, win bool) {
		kit.Mine(&b, win)
		bs = append(bs, b)
	}
	b := f.a2.B
	b.Target = H{}
	bs = append(bs, b)
	bs = append(bs, core.Block{})
	b = f.a2.B
	b.MerkleRoot = none
	mine(b, true)
	b = f.a2.B
	b.PrevBlockId = none
	mine(b, true)
	b = f.a2.B
	b.MerkleRoot = f.a1.B.MerkleRoot // coinbase of another height
	mine(b, true)
	b = f.a2.B
	b.MinedTime = math.MaxUint64
	b.Nonce += 1 << 40
	mine(b, true)
	b = f.a2.B
	b.Target = kit.FromBig(kit.Big(kit.HashHex("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")))
	mine(b, true)
	b = f.a2.B
	b.PrevBlockId = f.a1.ID
	b.Nonce += 1 << 41
	mine(b, false)
	for _, root := range []H{f.a1.Txs[0].Hash(), f.a1.ID, {}, f.t1.Hash()} {
		b = f.a2.B
		b.MerkleRoot = root
		b.Nonce += 1 << 42
		mine(b, true)
	}
	b = f.b2.B
	b.MerkleRoot = f.b2.Txs[0].Hash()
	mine(b, true)
	b = f.a2.B
	b.PrevBlockId = H{}
	b.Nonce += 1 << 43
	mine(b, true)
	for i, t := range ts {
		u.Ref.Tx[t.Hash()] = t
		_ = i
	}
	for _, m := range ms {
		u.Ref.Mk[m.Hash()] = m
	}
	for _, b := range bs {
		u.Ref.Bl[b.Hash()] = b
	}
	return
}

var badUniverse *forks

func c06(tier string) []mcx.Scenario {
	pr := ledgerProps("C06")
	if badUniverse == nil {
		badUniverse = newForks()
		badUniverse.addBad()
	}
	f := badUniverse
	ts, ms, bs := insane(f)
	heads := []H{{}, kit.DH([]byte("no such thing")), f.a1.ID, f.b4.ID}
	bases := []struct {
		name string
		pre  []op
		e    bus.CandidateHeadEvent
	}{
		{"A1-A3 on nothing", nil, kit.Event(f.a1, f.a2, f.a3)},
		{"A2-A3 on A1", []op{headOp("A1", f.a1)}, kit.Event(f.a2, f.a3)},
		{"B1-B4 over A3", []op{headOp("A1-A3", f.a1, f.a2, f.a3)}, kit.Event(f.b1, f.b2, f.b3, f.b4)},
		{"X2-X4 over A3", []op{headOp("A1-A3", f.a1, f.a2, f.a3), txOp("t1x", f.t1x)}, kit.Event(f.x2, f.x3, f.x4)},
	}
	pairs := tier == "thorough"
	mut := func(n int) func(x *mcx.X) {
		return func(x *mcx.X) {
			b := bases[x.Pick(len(bases))]
			h := newHist(x, f.u, true, nil, pr...)
			h.seq(b.pre...)
			e := cloneEv(b.e)
			e.Head = b.e.Head
			name := b.name
			for i := 0; i < n; i++ {
				l := mutations(e, ts, ms, bs, heads)
				m := l[x.Pick(len(l))]
				e = m.f(e)
				name += "; " + m.name
			}
			h.seq(evOp(name, e))
			h.judge()
			// the right data must still be accepted afterwards
			h.seq(evOp("the right event", b.e))
			h.judge()
			h.seq(headOp("everything", f.a1, f.a2, f.a3, f.a4), txOp("t1x", f.t1x), txOp("t4", f.t4), headOp("X", f.a1, f.x2, f.x3, f.x4), op{name: "mine", mine: true})
			h.judge()
			h.tail()
			x.State(h.state(nil), false)
			x.Sample("%s: head %s", name, f.u.Name(h.head))
		}
	}
	var single []op
	for i, t := range ts {
		single = append(single, txOp(fmt.Sprint("bad tx ", i), t))
	}
	for i, m := range ms {
		single = append(single, evOp(fmt.Sprint("bad node ", i), bus.CandidateHeadEvent{Head: f.a1.ID, Merkles: []core.MerkleNode{m}}))
	}
	for i, b := range bs {
		single = append(single, evOp(fmt.Sprint("bad block ", i), bus.CandidateHeadEvent{Head: b.Hash(), Blocks: []core.Block{b}}))
	}
	for _, hd := range heads {
		single = append(single, evOp("just head "+f.u.Name(hd), bus.CandidateHeadEvent{Head: hd}))
	}
	single = append(single, f.badOps()...)
	good := []op{headOp("A1", f.a1), headOp("A2", f.a2), headOp("A3", f.a3), headOp("X2-X3", f.x2, f.x3), headOp("B1-B4", f.b1, f.b2, f.b3, f.b4), txOp("t1", f.t1), txOp("t1x", f.t1x), {name: "mine", mine: true}}
	depth := 3
	if pairs {
		depth = 5
	}
	s := []mcx.Scenario{
		{Name: "one-mutation", Body: mut(1)},
		{Name: "bad-candidates-in-histories", Body: func(x *mcx.X) {
			h := newHist(x, f.u, true, nil, pr...)
			h.run(append(append([]op{}, good...), single...), depth, nil)
		}},
		{Name: "two-mutations", Body: mut(2)},
		largeScen(pr, 2),
		sideScen(pr, 3),
	}
	if pairs {
		s = append(s, mcx.Scenario{Name: "three-mutations", Body: mut(3)})
	}
	return s
}

func init() {
	mcx.Register(&mcx.Check{ID: "C06", Scenarios: c06, Assumptions: ledgerAssume,
		Rule: "every one and every two structural mutations (dropped, repeated, reversed, foreign or invalid entities, other heads) of valid candidate events in several states, followed by valid candidates; plus every operation sequence mixing valid and invalid candidates to a depth"})
}
