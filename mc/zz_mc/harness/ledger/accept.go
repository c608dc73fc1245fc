package ledger

import (
	"fmt"
	"math"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// blockShapes offers one block on a short chain for every combination of its attributes.
func blockShapes(fill []int, sizeSlack int64, full bool) func(x *mcx.X) {
	p := kit.SmallParams()
	p.DifficultyPeriod = 4
	p.OriginalTarget = lowTarget(4)
	mk := func(p core.Params) (*kit.Uni, []*kit.Blk, []core.Tx) {
		u := kit.NewUni(p)
		a1 := u.Block("A1", nil, nil, kit.Key(1))
		sp := u.Tx("split", 0, []kit.In{{a1.Txs[0], 0, 1}}, []kit.Out{{200, 1}, {200, 1}, {200, 1}, {390, 1}})
		a2 := u.Block("A2", a1, []core.Tx{sp}, kit.Key(1))
		b2 := u.Block("B2", a1, nil, kit.Key(2))
		x1 := u.Tx("x1", 0, []kit.In{{sp, 0, 1}}, []kit.Out{{150, 3}})
		x2 := u.Tx("x2", 0, []kit.In{{sp, 1, 1}}, []kit.Out{{100, 3}, {50, 4}})
		x3 := u.Tx("x3-spends-x1", 0, []kit.In{{x1, 0, 3}}, []kit.Out{{120, 4}})
		x4 := u.Tx("x4-conflicts-x1", 0, []kit.In{{sp, 0, 1}, {sp, 2, 1}}, []kit.Out{{300, 4}})
		x5 := u.Tx("x5-locked-5", 5, []kit.In{{sp, 3, 1}}, []kit.Out{{300, 4}})
		x6 := u.Tx("x6-no-outputs", 0, []kit.In{{sp, 1, 1}}, nil)
		x7 := u.Tx("x7-zero-outputs", 2, []kit.In{{sp, 2, 1}}, []kit.Out{{0, 3}, {0, 3}})
		x8 := u.Tx("x8-two-owners", 0, []kit.In{{sp, 3, 1}, {a2.Txs[0], 0, 1}}, []kit.Out{{1, 1}, {1, 1}, {900, 5}})
		x9 := u.Tx("x9-coinbase-no-outputs", 0, []kit.In{{a2.Txs[0], 0, 1}}, nil)
		x10 := u.Tx("x10-no-outputs", 0, []kit.In{{sp, 0, 1}}, nil)
		return u, []*kit.Blk{a1, a2, b2}, []core.Tx{x1, x2, x3, x4, x5, x6, x7, x8, x9, x10}
	}
	// the size limit: exactly the block holding the given transactions (plus slack)
	_, _, tx := mk(p)
	p.MaxBlockVSize = uint64(int64(kit.CoinbaseVSize) + sizeSlack)
	for _, i := range fill {
		p.MaxBlockVSize += kit.TxVSize(tx[i])
	}
	lists := [][]int{{}, {0}, {0, 1, 2}, {2, 0}, {0, 2}, {0, 3}, {0, 0}, {1, 0, 1}, {4}, {1, 3}, {3, 1}, {5}, {6, 5}, {0, 7, 5}, {8}, {8, 5}, {8, 9, 5}}
	cbs := []string{"normal", "none", "second", "two", "two-in-front", "height-1", "height+1", "value-1", "value+1", "value+0fee", "value+fee", "two-outputs", "with-inputs", "not-flagged"}
	parents := []string{"head", "side", "first", "zero", "unknown"}
	trees := []string{"whole", "node-missing", "leaf-missing", "root-missing", "root-is-tx", "left-deep", "right-deep"}
	times := []string{"ok", "median", "future", "target+1", "target/4"}
	pows := []string{"beats", "misses"}
	return func(x *mcx.X) {
		u, ch, txs := mk(p)
		u.Valid(ch...)
		h := newHist(x, u, true, nil, ledgerProps("C07")...)
		h.seq(headOp("A1-A2", ch[0], ch[1]), headOp("B2", ch[2]))
		li, ci := x.Pick(len(lists)), x.Pick(len(cbs))
		pi := x.Pick(len(parents))
		ti, mi, wi := 0, 0, 0
		if full {
			ti, mi, wi = x.Pick(len(trees)), x.Pick(len(times)), x.Pick(len(pows))
		} else if o := x.Pick(len(trees) + len(times) + len(pows) - 2); o < len(trees) {
			ti = o
		} else if o -= len(trees) - 1; o < len(times) {
			mi = o
		} else {
			wi = o - len(times) + 1
		}
		name := fmt.Sprintf("block txs %v coinbase %s parent %s tree %s time %s %s", lists[li], cbs[ci], parents[pi], trees[ti], times[mi], pows[wi])
		var parent *kit.Blk
		switch parents[pi] {
		case "head":
			parent = ch[1]
		case "side":
			parent = ch[2]
		case "first":
			parent = ch[0]
		case "unknown":
			parent = u.Block("hidden", ch[1], nil, kit.Noise(77), kit.Hide())
		}
		pid := H{}
		if parent != nil {
			pid = parent.ID
		}
		ht := u.Ref.Height(pid) + 1
		fees := uint64(0)
		var body []core.Tx
		for _, i := range lists[li] {
			body = append(body, txs[i])
			fees += wrapFee(txs[i])
		}
		cb := kit.Coinbase(ht, p.BlockReward+fees, 60)
		opts := []kit.Opt{kit.Hide()}
		switch cbs[ci] {
		case "none":
			opts = append(opts, kit.NoCb())
			if len(body) == 0 {
				return
			}
		case "second":
			opts = append(opts, kit.NoCb())
			body = append(append([]core.Tx{}, body...), cb)
			if len(body) > 1 {
				body = append([]core.Tx{body[0], cb}, body[1:len(body)-1]...)
			}
		case "two", "two-in-front":
			// sharing the reward when the fees are worth as much, taking two otherwise
			cb.Outputs[0].Value = p.BlockReward
			v := fees
			if v < p.BlockReward {
				v += p.BlockReward
			}
			c2 := kit.Coinbase(ht, v, 61)
			if cbs[ci] == "two" {
				body = append(append([]core.Tx{}, body...), c2)
			} else {
				body = append([]core.Tx{c2}, body...)
			}
		case "height-1":
			cb.MinBlock--
		case "height+1":
			cb.MinBlock++
		case "value-1":
			cb.Outputs[0].Value--
		case "value+1":
			cb.Outputs[0].Value++
		case "value+fee":
			cb.Outputs[0].Value += fees
		case "value+0fee":
			cb.Outputs[0].Value = p.BlockReward
		case "two-outputs":
			cb.Outputs = append(cb.Outputs, core.TxOut{Value: 0, PublicKeyHash: kit.Pkh(62)})
		case "with-inputs":
			cb.Inputs = kit.CloneTx(txs[1]).Inputs
		case "not-flagged":
			cb.IsCoinbase = false
		}
		opts = append(opts, kit.CbTx(cb))
		switch trees[ti] {
		case "left-deep":
			opts = append(opts, kit.WithTree(leftDeep))
		case "right-deep":
			opts = append(opts, kit.WithTree(rightDeep))
		}
		switch times[mi] {
		case "median":
			m, _ := u.Ref.Median(pid)
			opts = append(opts, kit.Time(m))
		case "future":
			opts = append(opts, kit.Time(unix()+3700))
		case "target+1":
			opts = append(opts, kit.Target(add(p.OriginalTarget, 1)))
		case "target/4":
			opts = append(opts, kit.Target(u.MinNext(p.OriginalTarget)))
		}
		if pows[wi] == "misses" {
			opts = append(opts, kit.Lose())
		}
		k := u.Block(name, parent, body, opts...)
		e := kit.Event(k)
		switch trees[ti] {
		case "node-missing":
			e.Merkles = e.Merkles[1:]
		case "root-missing":
			e.Merkles = e.Merkles[:len(e.Merkles)-1]
		case "leaf-missing":
			e.Txs = e.Txs[:len(e.Txs)-1]
		case "root-is-tx":
			b := k.B
			b.MerkleRoot = e.Txs[0].Hash()
			kit.Mine(&b, true)
			u.Ref.Bl[b.Hash()] = b
			e.Blocks = []core.Block{b}
			e.Head = b.Hash()
		}
		h.props["head"] = true
		h.check = true
		h.offerParts(evOp(name, e))
		h.judge()
		x.State(mcx.Hash(name), true)
		if li == 2 && ci == 0 {
			x.Sample("%s -> head %s", name, u.Name(h.head))
		}
	}
}

// offerParts offers an event; when it holds invalid transactions or nodes these are offered on their
// own first, so that the block itself is judged too.
func (h *hist) offerParts(o op) {
	h.do(o)
	for _, t := range o.ev.Txs {
		h.do(txOp("part tx "+h.u.Name(t.Hash()), t))
	}
	for _, m := range o.ev.Merkles {
		e := bus.CandidateHeadEvent{Head: h.head, Merkles: []core.MerkleNode{m}}
		h.do(evOp("part node "+m.Hash().String()[:6], e))
	}
	for _, b := range o.ev.Blocks {
		h.do(evOp("part block "+h.u.Name(b.Hash()), bus.CandidateHeadEvent{Head: b.Hash(), Blocks: []core.Block{b}}))
	}
}

func leftDeep(ids []H) (out []core.MerkleNode) {
	cur := ids[0]
	if len(ids) == 1 {
		return kit.Tree(ids)
	}
	for _, id := range ids[1:] {
		m := core.MerkleNode{LChild: cur, RChild: id}
		out = append(out, m)
		cur = m.Hash()
	}
	return
}

func rightDeep(ids []H) (out []core.MerkleNode) {
	if len(ids) == 1 {
		return kit.Tree(ids)
	}
	cur := ids[len(ids)-1]
	for i := len(ids) - 2; i >= 0; i-- {
		m := core.MerkleNode{LChild: ids[i], RChild: cur}
		out = append(out, m)
		cur = m.Hash()
	}
	return
}

// treeShapes offers blocks whose transactions are arranged in every tree over the given leaves.
func treeShapes(leaves int) func(x *mcx.X) {
	p := kit.SmallParams()
	p.MaxBlockVSize = 3000
	u0 := kit.NewUni(p)
	a1 := u0.Block("A1", nil, nil, kit.Key(1))
	t1 := u0.Tx("t1", 0, []kit.In{{a1.Txs[0], 0, 1}}, []kit.Out{{900, 3}, {50, 4}})
	t2 := u0.Tx("t2", 0, []kit.In{{t1, 0, 3}}, []kit.Out{{800, 3}})
	t3 := u0.Tx("t3", 0, []kit.In{{t1, 1, 4}}, []kit.Out{{40, 3}})
	all := []core.Tx{t1, t2, t3}[:leaves-1]
	return func(x *mcx.X) {
		u := kit.NewUni(p)
		a1 := u.Block("A1", nil, nil, kit.Key(1))
		for i, t := range all {
			u.AddTx(fmt.Sprintf("t%d", i+1), t)
		}
		h := newHist(x, u, true, nil, ledgerProps("C07")...)
		h.seq(headOp("A1", a1))
		// build: repeatedly replace one or two of the remaining roots by a node over them
		desc := ""
		tree := func(ids []H) (out []core.MerkleNode) {
			roots := append([]H(nil), ids...)
			used := map[H]bool{}
			n := 0
			for len(roots) > 1 || n == 0 {
				i, j := x.Pick(len(roots)), x.Pick(len(roots))
				if i == j && used[roots[i]] {
					j = (i + 1) % len(roots) // no node over itself twice
				}
				m := core.MerkleNode{LChild: roots[i], RChild: roots[j]}
				used[m.Hash()] = true
				desc += fmt.Sprintf("(%d,%d)", i, j)
				out = append(out, m)
				n++
				if i == j {
					roots[i] = m.Hash()
				} else {
					// keep either slot order
					roots[i] = m.Hash()
					roots = append(roots[:j], roots[j+1:]...)
				}
				if n > 6 {
					break
				}
			}
			return
		}
		k := u.Block("shape", a1, all, kit.WithTree(tree), kit.Hide())
		h.props["head"] = true
		h.check = true
		h.offerParts(headOp("tree "+desc, k))
		h.judge()
		x.State(mcx.Hash(desc), true)
		if e := u.Ref.BlockErr(k.B, unix()); e == "" && u.Ref.Ledger(k.ID).Err == "" {
			x.Count("acceptable tree shapes", 1)
			x.Sample("tree %s accepted", desc)
		} else {
			x.Count("unacceptable tree shapes", 1)
		}
	}
}

// nodePairs offers every node over pairs of known and unknown entities, twice nested.
func nodePairs(slack int64) func(x *mcx.X) {
	p := kit.SmallParams()
	mk := func(p core.Params) (*kit.Uni, *kit.Blk, []core.Tx) {
		u := kit.NewUni(p)
		a1 := u.Block("A1", nil, nil, kit.Key(1))
		t1 := u.Tx("t1", 0, []kit.In{{a1.Txs[0], 0, 1}}, []kit.Out{{900, 3}, {50, 4}})
		t2 := u.Tx("t2", 0, []kit.In{{t1, 0, 3}}, []kit.Out{{800, 3}})
		return u, a1, []core.Tx{t1, t2}
	}
	_, _, tx := mk(p)
	p.MaxBlockVSize = uint64(int64(kit.TxVSize(tx[0])+kit.TxVSize(tx[1])) + slack)
	return func(x *mcx.X) {
		u, a1, txs := mk(p)
		h := newHist(x, u, true, nil, ledgerProps("C07")...)
		h.seq(headOp("A1", a1), txOp("t1", txs[0]), txOp("t2", txs[1]))
		ids := []H{txs[0].Hash(), txs[1].Hash(), a1.Txs[0].Hash(), a1.B.MerkleRoot, kit.DH([]byte("nothing")), H{}, a1.ID}
		for d := 0; d < 3; d++ {
			h.check = !x.S.Replaying()
			i, j := x.Pick(len(ids)), x.Pick(len(ids))
			h.check = !x.S.Replaying()
			m := core.MerkleNode{LChild: ids[i], RChild: ids[j]}
			u.Ref.Mk[m.Hash()] = m
			h.do(evOp(fmt.Sprintf("node(%d,%d)", i, j), bus.CandidateHeadEvent{Head: h.head, Merkles: []core.MerkleNode{m}}))
			if h.n.Dead != "" {
				return
			}
			if _, ok := h.known.Mk[m.Hash()]; !ok {
				break
			}
			var vs uint64
			x.S.CallNode(h.n.N, "size", func() { vs = h.n.Inv.GetMerkleVSize(m.Hash()) })
			if w := u.Ref.Size(m.Hash()); w.Cmp(u.Ref.Size(m.Hash())) != 0 || w.Uint64() != vs {
				h.fail("accept", "size of an accepted node is recorded as %d instead of %d", vs, w)
			}
			ids = append(ids, m.Hash())
		}
		x.Sample("%v", h.path)
	}
}

// txShapes offers one transaction for every combination of its attributes.
func txShapes() func(x *mcx.X) {
	p := kit.SmallParams()
	owners := []int{1, 1, 2, 9}
	return func(x *mcx.X) {
		// inputs: which outputs, by whom signed; outputs: count and surplus; size limit relative to the transaction
		ins := [][]int{{0}, {0, 1}, {0, 2}, {0, 1, 2}, {0, 0}, {1, 0, 1}, {3}, {0, 3}, {4}, {5}, {}, {6}, {0, 7}, {7}, {8}, {0, 8}, {9}, {9, 0}}
		sel := ins[x.Pick(len(ins))]
		nout := x.Pick(4)
		surplus := []int64{1, 0, -1, 1000000, -1 << 40, math.MinInt64}[x.Pick(6)]
		slack := []int64{0, -1, 300}[x.Pick(3)]
		minb := []uint64{0, 3, math.MaxUint64}[x.Pick(3)]
		cbase := x.Pick(2) == 1
		p := p
		build := func(p core.Params) (*kit.Uni, []*kit.Blk, core.Tx) {
			u := kit.NewUni(p)
			a1 := u.Block("A1", nil, nil, kit.Key(1))
			sp := u.Tx("split", 0, []kit.In{{a1.Txs[0], 0, 1}}, []kit.Out{{300, 1}, {300, 1}, {190, 2}, {200, 1}})
			a2 := u.Block("A2", a1, []core.Tx{sp}, kit.Key(1))
			pend := u.Tx("pending", 0, []kit.In{{sp, 3, 1}}, []kit.Out{{100, 1}})
			unk := kit.MakeTx(0, []kit.In{{sp, 2, 2}}, []kit.Out{{100, 1}})
			var in []kit.In
			for _, i := range sel {
				switch i {
				case 0, 1, 2:
					in = append(in, kit.In{sp, i, owners[i]})
				case 3: // someone else's
					in = append(in, kit.In{sp, 2, 9})
				case 4: // already spent on the chain
					in = append(in, kit.In{a1.Txs[0], 0, 1})
				case 5: // of a pending transaction
					in = append(in, kit.In{pend, 0, 1})
				case 6: // of an unknown transaction
					in = append(in, kit.In{unk, 0, 1})
				case 7, 8, 9: // index out of range, or less or more claimed than it is worth; patched below
					in = append(in, kit.In{sp, i / 8, 1})
				}
			}
			tot := int64(0)
			for _, i := range in {
				tot += int64(i.Tx.Outputs[i.N].Value)
			}
			var outs []kit.Out
			rest := tot - surplus
			for i := 0; i < nout; i++ {
				v := rest / int64(nout)
				if i == nout-1 {
					v = rest - v*int64(nout-1)
				}
				if v < 0 && surplus > 0 {
					v = 0
				}
				outs = append(outs, kit.Out{uint64(v), 3 + i})
			}
			t := kit.MakeTx(minb, in, outs)
			for n, i := range sel {
				switch i {
				case 7:
					t.Inputs[n].Utxo.Ind = 4
				case 8:
					t.Inputs[n].Utxo.Ind = 1
					t.Inputs[n].Utxo.Value = 299
				case 9:
					t.Inputs[n].Utxo.Ind = 1
					t.Inputs[n].Utxo.Value = 301
				}
			}
			t.IsCoinbase = cbase
			return u, []*kit.Blk{a1, a2}, t
		}
		_, _, t := build(p)
		p.MaxTxVSize = uint64(int64(kit.TxVSize(t)) + slack)
		if p.MaxTxVSize < 700 {
			// keep the preamble valid: pad the limit up by comparing with the limit only when it is the larger
			if slack <= 0 && kit.TxVSize(t) < 420 {
				p.MaxTxVSize = 420 + 300
			}
		}
		u, ch, t := build(p)
		u.Valid(ch...)
		u.AddTx("t", t)
		h := newHist(x, u, true, nil, ledgerProps("C07")...)
		h.seq(headOp("A1-A2", ch...), txOp("pending", u.Txs[1]))
		name := fmt.Sprintf("tx inputs %v outputs %d surplus %d limit%+d min %d coinbase %v", sel, nout, surplus, slack, minb, cbase)
		h.props["ledger"] = true
		h.do(txOp(name, t))
		h.judge()
		x.State(mcx.Hash(name), false)
	}
}

func c07(tier string) []mcx.Scenario {
	full := tier == "thorough"
	s := []mcx.Scenario{
		{Name: "block-attributes-at-size-limit", Body: blockShapes([]int{0, 1, 2}, 0, full)},
		{Name: "block-attributes-one-byte-short", Body: blockShapes([]int{0, 1, 2}, -1, full)},
		{Name: "block-attributes-roomy", Body: blockShapes([]int{0, 1, 2}, 1000, full)},
		{Name: "block-attributes-many-small", Body: blockShapes([]int{5, 8, 9}, 0, full)},
		{Name: "block-attributes-two-small", Body: blockShapes([]int{5, 8}, 0, full)},
		{Name: "tree-shapes-2", Body: treeShapes(2)},
		{Name: "tree-shapes-3", Body: treeShapes(3)},
		{Name: "nodes", Body: nodePairs(0)},
		{Name: "nodes-one-byte-short", Body: nodePairs(-1)},
		{Name: "tx-attributes", Body: txShapes()},
	}
	if full {
		s = append(s, mcx.Scenario{Name: "tree-shapes-4", Body: treeShapes(4)})
	}
	f := theForks()
	d := 3
	if full {
		d = 5
	}
	s = append(s, mcx.Scenario{Name: "histories", Body: func(x *mcx.X) {
		newHist(x, f.u, true, nil, "accept", "head").run(append(f.ops(), f.badOps()...), d, nil)
	}})
	return append(s, largeScen([]string{"accept", "head"}, 2))
}

func init() {
	mcx.Register(&mcx.Check{ID: "C07", Scenarios: c07, Assumptions: ledgerAssume,
		Rule: "every combination of the listed block attributes (transactions, coinbase form, parent, tree, time/target, proof of work), every tree over the leaves, every node over pairs of known and unknown entities, every combination of transaction attributes, at, one byte below and above the size limits; plus operation histories"})
}
