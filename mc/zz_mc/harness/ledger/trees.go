package ledger

import (
	"fmt"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// c29: generated trees for every number of transactions.
func c29(tier string) []mcx.Scenario {
	full, shape := 320, 2600
	if tier == "thorough" {
		full, shape = 700, 5100
	}
	txOf := func(i int) core.Tx {
		return core.Tx{IsCoinbase: true, MinBlock: uint64(i + 1), Inputs: []core.TxIn{}, Outputs: []core.TxOut{{Value: 1 << 40, PublicKeyHash: kit.DH([]byte{byte(i), byte(i >> 8)})}}}
	}
	check := func(x *mcx.X, ids []H) []core.MerkleNode {
		n := len(ids)
		in := append([]H(nil), ids...)
		m, order := core.MerkleFromTxIds(in)
		if fmt.Sprint(in) != fmt.Sprint(ids) {
			x.Fail("shape", "%d transactions: the list given was changed", n)
		}
		if len(order) == 0 || len(m) != len(order) {
			x.Fail("shape", "%d transactions: %d nodes in the map, %d in the order", n, len(m), len(order))
			return nil
		}
		seen := map[H]bool{}
		isTx := map[H]bool{}
		for _, id := range ids {
			seen[id] = true
			isTx[id] = true
		}
		var out []core.MerkleNode
		child := map[H]int{}
		for _, id := range order {
			nd, ok := m[id]
			if !ok || nd.Hash() != id {
				x.Fail("shape", "%d transactions: node %s is missing or has another id", n, id)
				return nil
			}
			if seen[id] {
				x.Fail("shape", "%d transactions: node %s is listed twice", n, id)
			}
			if !seen[nd.LChild] || !seen[nd.RChild] {
				x.Fail("shape", "%d transactions: a node comes before its children", n)
			}
			child[nd.LChild]++
			if nd.RChild != nd.LChild {
				child[nd.RChild]++
			}
			seen[id] = true
			out = append(out, nd)
		}
		for id := range seen {
			w := 1
			if id == order[len(order)-1] {
				w = 0
			}
			if child[id] != w {
				x.Fail("shape", "%d transactions: a transaction or node has %d parents", n, child[id])
			}
		}
		if tot, lim := n+len(order), n*20/9; tot > lim {
			x.Fail("bound", "%d transactions: tree of %d entities exceeds the documented bound %d", n, tot, lim)
		}
		// the bound computed from the parameters: the largest block holding n transactions
		p := kit.SmallParams()
		p.MaxBlockVSize = core.CoinbaseVSize() + uint64(n-1)*core.MinNonCoinbaseVSize()
		if core.BlockMaxTxs(p) < uint64(n) {
			x.Fail("bound", "a block of %d minimal transactions fits, the computed maximum is %d", n, core.BlockMaxTxs(p))
		}
		if uint64(n+len(order)) > core.MerkleTreeMaxSize(p) {
			x.Fail("bound", "%d transactions: tree of %d entities, computed maximum %d", n, n+len(order), core.MerkleTreeMaxSize(p))
		}
		return out
	}
	store := func(x *mcx.X, dir *string, n int) {
		p := kit.SmallParams()
		p.MaxBlockVSize = uint64(n) * kit.CoinbaseVSize
		nd := x.S.NewNode("n", "10.0.0.1")
		var ids, got, got2 []H
		var size uint64
		var sub error
		ok, pv := x.S.CallNode(nd, "store", func() {
			i := inv.NewInv(p, dir)
			for k := 0; k < n; k++ {
				t := txOf(k)
				if err := i.StoreTx(t); err != nil {
					panic(err)
				}
				ids = append(ids, t.Hash())
			}
			ms := check(x, ids)
			if ms == nil {
				return
			}
			for _, m := range ms {
				if err := i.StoreMerkle(m); err != nil {
					sub = fmt.Errorf("node cannot be stored in the generated order: %w", err)
					return
				}
			}
			root := ms[len(ms)-1].Hash()
			got = i.GetMerkleTxIds(root)
			size = i.GetMerkleVSize(root)
			txs := i.GetMerkleTxs(root)
			for _, t := range txs {
				got2 = append(got2, t.Hash())
			}
			// what a reader does with the lists it got is its own business
			mine := i.GetMerkleTxIds(root)
			for k := range txs {
				txs[k], mine[k] = core.Tx{}, H{}
			}
			if g := i.GetMerkleTxIds(root); fmt.Sprint(g) != fmt.Sprint(got) {
				sub = fmt.Errorf("reading the tree's ids again gives something else")
			}
			for k, t := range i.GetMerkleTxs(root) {
				if t.Hash() != got2[k] {
					sub = fmt.Errorf("reading the tree again gives something else")
				}
			}
			for _, m := range ms {
				l := i.GetMerkleTxIds(m.Hash())
				if i.GetMerkleVSize(m.Hash()) != uint64(len(l))*kit.CoinbaseVSize {
					sub = fmt.Errorf("an inner node's size is not that of its transactions")
				}
			}
			if dir != nil {
				j := inv.NewInv(p, dir)
				if g := j.GetMerkleTxIds(root); fmt.Sprint(g) != fmt.Sprint(got) || j.GetMerkleVSize(root) != size {
					sub = fmt.Errorf("reading the tree from disk gives something else")
				}
			}
		})
		if !ok {
			x.Fail("stored", "%d transactions: %v", n, pv)
			return
		}
		if sub != nil {
			x.Fail("stored", "%d transactions: %v", n, sub)
		}
		if x.Failed() {
			return
		}
		if fmt.Sprint(got) != fmt.Sprint(ids) || fmt.Sprint(got2) != fmt.Sprint(ids) {
			x.Fail("stored", "%d transactions: the stored tree reads back as something else", n)
		}
		if size != uint64(n)*kit.CoinbaseVSize {
			x.Fail("stored", "%d transactions: size %d instead of %d", n, size, n*kit.CoinbaseVSize)
		}
		x.State(mcx.Hash(n, dir != nil), false)
		x.Sample("%d transactions", n)
	}
	dir := "/Data-1"
	return []mcx.Scenario{
		{Name: "stored-trees", Body: func(x *mcx.X) { store(x, nil, 1+x.Pick(full)) }},
		{Name: "stored-on-disk", Body: func(x *mcx.X) { store(x, &dir, 1+x.Pick(40)) }},
		{Name: "generated-trees", Body: func(x *mcx.X) {
			n := 1 + x.Pick(shape)
			var ids []H
			for k := 0; k < n; k++ {
				ids = append(ids, kit.DH([]byte{byte(k), byte(k >> 8), 7}))
			}
			check(x, ids)
			x.State(mcx.Hash(n), false)
		}},
	}
}

// c30: ancestry queries over every tree of blocks.
func c30(tier string) []mcx.Scenario {
	blocks := 8
	if tier == "thorough" {
		blocks = 9
	}
	cache := map[string]*kit.Blk{}
	hard := []map[string]*kit.Blk{{}, {}}
	return []mcx.Scenario{
		{Name: "production-difficulty", Body: func(x *mcx.X) {
			k := x.Pick(2)
			p := treeParams()
			p.MaxTarget, p.OriginalTarget = kit.ProdTarget, []H{kit.ProdTarget, kit.HardTarget}[k]
			blockTree(x, blocks-2, nil, hard[k], p)
		}},
		{Name: "all-block-trees", Body: func(x *mcx.X) { blockTree(x, blocks, nil, cache) }},
		{Name: "all-block-trees-on-disk", Body: func(x *mcx.X) { d := "/Data-1"; blockTree(x, blocks-2, &d, cache) }},
		{Name: "long-chain-with-forks", Body: func(x *mcx.X) { blockComb(x, 14, cache) }},
		{Name: "hundreds-of-blocks", MaxSteps: 80_000_000, Body: func(x *mcx.X) { blockTall(x, 1060, cache) }},
	}
}

func treeParams() core.Params {
	p := kit.SmallParams()
	p.DifficultyPeriod = 4
	p.OriginalTarget = lowTarget(4)
	return p
}

type stored struct {
	id, parent H
	height     uint64
}

func buildBlk(u *kit.Uni, cache map[string]*kit.Blk, parent *kit.Blk, i int, alt int) *kit.Blk {
	key := fmt.Sprint(i, alt)
	if parent != nil {
		key = parent.Name + "/" + key
	}
	if b := cache[key]; b != nil {
		u.Ref.Bl[b.ID] = b.B
		u.Ref.Mk[b.Merkles[0].Hash()] = b.Merkles[0]
		u.Ref.Tx[b.Txs[0].Hash()] = b.Txs[0]
		return b
	}
	pid := H{}
	if parent != nil {
		pid = parent.ID
	}
	o := []kit.Opt{kit.Noise(byte(i)), kit.Hide(), kit.Key(30)}
	if alt == 1 {
		o = append(o, kit.Target(u.MaxNext(u.Ref.Bl[pid].Target)))
	} else if alt == 2 {
		o = append(o, kit.Target(u.MinNext(u.Ref.Bl[pid].Target)))
	} else if !pid.EqZero() {
		o = append(o, kit.Target(u.Ref.Bl[pid].Target))
	}
	b := u.Block(key, parent, nil, o...)
	cache[key] = b
	return b
}

func blockTree(x *mcx.X, n int, dir *string, cache map[string]*kit.Blk, ps ...core.Params) {
	p := treeParams()
	if len(ps) > 0 {
		p = ps[0]
	}
	u := kit.NewUni(p)
	ks := []*kit.Blk{nil}
	for i := 1; i <= n; i++ {
		par := ks[x.Pick(len(ks))]
		alt := 0
		if par != nil && (u.Ref.Height(par.ID)+1)%4 == 0 {
			alt = 1 + x.Pick(2)
		}
		ks = append(ks, buildBlk(u, cache, par, i, alt))
	}
	ask(x, u, ks, dir, nil)
}

func blockComb(x *mcx.X, n int, cache map[string]*kit.Blk) {
	p := treeParams()
	u := kit.NewUni(p)
	ks := []*kit.Blk{nil}
	cut := x.Pick(n)
	cut2 := x.Pick(n)
	var cur *kit.Blk
	for i := 1; i <= n; i++ {
		if i == cut+1 {
			cur = ks[x.Pick(2)*cut]
		}
		if i == cut2+1 {
			cur = ks[cut2/2]
		}
		cur = buildBlk(u, cache, cur, i, 0)
		ks = append(ks, cur)
	}
	ask(x, u, ks, nil, nil)
}

// blockTall: a chain of n blocks and a branch of as many, leaving it early, in the middle or late.
func blockTall(x *mcx.X, n int, cache map[string]*kit.Blk) {
	p := treeParams()
	p.DifficultyPeriod = 1 << 20
	u := kit.NewUni(p)
	u.Earlier(1_000_000)
	ks := []*kit.Blk{nil}
	fork := []int{0, 1, 5, n / 2, n - 3}[x.Pick(5)]
	sel := map[int]bool{}
	for _, d := range []int{0, 1, 2, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, n - 1, n} {
		sel[d] = true
		sel[n+d-fork] = d > fork
	}
	sel[fork] = true
	name := fmt.Sprintf("tall%d", fork)
	cur := ks[0]
	for i := 1; i <= n; i++ {
		cur = tallBlk(u, cache, cur, "tall", i, 0)
		ks = append(ks, cur)
	}
	cur = ks[fork]
	for i := fork + 1; i <= n; i++ {
		cur = tallBlk(u, cache, cur, name, i, 1)
		ks = append(ks, cur)
	}
	ask(x, u, ks, nil, sel)
}

func tallBlk(u *kit.Uni, cache map[string]*kit.Blk, parent *kit.Blk, name string, i int, noise byte) *kit.Blk {
	key := fmt.Sprint(name, i, noise)
	b := cache[key]
	if b == nil {
		b = u.Block(key, parent, nil, kit.Noise(noise), kit.Hide(), kit.Key(30))
		cache[key] = b
	}
	u.Ref.Bl[b.ID] = b.B
	u.Ref.Mk[b.Merkles[0].Hash()] = b.Merkles[0]
	u.Ref.Tx[b.Txs[0].Hash()] = b.Txs[0]
	return b
}

// ask puts every query to an inventory holding the blocks, about all of them or (when not nil) those selected.
func ask(x *mcx.X, u *kit.Uni, ks []*kit.Blk, dir *string, sel map[int]bool) {
	r := u.Ref
	nd := x.S.NewNode("n", "10.0.0.1")
	var ids []H
	for _, k := range ks {
		if k == nil {
			ids = append(ids, H{})
		} else {
			ids = append(ids, k.ID)
		}
	}
	fail := func(f string, a ...any) { x.Fail("answer", f, a...) }
	desc := ""
	for _, k := range ks[1:] {
		for j, id := range ids {
			if id == k.B.PrevBlockId {
				desc += fmt.Sprintf(" %d", j)
			}
		}
	}
	ok, pv := x.S.CallNode(nd, "ask", func() {
		i := inv.NewInv(u.P, dir)
		for _, k := range ks[1:] {
			if t := k.Txs[0]; !i.HasTx(t.Hash()) {
				if err := i.StoreTx(t); err != nil {
					panic(err)
				}
			}
			if !i.HasMerkle(k.B.MerkleRoot) {
				if err := i.StoreMerkle(k.Merkles[0]); err != nil {
					panic(err)
				}
			}
			if err := i.StoreBlock(k.B); err != nil {
				panic(err)
			}
		}
		if dir != nil {
			i = inv.NewInv(u.P, dir)
		}
		path := func(id H) (out []H) {
			for {
				out = append(out, id)
				if id.EqZero() {
					return
				}
				id = r.Bl[id].PrevBlockId
			}
		}
		for a, ia := range ids {
			if sel != nil && !sel[a] {
				continue
			}
			pa := path(ia)
			if g := i.GetBlockHeight(ia); g != uint64(len(pa)-1) {
				fail("tree%s: height of %d is %d", desc, a, g)
			}
			if g := i.GetBlockTotalWork(ia); kit.Big(g).Cmp(r.Work(ia)) != 0 {
				fail("tree%s: total work of %d is %v", desc, a, kit.Big(g))
			}
			if !ia.EqZero() {
				if i.GetBlockParentId(ia) != pa[1] || i.GetBlock(ia) != r.Bl[ia] || !i.HasBlock(ia) {
					fail("tree%s: content or parent of %d", desc, a)
				}
				for n := 0; n <= len(pa)+2; n++ {
					w := pa[1:least(n+1, len(pa))]
					if g := i.GetBlockAncestors(ia, n); fmt.Sprint(g) != fmt.Sprint(w) {
						fail("tree%s: %d ancestors of %d: %v instead of %v", desc, n, a, g, w)
					}
				}
			}
			for n := 0; n <= len(pa)+2; n++ {
				if g := i.GetBlockSpecificAncestor(ia, n); g != pa[least(n, len(pa)-1)] {
					fail("tree%s: ancestor %d of %d", desc, n, a)
				}
			}
			for b, ib := range ids {
				if sel != nil && !sel[b] {
					continue
				}
				pb := path(ib)
				at := -1
				for k, id := range pa {
					if id == ib {
						at = k
					}
				}
				d, has := i.GetBlockAncestorDepth(ia, ib)
				if has != (at >= 0) || (has && d != uint64(at)) {
					fail("tree%s: ancestor depth of %d in %d: %d %v instead of %d", desc, b, a, d, has, at)
				}
				if at >= 0 {
					var w []H
					if at > 1 {
						w = pa[1:at]
					}
					if g := i.GetBlockAncestorsUntil(ia, ib); len(g) != len(w) || (len(w) > 0 && fmt.Sprint(g) != fmt.Sprint(w)) {
						fail("tree%s: ancestors of %d until %d: %v instead of %v", desc, a, b, g, w)
					}
				}
				lca := H{}
				on := map[H]bool{}
				for _, id := range pb {
					on[id] = true
				}
				for _, id := range pa {
					if on[id] {
						lca = id
						break
					}
				}
				if g := i.GetBlockLCA(ia, ib); g != lca {
					fail("tree%s: last common ancestor of %d and %d is %s", desc, a, b, g)
				}
				x.Count("pairs queried", 1)
				if g, ok := i.HasAnyBlock([]H{kit.DH([]byte("no")), ia, ib}); !ok || g != ia {
					fail("tree%s: first known of (unknown, %d, %d)", desc, a, b)
				}
			}
		}
		if g, ok := i.HasAnyBlock([]H{kit.DH([]byte("no"))}); ok {
			fail("an unknown block is known: %s", g)
		}
		if _, ok := i.HasAnyBlock(nil); ok {
			fail("no block is known")
		}
	})
	if !ok {
		x.Fail("answer", "tree%s: %v", desc, pv)
	}
	x.State(mcx.Hash(desc, ids), false)
	x.Sample("parents%s", desc)
}

func init() {
	mcx.Register(&mcx.Check{ID: "C29", Scenarios: c29, Rule: "every number of transactions up to the bound: shape of the generated tree; for a smaller bound also storing it and reading it back, in memory and through disk"})
	mcx.Register(&mcx.Check{ID: "C30", Scenarios: c30, Rule: "every tree of blocks up to the bound (all parent choices, two difficulties at each period boundary): every query for every block, pair of blocks and depth"})
}
