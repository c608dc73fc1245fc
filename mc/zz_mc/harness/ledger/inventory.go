package ledger

import (
	"fmt"
	"strings"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// stock is a small universe of entities depending on each other.
func theStock() *records {
	f := theForks()
	r := &records{u: f.u}
	add := func(kind, name string, v any) { r.list = append(r.list, entity{kind, name, "", v}) }
	seen := map[H]bool{}
	for _, k := range []*kit.Blk{f.a1, f.a2, f.x2, f.a3} {
		for i, t := range k.Txs {
			if !seen[t.Hash()] {
				seen[t.Hash()] = true
				add("tx", fmt.Sprintf("%s.tx%d", k.Name, i), t)
			}
		}
		for i, m := range k.Merkles {
			if !seen[m.Hash()] {
				seen[m.Hash()] = true
				add("merkle", fmt.Sprintf("%s.m%d", k.Name, i), m)
			}
		}
		add("block", k.Name, k.B)
	}
	return r
}

// closed describes what is wrong with a visible entity and all it refers to.
func (r *records) closed(i *inv.Inv, e entity) string {
	if got := readEntity(i, e); got != r.want(e) {
		return fmt.Sprintf("%s reads as %s instead of %s", e.name, got, r.want(e))
	}
	switch v := e.v.(type) {
	case core.Tx:
		for _, in := range v.Inputs {
			src, ok := r.u.Ref.Tx[in.Utxo.TxId]
			if !i.HasTx(in.Utxo.TxId) || !i.HasTxOut(in.Utxo.TxId, in.Utxo.Ind) {
				return fmt.Sprintf("%s is there but not the output it spends", e.name)
			}
			if o := i.GetTxOut(in.Utxo.TxId, in.Utxo.Ind); !ok || o != src.Outputs[in.Utxo.Ind] {
				return fmt.Sprintf("an output spent by %s reads as %v", e.name, o)
			}
			if d := r.closed(i, entity{"tx", e.name + "'s source", "", src}); d != "" {
				return d
			}
		}
	case core.MerkleNode:
		for _, c := range []H{v.LChild, v.RChild} {
			if !i.HasEntity(c) {
				return fmt.Sprintf("%s is there but not its child", e.name)
			}
			sz := i.GetEntityVSize(c)
			if w := r.u.Ref.Size(c); !w.IsUint64() || w.Uint64() != sz {
				return fmt.Sprintf("a child of %s has size %d instead of %v", e.name, sz, w)
			}
		}
		if got, want := i.GetMerkleTxIds(e.id()), r.u.Ref.Leaves(e.id()); fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("%s lists %v instead of %v", e.name, r.u.Names(got), r.u.Names(want))
		}
		for _, t := range i.GetMerkleTxs(e.id()) {
			if d := r.closed(i, entity{"tx", "a transaction of " + e.name, "", r.u.Ref.Tx[t.Hash()]}); d != "" {
				return d
			}
		}
	case core.Block:
		if !i.HasMerkle(v.MerkleRoot) {
			return fmt.Sprintf("%s is there but not its tree", e.name)
		}
		if d := r.closed(i, entity{"merkle", e.name + "'s tree", "", r.u.Ref.Mk[v.MerkleRoot]}); d != "" {
			return d
		}
		if !i.HasBlock(v.PrevBlockId) {
			return fmt.Sprintf("%s is there but not its parent", e.name)
		}
		if h := i.GetBlockHeight(e.id()); i.GetBlockHeight(v.PrevBlockId)+1 != h {
			return fmt.Sprintf("%s has height %d, not one above its parent", e.name, h)
		}
		if !v.PrevBlockId.EqZero() {
			return r.closed(i, entity{"block", e.name + "'s parent", "", r.u.Ref.Bl[v.PrevBlockId]})
		}
	}
	return ""
}

// needs lists the entities the k-th refers to directly.
func (r *records) needs(k int) (out []int) {
	ids := map[H]bool{}
	switch v := r.list[k].v.(type) {
	case core.Tx:
		for _, in := range v.Inputs {
			ids[in.Utxo.TxId] = true
		}
	case core.MerkleNode:
		ids[v.LChild], ids[v.RChild] = true, true
	case core.Block:
		ids[v.MerkleRoot], ids[v.PrevBlockId] = true, true
	}
	for j, e := range r.list {
		if ids[e.id()] {
			out = append(out, j)
		}
	}
	return
}

func c13(tier string) []mcx.Scenario {
	r := theStock()
	thorough := tier == "thorough"
	bound, depth := 1, 3
	if thorough {
		bound, depth = 2, 4
	}
	guard := func(x *mcx.X, what string, f func() string) (ok bool) {
		defer func() {
			if p := recover(); p != nil {
				if fmt.Sprintf("%T", p) == "*mcrt.abortT" {
					panic(p)
				}
				x.Fail("panic", "%s panics: %v", what, p)
			}
		}()
		if d := f(); d != "" {
			x.Fail("open", "%s: %s", what, d)
			return false
		}
		return true
	}
	// histories of a single user
	histories := func(disk bool) func(x *mcx.X) {
		return func(x *mcx.X) {
			mn := x.S.NewNode("n", "10.0.0.1")
			var dir *string
			if d := "/Data-1"; disk {
				dir = &d
			}
			have := make([]bool, len(r.list))
			var path []string
			pre := []int{0, 3, 7, 11}[x.Pick(4)]
			x.S.CallNode(mn, "user", func() {
				i := inv.NewInv(r.u.P, dir)
				store := func(k int) {
					e := r.list[k]
					want := !have[k]
					for _, n := range r.needs(k) {
						want = want && have[n]
					}
					path = append(path, e.name)
					err := storeEntity(i, e)
					if (err == nil) != want {
						x.Fail("stored", "after [%s]: storing it gives %v", strings.Join(path, ", "), err)
					}
					have[k] = have[k] || want
				}
				for k := 0; k < pre; k++ {
					store(k)
				}
				for d := 0; d < depth && !x.Failed(); d++ {
					k := x.Pick(len(r.list) + 1)
					if k == len(r.list) {
						if !disk {
							break
						}
						path = append(path, "restart")
						i = inv.NewInv(r.u.P, dir)
						continue
					}
					store(k)
				}
				for k, e := range r.list {
					if hasEntity(i, e) != have[k] {
						x.Fail("stored", "after [%s]: %s present %v", strings.Join(path, ", "), e.name, !have[k])
					} else if have[k] {
						guard(x, "after ["+strings.Join(path, ", ")+"]", func() string { return r.closed(i, e) })
					}
				}
			})
			x.State(mcx.Hash(fmt.Sprint(have)), false)
		}
	}
	// a writer and readers at the same time
	shared := func(disk, loaded bool, readers int) func(x *mcx.X) {
		return func(x *mcx.X) {
			mn := x.S.NewNode("n", "10.0.0.1")
			var dir *string
			if d := "/Data-1"; disk {
				dir = &d
			}
			// where the writer starts, how much it stores, and what the readers look at
			from := x.Pick(len(r.list))
			n, looks := 3, 2
			if readers > 1 && !thorough {
				n, looks = 2, 1
			}
			if from+n > len(r.list) {
				n = len(r.list) - from
			}
			target := from + x.Pick(n)
			again := (readers == 1 || thorough) && x.Pick(2) == 1 // the writer also offers what is there already
			var i *inv.Inv
			x.S.CallNode(mn, "pre", func() {
				i = inv.NewInv(r.u.P, dir)
				for k := 0; k < from || loaded && k < from+n; k++ {
					if err := storeEntity(i, r.list[k]); err != nil {
						x.Fail("stored", "storing %s: %v", r.list[k].name, err)
					}
				}
				if loaded {
					i = inv.NewInv(r.u.P, dir)
				}
			})
			if x.Failed() {
				return
			}
			x.S.Explore(true)
			done := 0
			x.S.GoNode(mn, "writer", func() {
				for k := from; k < from+n; k++ {
					err := storeEntity(i, r.list[k])
					if (err != nil) != loaded {
						x.Fail("stored", "storing %s gives %v", r.list[k].name, err)
					}
					if again {
						storeEntity(i, r.list[k])
					}
				}
				done++
			})
			for q := 0; q < readers; q++ {
				x.S.GoNode(mn, fmt.Sprintf("reader%d", q), func() {
					seen := false
					for p := 0; p < looks; p++ {
						guard(x, fmt.Sprintf("a reader during the writer's storing from %s to %s", r.list[from].name, r.list[from+n-1].name), func() string {
							e := r.list[target]
							if !hasEntity(i, e) {
								if seen || loaded {
									return e.name + " was there and is gone"
								}
								return ""
							}
							seen = true
							return r.closed(i, e)
						})
					}
					done++
				})
			}
			mcrt.ParkUntil(func() bool { return done == readers+1 || mn.Crashed }, mcrt.Now()+30*kit.Sec)
			x.S.Explore(false)
			if mn.Crashed {
				x.Fail("dead", "the process crashed: %s", mn.CrashMsg)
			} else if done != readers+1 {
				x.Fail("hang", "storing or reading does not finish")
			}
			if x.Failed() {
				return
			}
			for p := 0; p < 2; p++ {
				x.S.CallNode(mn, "end", func() {
					if p == 1 {
						if !disk {
							return
						}
						i = inv.NewInv(r.u.P, dir)
					}
					for k := from; k < from+n; k++ {
						if !hasEntity(i, r.list[k]) {
							x.Fail("stored", "%s was stored and is not there", r.list[k].name)
							continue
						}
						guard(x, "in the end", func() string { return r.closed(i, r.list[k]) })
					}
				})
			}
		}
	}
	opt := func(s *mcrt.Sched) {
		s.StmtPoints, s.RaceDetect, s.TornReads = thorough, true, true
		s.Filter = func(t *mcrt.Thread) bool { return t.Node().Name == "n" }
	}
	return []mcx.Scenario{
		{Name: "histories", Body: histories(false)},
		{Name: "histories-on-disk", Body: histories(true)},
		{Name: "shared", Bound: bound, Opt: opt, Body: shared(false, false, 1)},
		{Name: "shared-on-disk", Bound: bound, Opt: opt, Body: shared(true, false, 1)},
		{Name: "two-readers", Bound: bound, Opt: opt, Body: shared(false, false, 2)},
		{Name: "two-readers-on-disk", Bound: bound, Opt: opt, Body: shared(true, false, 2)},
		{Name: "two-readers-of-an-old-disk", Bound: bound, Opt: opt, Body: shared(true, true, 2)},
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C13", Scenarios: c13,
		Rule:        "every sequence of up to the stated number of stores (in dependency order or not, repeated or not, with restarts) after several prefixes; and one writer storing three consecutive entities while one or two readers look at one of them and everything it refers to, under every schedule with at most the stated number of deviations (at every shared map or file operation; in the thorough tier at every statement), with data race detection",
		Assumptions: []string{"sync.Map is trusted to be linearizable and is one atomic step here", "statements of pkg/core run without interruption (they touch no shared state)", "file writes become visible in two pieces; rename is atomic"}})
}
