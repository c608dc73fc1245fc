// Package peers checks whole nodes connected by a simulated network.
package peers

import (
	"fmt"
	"strings"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

type H = core.HashT

const ms = int64(1_000_000)
const sec = 1000 * ms

// world is a universe of chains for whole nodes.
type world struct {
	u              *kit.Uni
	a              []*kit.Blk // a main chain with chained transactions and trees of different depths
	b              []*kit.Blk // a competing branch from a[0]
	c              []*kit.Blk // a chain of its own
	sib            []*kit.Blk // twins of a[2], a[3]: another coinbase, the rest of the tree the same
	ds             []core.Tx  // the transactions of a[2]
	bad            map[*kit.Blk]*kit.Blk
	long           int64             // extra time relays may take
	kept           map[int][]core.Tx // what an earlier run of each node stored
	t1, t2, t3, t4 core.Tx
	odd            []core.Tx
	t5, t3x, t6    core.Tx // pending candidates, chained: t2 spends t1, t4 spends an output of a[3]
}

func newWorld() *world {
	w := &world{u: kit.NewUni(kit.SmallParams())}
	u := w.u
	in := func(t core.Tx, n, k int) kit.In { return kit.In{Tx: t, N: n, K: k} }
	a1 := u.Block("A1", nil, nil, kit.Key(1))
	// a shallow tree: creates outputs
	s1 := u.Tx("s1", 0, []kit.In{in(a1.Txs[0], 0, 1)}, []kit.Out{{200, 2}, {200, 3}, {200, 4}, {200, 5}, {190, 6}})
	a2 := u.Block("A2", a1, []core.Tx{s1}, kit.Key(1))
	// a deep tree with chained transactions spending them
	d1 := u.Tx("d1", 0, []kit.In{in(s1, 0, 2)}, []kit.Out{{190, 7}})
	d2 := u.Tx("d2", 0, []kit.In{in(d1, 0, 7), in(s1, 1, 3)}, []kit.Out{{300, 8}, {80, 8}})
	d3 := u.Tx("d3", 0, []kit.In{in(d2, 0, 8)}, []kit.Out{{290, 9}})
	d4 := u.Tx("d4", 0, []kit.In{in(s1, 2, 4)}, []kit.Out{{190, 9}})
	d5 := u.Tx("d5", 0, []kit.In{in(d4, 0, 9), in(d3, 0, 9)}, []kit.Out{{470, 2}})
	a3 := u.Block("A3", a2, []core.Tx{d1, d2, d3, d4, d5}, kit.Key(1))
	// shallow again, spending the deep one
	e1 := u.Tx("e1", 0, []kit.In{in(d5, 0, 2)}, []kit.Out{{460, 3}})
	a4 := u.Block("A4", a3, []core.Tx{e1}, kit.Key(1))
	w.a = []*kit.Blk{a1, a2, a3, a4}
	w.ds = []core.Tx{d1, d2, d3, d4, d5}
	s3 := u.Block("S3", a2, w.ds, kit.Key(4))
	s4 := u.Block("S4", s3, []core.Tx{e1}, kit.Key(4))
	w.sib = []*kit.Blk{s3, s4}
	x1 := u.Tx("x1", 0, []kit.In{in(a1.Txs[0], 0, 1)}, []kit.Out{{900, 7}})
	b2 := u.Block("B2", a1, []core.Tx{x1}, kit.Key(2), kit.Noise(3))
	b3 := u.Block("B3", b2, nil, kit.Key(2), kit.Noise(3))
	b4 := u.Block("B4", b3, nil, kit.Key(2), kit.Noise(3))
	w.b = []*kit.Blk{b2, b3, b4}
	c1 := u.Block("C1", nil, nil, kit.Key(3), kit.Noise(4))
	c2 := u.Block("C2", c1, nil, kit.Key(3), kit.Noise(4))
	w.c = []*kit.Blk{c1, c2}
	w.t1 = u.Tx("t1", 0, []kit.In{in(s1, 3, 5)}, []kit.Out{{190, 5}})
	w.t2 = u.Tx("t2", 0, []kit.In{in(w.t1, 0, 5)}, []kit.Out{{180, 5}})
	w.t3 = u.Tx("t3", 0, []kit.In{in(s1, 4, 6)}, []kit.Out{{180, 6}})
	w.t3x = u.Tx("t3x", 0, []kit.In{in(s1, 4, 6)}, []kit.Out{{150, 6}})
	w.t6 = u.Tx("t6", 0, []kit.In{in(a2.Txs[0], 0, 1)}, []kit.Out{{700, 6}})
	w.t5 = u.Tx("t5", 0, []kit.In{in(s1, 3, 5)}, []kit.Out{{100, 6}})
	w.t4 = u.Tx("t4", 0, []kit.In{in(e1, 0, 3)}, []kit.Out{{450, 6}})
	w.odd = []core.Tx{
		u.Tx("locked", 60, []kit.In{in(s1, 3, 5)}, []kit.Out{{100, 6}}),
		u.Tx("locked to the next block", 3, []kit.In{in(s1, 3, 5)}, []kit.Out{{101, 6}}),
		u.Tx("fee of one", 0, []kit.In{in(s1, 3, 5)}, []kit.Out{{199, 6}}),
		u.Tx("worthless outputs", 0, []kit.In{in(s1, 3, 5)}, []kit.Out{{0, 6}, {0, 6}, {1, 7}}),
		u.Tx("all for the fee", 0, []kit.In{in(s1, 3, 5), in(s1, 4, 6)}, []kit.Out{{0, 1}}),
		u.Tx("spent already", 0, []kit.In{in(a1.Txs[0], 0, 1)}, []kit.Out{{900, 6}}),
	}
	u.Valid(a1, a2, a3, a4, s3, s4, b2, b3, b4, c1, c2)
	w.bad = map[*kit.Blk]*kit.Blk{}
	for _, k := range w.heads()[1:] {
		w.bad[k] = u.Block("bad-on-"+k.Name, k, nil, kit.Extra(5), kit.Noise(66), kit.Hide())
		u.Invalid(w.bad[k])
	}
	return w
}

// heads offered as starting points: nothing and every block.
func (w *world) heads() (out []*kit.Blk) {
	out = append(out, nil)
	out = append(out, w.a...)
	out = append(out, w.b...)
	out = append(out, w.c...)
	return
}

// give lets a node adopt the chain to k.
func (w *world) give(x *mcx.X, n *kit.Node, k *kit.Blk) {
	if k != nil {
		n.OfferHead(kit.Event(w.u.Chain(k)...))
		for i := 0; i < 5 && n.Head() != k.ID; i++ { // its loop may be in the middle of a wait
			mcrt.Sleep(25 * ms)
			n.Drain()
		}
		if n.Head() != k.ID {
			x.Fail("setup", "node %s did not adopt %s", n.N.Name, k.Name)
		}
	}
}

func (w *world) work(k *kit.Blk) string {
	if k == nil {
		return ""
	}
	return fmt.Sprintf("%080d", w.u.Ref.Work(k.ID))
}

func (w *world) byID(id H) *kit.Blk {
	for _, k := range append(w.heads()[1:], w.sib...) {
		if k.ID == id {
			return k
		}
	}
	return nil
}

// converged judges connected nodes that together were given the listed heads.
func (w *world) converged(x *mcx.X, desc string, ns []*kit.Node, given []*kit.Blk) {
	best := ""
	var tops []*kit.Blk
	for _, k := range given {
		wk := w.work(k)
		if wk > best {
			best, tops = wk, nil
		}
		if wk == best && k != nil {
			dup := false
			for _, t := range tops {
				dup = dup || t == k
			}
			if !dup {
				tops = append(tops, k)
			}
		}
	}
	for _, n := range ns {
		if d := n.Alive(); d != "" {
			x.Fail("dead", "%s: node %s: %s", desc, n.N.Name, d)
			return
		}
		h := n.Head()
		ok := h == H{} && len(tops) == 0
		for _, t := range tops {
			ok = ok || t.ID == h
		}
		if !ok {
			x.Fail("not converged", "%s: node %s stays at %s, best is %s", desc, n.N.Name, w.u.Name(h), tops[0].Name)
			return
		}
		for i, h1 := range n.Heads {
			for _, h2 := range n.Heads[:i] {
				if h1 == h2 {
					x.Fail("adopted twice", "%s: node %s adopted %s twice", desc, n.N.Name, w.u.Name(h1))
				}
			}
		}
		txs, _, _ := n.Known(w.u)
		var l *kit.Ledger
		if len(tops) > 0 {
			l = w.u.Ref.Ledger(h)
		} else {
			l = w.u.Ref.Ledger(H{})
		}
		got := n.Ask(w.u.Owners(), txs, 100)
		if got == nil {
			x.Fail("no answer", "%s: node %s does not answer", desc, n.N.Name)
			return
		}
		var pend []H
		for _, id := range txs {
			if _, in := l.Inc[id]; !in && !w.u.Ref.Tx[id].IsCoinbase {
				pend = append(pend, id)
			}
		}
		want := w.u.Ref.Expect(l, w.u.Owners(), txs, pend)
		got.Free, want.Free = nil, nil
		if d := w.u.Diff(got, want); d != "" {
			x.Fail("ledger", "%s: node %s: %s", desc, n.N.Name, d)
			return
		}
	}
}

// settle lets time pass, with idle polling slowed down (a sleep may always last longer).
func settle(x *mcx.X, d int64) {
	x.S.Explore(false)
	old := x.S.MinSleep
	x.S.MinSleep = 95 * ms
	mcrt.Sleep(d)
	x.S.MinSleep = old
}

func nm(k *kit.Blk) string {
	if k == nil {
		return "nothing"
	}
	return k.Name
}

// busy selects the threads whose order matters here: everything but the delivery and cleanup loops
// inside topics and tickers (their relative order is explored by C16 to C18, and which of several
// waiting events a loop takes first is explored here too).
func busy(t *mcrt.Thread) bool {
	return !strings.HasPrefix(t.Name(), "topic.") && !strings.HasPrefix(t.Name(), "time.")
}

// happening is something that occurs while nodes are connected.
type happening struct {
	name string
	node int
	f    func(x *mcx.X, n *kit.Node)
	top  *kit.Blk
}

// steps of the last blocks of the chain to k, after from.
func (w *world) rest(k, from *kit.Blk) []*kit.Blk {
	l := w.u.Chain(k)
	for i, b := range l {
		if b == from {
			return l[i+1:]
		}
	}
	return l
}

func c21(tier string) []mcx.Scenario {
	w := newWorld()
	hs := w.heads()
	deep := tier == "thorough"
	scns := []mcx.Scenario{
		{Name: "two-nodes-any-chains", Body: func(x *mcx.X) {
			i, j := x.Pick(len(hs)), x.Pick(len(hs))
			a := kit.StartFull(x, "a", "10.0.0.1", kit.FullOpt{P: w.u.P})
			w.give(x, a, hs[i])
			b := kit.StartFull(x, "b", "10.0.0.2", kit.FullOpt{P: w.u.P, Seeds: []string{"10.0.0.1" + kit.Port}, Late: true})
			w.give(x, b, hs[j])
			b.StartNet()
			settle(x, 3*sec)
			desc := fmt.Sprintf("a has %s, b dials with %s", nm(hs[i]), nm(hs[j]))
			w.converged(x, desc, []*kit.Node{a, b}, []*kit.Blk{hs[i], hs[j]})
			x.State(mcx.Hash(desc), false)
			x.Sample("%s", desc)
		}},
		{Name: "stored-but-not-adopted", Body: func(x *mcx.X) {
			// b was once offered an invalid extension of a valid chain: it knows those blocks but is not on them
			i, j := x.Pick(len(hs)), x.Pick(len(hs)-1)+1
			late := x.Pick(2) == 1
			a := kit.StartFull(x, "a", "10.0.0.1", kit.FullOpt{P: w.u.P})
			w.give(x, a, hs[i])
			b := kit.StartFull(x, "b", "10.0.0.2", kit.FullOpt{P: w.u.P, Seeds: []string{"10.0.0.1" + kit.Port}, Late: true})
			if late {
				b.StartNet()
				settle(x, 2*sec)
			}
			bad := w.bad[hs[j]]
			b.OfferHead(kit.Event(append(w.u.Chain(hs[j]), bad)...))
			if !late {
				b.StartNet()
			}
			settle(x, 2*sec)
			last := hs[0]
			for _, k := range []*kit.Blk{hs[i], hs[j]} {
				if w.work(k) > w.work(last) {
					last = k
				}
			}
			// a adopts hs[j] (if it is better) only now
			if w.work(hs[j]) > w.work(hs[i]) {
				w.give(x, a, hs[j])
			}
			settle(x, 3*sec)
			desc := fmt.Sprintf("a has %s, b was offered an invalid block on %s (connected before %v)", nm(hs[i]), nm(hs[j]), late)
			w.converged(x, desc, []*kit.Node{a, b}, []*kit.Blk{hs[i], last})
			x.State(mcx.Hash(desc), false)
			x.Sample("%s", desc)
		}},
		{Name: "three-nodes-any-chains", Body: func(x *mcx.X) {
			hs := hs
			if !deep {
				hs = []*kit.Blk{nil, w.a[1], w.a[3], w.b[0], w.b[2], w.c[1]}
			}
			i, j, k := x.Pick(len(hs)), x.Pick(len(hs)), x.Pick(len(hs))
			topo := x.Pick(3)
			a := kit.StartFull(x, "a", "10.0.0.1", kit.FullOpt{P: w.u.P})
			seeds := [][]string{{"10.0.0.1" + kit.Port}, {"10.0.0.2" + kit.Port}}
			switch topo {
			case 1:
				seeds[1] = seeds[0] // both dial a
			case 2:
				seeds[1] = append(seeds[1], seeds[0]...) // all connected
			}
			b := kit.StartFull(x, "b", "10.0.0.2", kit.FullOpt{P: w.u.P, Seeds: seeds[0], Late: true})
			c := kit.StartFull(x, "c", "10.0.0.3", kit.FullOpt{P: w.u.P, Seeds: seeds[1], Late: true})
			w.give(x, a, hs[i])
			w.give(x, b, hs[j])
			w.give(x, c, hs[k])
			b.StartNet()
			c.StartNet()
			settle(x, 5*sec)
			desc := fmt.Sprintf("a, b, c have %s, %s, %s, topology %d", nm(hs[i]), nm(hs[j]), nm(hs[k]), topo)
			w.converged(x, desc, []*kit.Node{a, b, c}, []*kit.Blk{hs[i], hs[j], hs[k]})
			x.State(mcx.Hash(desc), false)
			x.Sample("%s", desc)
		}},
	}
	scns = append(scns, mcx.Scenario{Name: "partly-known", Body: func(x *mcx.X) {
		// b already holds some of the transactions, or a part of the tree, of the blocks it lacks
		tops := append([]*kit.Blk{w.a[2], w.a[3]}, w.sib...)
		top := tops[x.Pick(len(tops))]
		start := w.a[1]
		nd, d4, d5 := x.Pick(4), x.Pick(2) == 1, false
		if nd == 3 && d4 {
			d5 = x.Pick(2) == 1
		}
		if nd == 0 && !d4 && x.Pick(2) == 1 {
			start = w.a[2]
		}
		late := x.Pick(2) == 1
		a := kit.StartFull(x, "a", "10.0.0.1", kit.FullOpt{P: w.u.P})
		b := kit.StartFull(x, "b", "10.0.0.2", kit.FullOpt{P: w.u.P, Seeds: []string{"10.0.0.1" + kit.Port}, Late: true})
		w.give(x, b, start)
		desc := fmt.Sprintf("a has %s, b %s and", nm(top), nm(start))
		for i, t := range w.ds {
			if i < nd || i == 3 && d4 || i == 4 && d5 {
				desc += " " + w.u.Name(t.Hash())
				if s := b.OfferTx(t); s != "" {
					x.Fail("setup", "%s: %s", desc, s)
					return
				}
			}
		}
		if late {
			b.StartNet()
			settle(x, 2*sec)
		}
		if w.work(top) > w.work(start) || !late {
			w.give(x, a, top)
		} else {
			a.OfferHead(kit.Event(w.u.Chain(top)...)) // no better than what it got from b
		}
		if !late {
			b.StartNet()
		}
		settle(x, 3*sec)
		w.converged(x, desc, []*kit.Node{a, b}, []*kit.Blk{start, top})
		x.State(mcx.Hash(desc, late), false)
		x.Sample("%s (connected before %v)", desc, late)
	}})
	scns = append(scns, largeSync(), heavyChains())
	// Nodes learn heads while connecting or connected, at any moment relative to each other.
	evs := []struct {
		name  string
		start [2]*kit.Blk
		ev    [2][]*kit.Blk // heads learned by each node during the run
	}{
		{"both-extend", [2]*kit.Blk{w.a[0], w.a[0]}, [2][]*kit.Blk{{w.a[2]}, {w.b[0]}}},
		{"same-head-twice", [2]*kit.Blk{w.a[1], w.a[1]}, [2][]*kit.Blk{{w.a[2]}, {w.a[2]}}},
		{"one-steps-twice", [2]*kit.Blk{w.a[0], nil}, [2][]*kit.Blk{{w.a[2], w.a[3]}, nil}},
		{"other-steps-twice", [2]*kit.Blk{nil, w.c[0]}, [2][]*kit.Blk{nil, {w.c[1], w.a[3]}}},
		{"leapfrog", [2]*kit.Blk{w.a[0], w.c[1]}, [2][]*kit.Blk{{w.a[3]}, {w.b[1]}}},
	}
	offs := []int64{0, 20, 55, 105}
	if deep {
		offs = []int64{0, 3, 20, 30, 55, 80, 105, 130, 200}
	}
	for i, e := range evs {
		e := e
		scns = append(scns, mcx.Scenario{Name: "heads-arriving-" + e.name, Body: func(x *mcx.X) {
			d := [2]int64{offs[x.Pick(len(offs))] * ms, offs[x.Pick(len(offs))] * ms}
			late := x.Pick(2) == 1 // already connected, or connecting right then
			w.run2(x, e.name, e.start, e.ev, d, late, false)
		}})
		bound := 1
		if deep {
			bound = 2
		} else if i == 2 || i == 3 {
			continue
		}
		scns = append(scns, mcx.Scenario{Name: "heads-racing-" + e.name, Bound: bound,
			Opt: func(s *mcrt.Sched) { s.Filter = busy },
			Body: func(x *mcx.X) {
				late := x.Pick(2) == 1
				w.run2(x, e.name, e.start, e.ev, [2]int64{0, 0}, late, true)
			}})
	}
	return scns
}

// run2 lets two nodes learn heads while they connect or are connected.
func (w *world) run2(x *mcx.X, name string, start [2]*kit.Blk, ev [2][]*kit.Blk, d [2]int64, late, explore bool) {
	a := kit.StartFull(x, "a", "10.0.0.1", kit.FullOpt{P: w.u.P})
	b := kit.StartFull(x, "b", "10.0.0.2", kit.FullOpt{P: w.u.P, Seeds: []string{"10.0.0.1" + kit.Port}, Late: true})
	ns := []*kit.Node{a, b}
	given := []*kit.Blk{}
	for i, n := range ns {
		w.give(x, n, start[i])
		given = append(given, start[i])
	}
	if late {
		b.StartNet()
		settle(x, 1500*ms)
	}
	x.S.Explore(explore)
	done := 0
	for i, n := range ns {
		i, n := i, n
		x.S.GoNode(n.N, "events", func() {
			mcrt.Sleep(d[i])
			from := start[i]
			for k, h := range ev[i] {
				if k > 0 {
					mcrt.Sleep(40 * ms)
				}
				n.Bus.CandidateHead.Pub(kit.Event(w.rest(h, from)...))
				from = nil
			}
			done++
		})
	}
	if !late {
		b.StartNet()
	}
	mcrt.Sleep(450 * ms)
	settle(x, 2800*ms)
	for i := range ev {
		given = append(given, ev[i]...)
	}
	desc := fmt.Sprintf("%s, delays %d and %d ms, connected before %v", name, d[0]/ms, d[1]/ms, late)
	w.converged(x, desc, ns, given)
	x.State(mcx.Hash(desc, a.Head(), b.Head()), false)
	x.Sample("%s", desc)
}

func init() {
	mcx.Register(&mcx.Check{ID: "C21", Scenarios: c21, Seconds: 200, Rule: "every combination of starting chains, dialling patterns and arrival times on the grid; every schedule of the nodes' loops up to the deviation bound",
		Assumptions: []string{"connections stay up while nodes synchronise"}})
}
