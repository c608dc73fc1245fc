package peers

import (
	"fmt"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// act is one announcement: a transaction or a chain learned by a node at a moment.
type act struct {
	node int
	at   int64 // ms
	tx   *core.Tx
	top  *kit.Blk
}

// net connects whole nodes.
type netOf struct {
	w     *world
	ns    []*kit.Node
	seeds [][]int // which nodes each dials
}

var topos = map[string][][]int{
	"pair":     {nil, {0}},
	"line":     {nil, {0}, {1}},
	"star":     {nil, {0}, {0}},
	"triangle": {nil, {0}, {1, 0}},
	"line4":    {nil, {0}, {1}, {2}},
	"square":   {nil, {0}, {1}, {2, 0}},
}

func (w *world) connect(x *mcx.X, topo string, start *kit.Blk) []*kit.Node {
	var ns []*kit.Node
	for i, s := range topos[topo] {
		o := kit.FullOpt{P: w.u.P, Late: true, Miners: true, Seek: 3600 * 1e9}
		for _, j := range s {
			o.Seeds = append(o.Seeds, fmt.Sprintf("10.0.0.%d%s", j+1, kit.Port))
		}
		n := w.startKept(x, i, o, start)
		ns = append(ns, n)
	}
	for _, n := range ns {
		n.StartNet()
		settle(x, 200*ms)
	}
	settle(x, 1500*ms)
	return ns
}

// startKept starts a node, on what an earlier run of it stored when that is asked for.
func (w *world) startKept(x *mcx.X, i int, o kit.FullOpt, start *kit.Blk) *kit.Node {
	name, ip := string(rune('a'+i)), fmt.Sprintf("10.0.0.%d", i+1)
	if w.kept == nil || len(w.kept[i]) == 0 {
		n := kit.StartFull(x, name, ip, o)
		w.give(x, n, start)
		return n
	}
	dir := "/Data-" + name
	o.Dir = &dir
	n := kit.StartFull(x, name, ip, o)
	w.give(x, n, start)
	for _, t := range w.kept[i] {
		if e := n.OfferTx(t); e != "" {
			x.Fail("setup", "node %s does not take %s: %s", name, w.u.Name(t.Hash()), e)
		}
	}
	x.S.KillNode(n.N)
	mn := x.S.NewNode(name, ip)
	mn.FS = n.N.FS
	n = kit.StartFullOn(x, mn, o)
	if n.Dead != "" || n.Head() != start.ID {
		x.Fail("setup", "node %s does not return to %s: %s", name, start.Name, n.Dead)
	}
	return n
}

func received(x *mcx.X, ns []*kit.Node) (t int64) {
	for _, n := range ns {
		for _, e := range x.S.Ends(n.N) {
			t += e.Received
		}
	}
	return
}

// relay lets the nodes learn things and judges what all know at the end. late names a transaction
// that may be announced before the head it depends on.
func (w *world) relay(x *mcx.X, topo string, start *kit.Blk, acts []act, explore bool, late *core.Tx) {
	ns := w.connect(x, topo, start)
	desc := topo + ":"
	given := []*kit.Blk{start}
	var txs []core.Tx
	x.S.Explore(explore)
	for _, a := range acts {
		a := a
		n := ns[a.node]
		if a.tx != nil {
			desc += fmt.Sprintf(" %s to %s after %d ms", w.u.Name(a.tx.Hash()), n.N.Name, a.at)
			dup := false
			for _, t := range txs {
				dup = dup || t.Hash() == a.tx.Hash()
			}
			if !dup {
				txs = append(txs, *a.tx)
			}
		} else {
			desc += fmt.Sprintf(" %s to %s after %d ms", a.top.Name, n.N.Name, a.at)
			given = append(given, a.top)
		}
	}
	// announcements to one node keep their order
	for i := range ns {
		i := i
		var mine []act
		for _, a := range acts {
			if a.node == i {
				mine = append(mine, a)
			}
		}
		if len(mine) == 0 {
			continue
		}
		x.S.GoNode(ns[i].N, "events", func() {
			t := int64(0)
			for _, a := range mine {
				if a.at > t {
					mcrt.Sleep((a.at - t) * ms)
					t = a.at
				}
				if a.tx != nil {
					ns[i].Bus.CandidateTx.Pub(bus.CandidateTxEvent{Tx: *a.tx})
				} else {
					ns[i].Bus.CandidateHead.Pub(kit.Event(w.rest(a.top, start)...))
				}
			}
		})
	}
	mcrt.Sleep(350 * ms)
	settle(x, 2600*ms+w.long)
	before := received(x, ns)
	settle(x, 1200*ms)
	if n := received(x, ns) - before; n > 0 {
		x.Fail("never quiet", "%s: the nodes still exchange %d bytes per 1.2 s", desc, n)
		return
	}
	w.converged(x, desc, ns, given)
	if x.Failed() {
		return
	}
	for _, n := range ns {
		seen := map[H]int{}
		for _, id := range n.VTxs {
			if seen[id]++; seen[id] == 2 {
				x.Fail("added twice", "%s: node %s added %s twice", desc, n.N.Name, w.u.Name(id))
			}
		}
		l := w.u.Ref.Ledger(n.Head())
		known, _, _ := n.Known(w.u)
		has := map[H]bool{}
		for _, id := range known {
			has[id] = true
		}
		missing := false
		for _, t := range txs {
			if !has[t.Hash()] {
				missing = true
				key := "not relayed"
				if late != nil && late.Hash() == t.Hash() {
					key = "tx-ahead-of-its-head"
				}
				x.Fail(key, "%s: node %s never learns %s", desc, n.N.Name, w.u.Name(t.Hash()))
			}
		}
		if missing {
			continue
		}
		var pend []H
		for _, id := range known {
			if _, in := l.Inc[id]; !in && !w.u.Ref.Tx[id].IsCoinbase {
				pend = append(pend, id)
			}
		}
		if len(n.Targets) == 0 {
			x.Fail("no template", "%s: node %s offers nothing to mine", desc, n.N.Name)
			continue
		}
		tg := n.Targets[len(n.Targets)-1]
		if tg.Head != n.Head() {
			x.Fail("stale template", "%s: node %s offers a template on %s, its head is %s", desc, n.N.Name, w.u.Name(tg.Head), w.u.Name(n.Head()))
		} else if e := w.u.Ref.TemplateErr(l, pend, tg.TxIds); e != "" {
			x.Fail("template", "%s: node %s: %s", desc, n.N.Name, e)
		}
		m := ns[0]
		if m.Head() == n.Head() && len(m.Targets) > 0 && fmt.Sprint(m.Targets[len(m.Targets)-1].TxIds) != fmt.Sprint(tg.TxIds) {
			x.Fail("different templates", "%s: nodes %s and %s offer different transactions", desc, m.N.Name, n.N.Name)
		}
	}
	x.State(mcx.Hash(desc), false)
	x.Sample("%s", desc)
}

func c22(tier string) []mcx.Scenario {
	w := newWorld()
	deep := tier == "thorough"
	a2 := w.a[1]
	T := func(n int, at int64, t core.Tx) act { return act{node: n, at: at, tx: &t} }
	B := func(n int, at int64, k *kit.Blk) act { return act{node: n, at: at, top: k} }
	offs := []int64{0, 30, 60}
	if deep {
		offs = []int64{0, 5, 20, 30, 45, 60, 100, 150}
	}
	type set struct {
		name string
		topo []string
		acts func(d []int64, topo string) []act
		nd   int
	}
	last := func(topo string) int { return len(topos[topo]) - 1 }
	sets := []set{
		{"both-ends", []string{"pair", "line", "triangle"}, func(d []int64, tp string) []act {
			return []act{T(0, d[0], w.t1), T(0, d[0], w.t2), T(last(tp), d[1], w.t3), T(last(tp), d[1], w.t5)}
		}, 2},
		{"same-tx-everywhere", []string{"pair", "line", "triangle"}, func(d []int64, tp string) []act {
			return []act{T(0, d[0], w.t1), T(last(tp), d[1], w.t1), T(last(tp), d[1], w.t2), T(0, d[0], w.t2)}
		}, 2},
		{"conflicting", []string{"pair", "star"}, func(d []int64, tp string) []act {
			return []act{T(0, d[0], w.t3), T(last(tp), d[1], w.t3x), T(last(tp)-1, d[0], w.t1)}
		}, 2},
		{"txs-and-heads", []string{"pair", "line", "triangle"}, func(d []int64, tp string) []act {
			return []act{T(0, d[0], w.t1), B(0, d[0], w.a[2]), T(last(tp), d[1], w.t3), T(0, d[0], w.t2)}
		}, 2},
		{"heads-from-both-ends", []string{"pair", "line", "triangle"}, func(d []int64, tp string) []act {
			return []act{B(0, d[0], w.a[2]), T(0, d[0], w.t1), B(last(tp), d[1], w.a[3]), T(last(tp), d[1], w.t3)}
		}, 2},
		{"same-head-everywhere", []string{"line", "triangle"}, func(d []int64, tp string) []act {
			return []act{B(0, d[0], w.a[3]), T(1, d[0], w.t1), B(last(tp), d[1], w.a[3]), T(last(tp), d[1], w.t3)}
		}, 2},
	}
	var scns []mcx.Scenario
	for _, s := range sets {
		s := s
		tps := append([]string(nil), s.topo...)
		if deep {
			tps = append(tps, "line4", "square")
		}
		scns = append(scns, mcx.Scenario{Name: "timed-" + s.name, Body: func(x *mcx.X) {
			tp := tps[x.Pick(len(tps))]
			var d []int64
			for i := 0; i < s.nd; i++ {
				d = append(d, offs[x.Pick(len(offs))])
			}
			w.relay(x, tp, a2, s.acts(d, tp), false, nil)
		}})
		bound := 1
		if deep {
			bound = 2
		}
		scns = append(scns, mcx.Scenario{Name: "racing-" + s.name, Bound: bound,
			Opt: func(sd *mcrt.Sched) {
				sd.Filter = busy
				sd.NetDelay = 40 * ms
				sd.TimeDev = deep || s.topo[0] == "pair"
			},
			Body: func(x *mcx.X) {
				tp := s.topo[0]
				if deep {
					tp = s.topo[x.Pick(len(s.topo))]
				}
				w.relay(x, tp, a2, s.acts([]int64{0, 0, 0}, tp), true, nil)
			}})
	}
	scns = append(scns, mcx.Scenario{Name: "tx-of-a-new-head", Bound: 1, Opt: func(s *mcrt.Sched) { s.Filter = busy; s.NetDelay = 40 * ms },
		Body: func(x *mcx.X) {
			w.relay(x, "pair", a2, []act{B(0, 0, w.a[3]), T(0, 30, w.t4)}, true, &w.t4)
		}})
	scns = append(scns, mcx.Scenario{Name: "unusual-transactions", Body: func(x *mcx.X) {
		tp := []string{"pair", "line", "star"}[x.Pick(3)]
		from := x.Pick(2) * last(tp)
		var acts []act
		desc := x.Pick(len(w.odd) + 1)
		for i, t := range w.odd {
			if i == desc || desc == len(w.odd) {
				acts = append(acts, T(from, int64(i)*30, t))
			}
		}
		if x.Pick(2) == 1 {
			acts = append(acts, B(from, 250, w.a[2]))
		}
		w.relay(x, tp, a2, acts, false, nil)
	}})
	scns = append(scns, mcx.Scenario{Name: "kept-from-an-earlier-run", Body: func(x *mcx.X) {
		tp := []string{"pair", "line", "triangle"}[x.Pick(3)]
		w2 := *w
		w2.kept = map[int][]core.Tx{}
		desc := ""
		for i := 0; i <= last(tp); i++ {
			k := [][]core.Tx{nil, {w.t1}, {w.t1, w.t2}, {w.t1, w.t3, w.t2}}[x.Pick(4)]
			w2.kept[i] = k
			desc += fmt.Sprintf(" %d", len(k))
		}
		from := x.Pick(2) * last(tp)
		gap := offs[x.Pick(2)]
		acts := []act{T(from, 0, w.t1), T(from, gap, w.t2), T(last(tp)-from, 2*gap, w.t3)}
		if x.Pick(2) == 1 {
			acts = append(acts, B(from, 250, w.a[2]))
		}
		x.Sample("kept%s", desc)
		w2.relay(x, tp, a2, acts, false, nil)
		x.State(mcx.Hash(tp+desc), false)
	}})
	grid := 0
	if deep {
		grid = 1
	}
	scns = append(scns, mcx.Scenario{Name: "in-large-numbers", MaxSteps: 40_000_000, Body: func(x *mcx.X) {
		g := theLarge()
		tp := []string{"pair", "line", "triangle"}[x.Pick(2+grid)]
		what := 1 + x.Pick(3)
		gap := []int64{0, 60, 7}[x.Pick(2+grid)]
		var acts []act
		end := int64(0)
		if what&1 != 0 {
			for i, t := range g.pend {
				acts = append(acts, T(0, int64(i)*gap, t))
			}
			if what == 1 {
				acts = append(acts, T(0, int64(len(g.pend))*gap, g.wide))
			}
			end = int64(len(g.pend)) * gap
		}
		if what&2 != 0 {
			for i, k := range g.l[2:90] {
				acts = append(acts, B(last(tp), int64(i)*gap, k))
			}
		}
		g.w.long = end*ms + 20*sec
		g.w.relay(x, tp, g.l[1], acts, false, nil)
	}})
	for i := range scns {
		if scns[i].MaxSteps > 0 {
			continue
		}
		old := scns[i].Opt
		scns[i].Opt = func(s *mcrt.Sched) {
			if s.RaceDetect = true; old != nil {
				old(s)
			}
		}
	}
	return scns
}

func init() {
	mcx.Register(&mcx.Check{ID: "C22", Scenarios: c22, Seconds: 200, Rule: "every combination of topology and announcement times on the grid; every schedule of the nodes' loops up to the deviation bound",
		Assumptions: []string{"connections stay up while announcements travel"}})
}
