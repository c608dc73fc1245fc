package ledger

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/miner"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// mineTick is how long one step of a miner's search takes, mineRound how long it may search before it looks
// for a new target.
const (
	mineTick  = 10 * kit.Ms
	mineRound = 400 * kit.Ms
)

type seenTarget struct {
	at int64
	e  bus.MinerTargetEvent
}

type published struct {
	at    int64 // noticed
	since int64 // not before
	head  H     // the node's head when it was noticed
	e     bus.CandidateHeadEvent
}

// mint is a node with running miners.
type mint struct {
	x       *mcx.X
	u       *kit.Uni
	ref     *kit.Ref // everything there is, including what was mined
	mn      *mcrt.Node
	bus     *bus.Bus
	inv     *inv.Inv
	threads []*mcrt.Thread
	ended   []bool
	offered map[H]bool // heads offered by the harness
	subT    topic.Sub[bus.MinerTargetEvent]
	subC    topic.Sub[bus.CandidateHeadEvent]
	subH    topic.Sub[bus.ValidatedHeadEvent]
	subX    topic.Sub[bus.ValidatedTxEvent]
	targets []seenTarget
	pubs    []published
	heads   []H
	headAt  []int64
	used    []int // per miner, the last target it used
	path    []string
	looked  int64
	judged  int
	nBlocks int
	jumped  int64 // when the clock jumped last
	backlog int64 // how long the miners may be busy taking up targets (each of which costs them time for every transaction)
	dir     *string
}

const mineKey = 60 // first key the miners are paid to

func (w *mint) fail(k, f string, a ...any) {
	w.x.Fail(k, "after [%s]: %s", strings.Join(w.path, ", "), fmt.Sprintf(f, a...))
}

// newMint starts a node with n miners the way the node program does.
func newMint(x *mcx.X, u *kit.Uni, n int, dir *string, fs *mcrt.FS) *mint {
	w := &mint{x: x, u: u, ref: kit.NewRef(u.P), mn: x.S.NewNode("n", "10.0.0.1"), offered: map[H]bool{}, ended: make([]bool, n), dir: dir}
	if fs != nil {
		w.mn.FS = fs
	}
	for i, v := range u.Ref.Tx {
		w.ref.Tx[i] = v
	}
	for i, v := range u.Ref.Mk {
		w.ref.Mk[i] = v
	}
	for i, v := range u.Ref.Bl {
		w.ref.Bl[i] = v
	}
	var c *chain.Chain
	var ms []*miner.Miner
	ok, pv := x.S.CallNode(w.mn, "start", func() {
		w.bus = bus.NewBus()
		w.subT, w.subC, w.subH, w.subX = w.bus.MinerTarget.Sub(), w.bus.CandidateHead.Sub(), w.bus.ValidatedHead.Sub(), w.bus.ValidatedTx.Sub()
		w.inv = inv.NewInv(u.P, dir)
		c = chain.NewChain(w.bus, w.inv, n > 0, dir)
		for i := 0; i < n; i++ {
			ms = append(ms, miner.NewMiner(miner.NewParams(kit.Pkh(mineKey+i)), w.bus, w.inv))
		}
	})
	if !ok {
		w.fail("dead", "the node failed to start: %v", pv)
		return w
	}
	for i := range ms {
		i := i
		w.used = append(w.used, -1)
		w.threads = append(w.threads, x.S.GoNode(w.mn, "miner", func() { ms[i].Loop(); w.ended[i] = true }))
		w.threads[i].Slow(4, mineTick)
	}
	mcrt.Sleep(250 * kit.Ms)
	x.S.GoNode(w.mn, "chain", func() { c.Loop(); w.fail("dead", "the chain's loop ended") })
	w.looked = mcrt.Now()
	return w
}

func (w *mint) head() H {
	if len(w.heads) == 0 {
		return H{}
	}
	return w.heads[len(w.heads)-1]
}

// look collects what was published.
func (w *mint) look() {
	now := mcrt.Now()
	for {
		e, ok := w.subT.Pop()
		if !ok {
			break
		}
		w.targets = append(w.targets, seenTarget{now, e})
	}
	for {
		e, ok := w.subC.Pop()
		if !ok {
			break
		}
		if w.offered[e.Head] || len(e.Blocks) == 0 && w.dir != nil { // (a node offers itself its saved head)
			continue
		}
		w.nBlocks++
		for _, t := range e.Txs {
			w.ref.Tx[t.Hash()] = t
		}
		for _, m := range e.Merkles {
			w.ref.Mk[m.Hash()] = m
		}
		for _, b := range e.Blocks {
			w.ref.Bl[b.Hash()] = b
		}
		w.pubs = append(w.pubs, published{now, w.looked, w.head(), e})
	}
	for {
		e, ok := w.subH.Pop()
		if !ok {
			break
		}
		w.heads = append(w.heads, e.Head)
		w.headAt = append(w.headAt, now)
	}
	for {
		if _, ok := w.subX.Pop(); !ok {
			break
		}
	}
	w.looked = now
	for i := range w.ended {
		if w.ended[i] {
			w.fail("stopped", "a miner ended: %s", lastLines(w.mn.Out.String()))
		}
	}
	if w.mn.Crashed {
		w.fail("dead", "the node crashed: %s", w.mn.CrashMsg)
	}
}

func lastLines(s string) string {
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

// wait lets time pass, watching closely.
func (w *mint) wait(d int64) {
	for end := mcrt.Now() + d; mcrt.Now() < end && !w.x.Failed(); {
		mcrt.Sleep(5 * kit.Ms)
		w.look()
	}
	w.judge()
}

// judge checks the blocks published since.
func (w *mint) judge() {
	for ; w.judged < len(w.pubs) && !w.x.Failed(); w.judged++ {
		p := w.pubs[w.judged]
		w.judgeBlock(p)
	}
}

func (w *mint) judgeBlock(p published) {
	e := p.e
	jumped := w.jumped > 0 && p.since < w.jumped+mineRound // it may have been begun before the clock jumped
	w.x.Count("blocks mined", 1)
	if len(e.Blocks) != 1 || e.Blocks[0].Hash() != e.Head {
		w.fail("block", "a miner published %d blocks with head %s", len(e.Blocks), w.u.Name(e.Head))
		return
	}
	b := e.Blocks[0]
	if !kit.Less(b.Hash(), b.Target) {
		w.fail("work", "a miner published a block which does not beat its target")
		return
	}
	if len(e.Txs) != 1 || !e.Txs[0].IsCoinbase {
		w.fail("block", "a miner published a block with %d transactions of its own", len(e.Txs))
		return
	}
	cb := e.Txs[0]
	who := -1
	for i := range w.used {
		if len(cb.Outputs) == 1 && cb.Outputs[0].PublicKeyHash == kit.Pkh(mineKey+i) {
			who = i
		}
	}
	if who < 0 {
		w.fail("owner", "a mined block does not pay the configured owner in one output: %v", cb.Outputs)
		return
	}
	ids := w.ref.Leaves(b.MerkleRoot)
	if len(ids) == 0 || ids[0] != cb.Hash() {
		w.fail("block", "a mined block's tree does not start with its coinbase")
		return
	}
	fees := new(big.Int).SetUint64(w.u.P.BlockReward)
	for _, id := range ids[1:] {
		fees.Add(fees, kit.InSum(w.ref.Tx[id]))
		fees.Sub(fees, kit.OutSum(w.ref.Tx[id]))
	}
	if !fees.IsUint64() || fees.Uint64() != cb.Outputs[0].Value {
		w.fail("reward", "a mined block pays %d instead of %v", cb.Outputs[0].Value, fees)
	}
	// the target it answers: the same as or later than this miner's last one
	at := -1
	same := func(t bus.MinerTargetEvent) bool {
		if t.Head != b.PrevBlockId || t.Target != b.Target || len(t.TxIds) != len(ids)-1 {
			return false
		}
		for i, id := range t.TxIds {
			if ids[i+1] != id {
				return false
			}
		}
		return true
	}
	first := w.used[who]
	if first < 0 {
		first = 0
	}
	for i := first; i < len(w.targets) && w.targets[i].at <= p.at; i++ {
		if same(w.targets[i].e) {
			at = i
			// the first that fits when judging order, the last that fits when judging delay
			if w.used[who] < i {
				w.used[who] = i
			}
			break
		}
	}
	if at < 0 {
		w.fail("target", "a block mined on %s with %v answers no target given (or one older than an earlier block's)", w.u.Name(b.PrevBlockId), w.names(ids[1:]))
		return
	}
	for i := at; i < len(w.targets) && w.targets[i].at <= p.at; i++ {
		if same(w.targets[i].e) {
			at = i
		}
	}
	if !jumped && at+1 < len(w.targets) && w.targets[at+1].at < p.since-mineRound {
		w.fail("late", "a block mined on %s answers a target replaced %d ms ago", w.u.Name(b.PrevBlockId), (p.since-w.targets[at+1].at)/kit.Ms)
	}
	// validity, for any time the miner may have read the clock at
	now, before := uint64(p.at/kit.Sec), uint64((p.since-mineRound)/kit.Sec)
	nb := b
	nb.MinedTime = before
	if jumped && w.ref.BlockErr(b, now) != "" {
		return
	}
	if err := w.ref.BlockErr(b, now); err != "" && (w.ref.TimeErr(b, now) == "" || w.ref.TimeErr(nb, now) == "") {
		w.fail("invalid", "a mined block on %s is invalid: %s", w.u.Name(b.PrevBlockId), err)
		return
	} else if err != "" {
		w.x.Count("blocks mined while the clock was behind the chain", 1)
		return
	}
	if err := w.ref.Ledger(e.Head).Err; err != "" {
		w.fail("invalid", "a mined block on %s is invalid: %s", w.u.Name(b.PrevBlockId), err)
		return
	}
	if err := w.ref.TxErr(cb); err != "" {
		w.fail("invalid", "a mined coinbase is invalid: %s", err)
	}
}

func (w *mint) names(ids []H) (out []string) {
	for _, i := range ids {
		out = append(out, w.u.Name(i))
	}
	return
}

// adopted: every valid block mined on the head of its time was adopted or lost to another.
func (w *mint) adopted() {
	for _, p := range w.pubs {
		if p.at > mcrt.Now()-kit.Sec || len(p.e.Blocks) != 1 {
			continue
		}
		b := p.e.Blocks[0]
		if w.ref.BlockErr(b, uint64(p.since/kit.Sec)) != "" || w.ref.Ledger(p.e.Head).Err != "" {
			continue
		}
		if b.PrevBlockId == p.head && w.head() == p.head {
			w.fail("adopt", "a valid block mined on head %s was not adopted", w.u.Name(p.head))
		}
	}
}

// patience is how long the miners may need for a block (and the clock to pass the chain's times).
func (w *mint) patience() int64 {
	t := w.u.P.OriginalTarget
	if hd := w.head(); !hd.EqZero() {
		t = w.ref.Bl[hd].Target
	}
	for _, s := range w.targets {
		if s.e.Head == w.head() {
			t = s.e.Target
		}
	}
	tries := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 256), kit.Big(t)).Int64()
	return 3*kit.Sec + 40*tries*mineTick + w.backlog
}

// extends: without further events, the head moves on to blocks of the miners.
func (w *mint) extends() {
	w.wait(200 * kit.Ms)
	for n := 0; n < 2 && !w.x.Failed(); n++ {
		hd := w.head()
		end := mcrt.Now() + w.patience()
		for mcrt.Now() < end && w.head() == hd && !w.x.Failed() {
			w.wait(50 * kit.Ms)
			if m, ok := w.ref.Median(hd); ok && uint64(mcrt.Now()/kit.Sec) <= m && mcrt.Now()+2*kit.Sec > end {
				w.x.S.AdvanceTo(int64(m+1) * kit.Sec)
				end = mcrt.Now() + w.patience()
			}
		}
		if w.x.Failed() {
			return
		}
		nh := w.head()
		if nh == hd {
			w.fail("stall", "the miners do not extend head %s (height %d; %d blocks published, %d targets)", w.u.Name(hd), w.ref.Height(hd), w.nBlocks, len(w.targets))
			return
		}
		for nh != hd && !nh.EqZero() {
			nh = w.ref.Bl[nh].PrevBlockId
		}
		if nh != hd {
			w.fail("stall", "the head left %s without anything heavier offered", w.u.Name(hd))
		}
	}
	w.adopted()
}

// mop is one event during mining.
type mop struct {
	name string
	do   func(w *mint)
}

func (w *mint) offer(e bus.CandidateHeadEvent) {
	w.offered[e.Head] = true
	ev := cloneEv(e)
	w.x.S.CallNode(w.mn, "offer", func() { w.bus.CandidateHead.Pub(ev) })
}

func (w *mint) offerTx(t core.Tx) {
	w.ref.Tx[t.Hash()] = t
	c := kit.CloneTx(t)
	w.x.S.CallNode(w.mn, "offer", func() { w.bus.CandidateTx.Pub(bus.CandidateTxEvent{Tx: c}) })
}

// mined is a transaction spending what the miners earned on the current chain.
func (w *mint) spendMined(fee uint64, to int) {
	w.look()
	l := w.ref.Ledger(w.head())
	var best core.Utxo
	key := -1
	for u, p := range l.Utxos {
		for i := range w.used {
			if p == kit.Pkh(mineKey+i) && u.Value > fee && (key < 0 || kit.Less(u.TxId, best.TxId)) {
				best, key = u, mineKey+i
			}
		}
	}
	if key < 0 {
		return
	}
	src := w.ref.Tx[best.TxId]
	w.offerTx(kit.MakeTx(0, []kit.In{{src, int(best.Ind), key}}, []kit.Out{{best.Value - fee, to}}))
}

func c11(tier string) []mcx.Scenario {
	thorough := tier == "thorough"
	f := theForks()
	u := f.u
	depth, bound := 3, 1
	if thorough {
		depth, bound = 4, 2
	}
	// branches with times ahead of the clock
	base := uint64(mcrt.BaseTime / kit.Sec)
	fu := kit.NewUni(kit.SmallParams())
	f1 := fu.Block("F1", nil, nil, kit.Time(base+3000))
	f2 := fu.Block("F2", f1, nil, kit.Time(base+3100))
	f3 := fu.Block("F3", f2, nil, kit.Time(base+3200))
	// retargeting within a few blocks
	rp := kit.SmallParams()
	rp.DifficultyPeriod = 4
	ru := kit.NewUni(rp)
	r1 := ru.Block("R1", nil, nil, kit.Key(1))
	rt := ru.Tx("rt", 0, []kit.In{{r1.Txs[0], 0, 1}}, []kit.Out{{900, 3}})
	r2 := ru.Block("R2", r1, []core.Tx{rt})
	// many outputs to spend independently
	pu := kit.NewUni(kit.SmallParams())
	var pbs []*kit.Blk
	var pts []core.Tx
	for i, n := 0, 5; i < n; i++ {
		var prev *kit.Blk
		if i > 0 {
			prev = pbs[i-1]
		}
		pbs = append(pbs, pu.Block(fmt.Sprintf("P%d", i+1), prev, nil, kit.Key(1+i)))
	}
	for i, b := range pbs {
		pts = append(pts, pu.Tx(fmt.Sprintf("pt%d", i+1), 0, []kit.In{{b.Txs[0], 0, 1 + i}}, []kit.Out{{[]uint64{990, 989, 5, 400, 986}[i], 20 + i}}))
	}
	// a great many
	lp := kit.SmallParams()
	lp.BlockReward, lp.MaxTxVSize, lp.MaxBlockVSize = 1_000_000, 20_000, 60_000
	lu := kit.NewUni(lp)
	l1 := lu.Block("Q1", nil, nil, kit.Key(1))
	var louts []kit.Out
	for i := 0; i < 80; i++ {
		louts = append(louts, kit.Out{V: uint64(1000 + i), K: 1})
	}
	lfan := lu.Tx("fan", 0, []kit.In{{l1.Txs[0], 0, 1}}, louts)
	lbs := []*kit.Blk{l1, lu.Block("Q2", l1, []core.Tx{lfan})}
	var lts []core.Tx
	for i := range louts {
		lts = append(lts, lu.Tx(fmt.Sprintf("lt%d", i), 0, []kit.In{{lfan, i, 1}}, []kit.Out{{uint64(500 + 3*i), 20}}))
	}
	// heavy enough to beat anything mined so far
	long := []*kit.Blk{f.a1}
	for i := 0; i < 14; i++ {
		long = append(long, u.Block(fmt.Sprintf("L%d", i+2), long[i], nil, kit.Noise(31), kit.Hide()))
	}
	head := func(name string, ks ...*kit.Blk) mop {
		e := kit.Event(ks...)
		return mop{name, func(w *mint) { w.offer(e) }}
	}
	tx := func(name string, t core.Tx) mop { return mop{name, func(w *mint) { w.offerTx(t) }} }
	pass := func(name string, d int64) mop { return mop{name, func(w *mint) { w.wait(d) }} }
	jump := func(name string, d int64) mop {
		return mop{name, func(w *mint) {
			w.x.S.AdvanceTo(mcrt.Now() + d)
			w.looked, w.jumped = mcrt.Now(), mcrt.Now()
		}}
	}
	ops := []mop{head("A1", f.a1), head("A1-A3", f.a1, f.a2, f.a3), head("B1-B4", f.b1, f.b2, f.b3, f.b4), head("A1-X4", f.a1, f.x2, f.x3, f.x4), head("L15", long...),
		head("bad", f.a1, f.bad[0]), tx("t1", f.t1), tx("t1x", f.t1x), tx("t2", f.t2), {"spend mined", func(w *mint) { w.spendMined(10, 4) }},
		{"spend mined again", func(w *mint) { w.spendMined(30, 5) }}, jump("3 h later", 3*3600*kit.Sec), pass("800 ms", 800*kit.Ms)}
	few := []mop{ops[1], ops[2], ops[5], ops[6], ops[7], ops[9], ops[11]}
	racing := []mop{ops[1], ops[2], ops[6], ops[9]}
	dir := "/Data-1"
	run := func(w *mint, ops []mop, depth int) {
		for d := 0; d < depth && !w.x.Failed(); d++ {
			o := ops[w.x.Pick(len(ops))]
			w.path = append(w.path, o.name)
			o.do(w)
			gap := []int64{300 * kit.Ms, 10 * kit.Ms}[w.x.Pick(2)]
			w.path = append(w.path, fmt.Sprintf("%d ms", gap/kit.Ms))
			w.wait(gap)
		}
		if !w.x.Failed() {
			w.extends()
		}
		w.x.Count("histories", 1)
		w.x.Count("blocks adopted", len(w.heads))
	}
	scns := []mcx.Scenario{
		{Name: "histories", Body: func(x *mcx.X) {
			n := 1 + x.Pick(2)
			if n == 1 && !thorough {
				run(newMint(x, u, n, nil, nil), few, depth)
			} else {
				run(newMint(x, u, n, nil, nil), ops, depth-1)
			}
		}},
		{Name: "restarted", Body: func(x *mcx.X) {
			w := newMint(x, u, 1, &dir, nil)
			for d := 1; d < depth && !x.Failed(); d++ {
				o := ops[x.Pick(len(ops)-2)]
				w.path = append(w.path, o.name)
				o.do(w)
				w.wait(300 * kit.Ms)
			}
			w.wait(100 * kit.Ms)
			hd := w.head()
			x.S.KillNode(w.mn)
			w.look()
			n := newMint(x, u, 1, &dir, w.mn.FS)
			n.ref, n.path = w.ref, append(w.path, "restart")
			n.wait(300 * kit.Ms)
			if len(n.heads) == 0 || n.heads[0] != hd && n.heads[0] != w.head() {
				n.fail("restart", "head %v instead of %s", n.names(n.heads), u.Name(hd))
			}
			if !x.Failed() {
				n.extends()
			}
		}},
		{Name: "races", Bound: bound, Body: func(x *mcx.X) {
			w := newMint(x, u, 1, nil, nil)
			w.path = append(w.path, "A1")
			w.offer(kit.Event(f.a1))
			w.wait(100 * kit.Ms)
			i := x.Pick(len(racing))
			w.path = append(w.path, racing[i].name)
			racing[i].do(w)
			x.S.Explore(true)
			w.wait(120 * kit.Ms)
			x.S.Explore(false)
			w.extends()
		}, Opt: func(s *mcrt.Sched) {
			s.Filter = func(t *mcrt.Thread) bool { return t.Node().Name == "n" }
		}},
		{Name: "pool", Body: func(x *mcx.X) {
			// several pending transactions, shared by several miners
			w := newMint(x, pu, 1+x.Pick(3), nil, nil)
			w.path = append(w.path, fmt.Sprintf("%d miners", len(w.used)))
			w.offer(kit.Event(pbs...))
			k := 1 + x.Pick(len(pts))
			quick := x.Pick(2) == 1
			for _, t := range pts[:k] {
				w.path = append(w.path, pu.Name(t.Hash()))
				w.offerTx(t)
				if !quick {
					w.wait(60 * kit.Ms)
				}
			}
			w.path = append(w.path, fmt.Sprintf("all at once %v", quick))
			w.wait(400 * kit.Ms)
			w.extends()
			w.x.Count("pools", 1)
		}},
		{Name: "large-pool", Body: func(x *mcx.X) {
			w := newMint(x, lu, 1+x.Pick(2), nil, nil)
			k := []int{30, 33, 64, 65, 80}[x.Pick(5)]
			first := x.Pick(2) == 1
			w.path = append(w.path, fmt.Sprintf("%d miners, %d pending, some mined before %v", len(w.used), k, first))
			w.backlog = int64(8*k*k) * mineTick
			w.offer(kit.Event(lbs...))
			for i, t := range lts[:k] {
				w.offerTx(t)
				if first && i == k-7 {
					w.wait(3 * kit.Sec)
				}
			}
			w.wait(3 * kit.Sec)
			w.extends()
			w.x.Count("pools", 1)
		}},
		{Name: "clock-behind", Body: func(x *mcx.X) {
			w := newMint(x, fu, 1, nil, nil)
			run(w, []mop{head("F1", f1), head("F2", f1, f2), head("F3", f1, f2, f3), jump("30 min later", 1800*kit.Sec), pass("1100 ms", 1100*kit.Ms)}, depth)
		}},
		{Name: "retargeting", Body: func(x *mcx.X) {
			w := newMint(x, ru, 1, nil, nil)
			run(w, []mop{head("R1", r1), head("R2", r1, r2), tx("rt", rt), jump("40 min later", 2400*kit.Sec), jump("3 h later", 3*3600*kit.Sec), pass("3 s", 3*kit.Sec)}, depth)
		}},
	}
	for i := range scns {
		old := scns[i].Opt
		scns[i].Opt = func(s *mcrt.Sched) {
			if s.RaceDetect = true; old != nil {
				old(s)
			}
		}
	}
	return scns
}

func init() {
	mcx.Register(&mcx.Check{ID: "C11", Scenarios: c11,
		Rule: "every sequence of operations up to the depth (heads of competing branches, transactions, clock jumps, pauses), each followed by a short or long pause, offered to the real chain with one or two real miners running against it; every published block is judged, and at the end the miners must go on extending the head",
		Assumptions: []string{"a miner tries a hash every few milliseconds of virtual time and its search rounds are scaled down from 2^20 to a handful, with targets easy enough to find blocks in; hashes are the real ones",
			"while the clock is not past the median time of the chain's last blocks no valid block exists; the miners must go on as soon as it is"}})
}
