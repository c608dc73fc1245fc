package kit

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

const Ms = int64(1_000_000)
const Sec = 1000 * Ms

// Node is a running chain with its bus and inventory.
type Node struct {
	X    *mcx.X
	N    *mcrt.Node
	P    core.Params
	Bus  *bus.Bus
	Inv  *inv.Inv
	Dead string // why the node stopped, if it did

	subHead topic.Sub[bus.ValidatedHeadEvent]
	subTx   topic.Sub[bus.ValidatedTxEvent]
	subMine topic.Sub[bus.MinerTargetEvent]
	Heads   []H
	VTxs    []H
	Targets []bus.MinerTargetEvent
	stopped *bool
	chain   *chain.Chain
	Net     *Peers
}

// Deep hashes the chain's whole in-memory state.
func (n *Node) Deep() uint64 { return DeepHash(n.chain) }

// StartNode brings up bus, inventory and chain in a simulated process.
func StartNode(x *mcx.X, name, ip string, p core.Params, miners bool, dir *string) *Node {
	return StartOn(x, x.S.NewNode(name, ip), p, miners, dir)
}

// StartOn is StartNode in an existing process (with its files).
func StartOn(x *mcx.X, mn *mcrt.Node, p core.Params, miners bool, dir *string) *Node {
	n := &Node{X: x, N: mn, P: p}
	var c *chain.Chain
	ok, pv := x.S.CallNode(mn, "start", func() {
		n.Bus = bus.NewBus()
		n.subHead = n.Bus.ValidatedHead.Sub()
		n.subTx = n.Bus.ValidatedTx.Sub()
		n.subMine = n.Bus.MinerTarget.Sub()
		n.Inv = inv.NewInv(p, dir)
		c = chain.NewChain(n.Bus, n.Inv, miners, dir)
	})
	if !ok {
		n.Dead = fmt.Sprintf("the node failed to start: %v", pv)
		return n
	}
	n.chain = c
	n.stopped = new(bool)
	st := n.stopped
	x.S.GoNode(mn, "chain", func() { c.Loop(); *st = true })
	mcrt.Sleep(30 * Ms)
	n.Drain()
	return n
}

// Drain collects published events.
func (n *Node) Drain() {
	for {
		m, ok := n.subHead.Pop()
		if !ok {
			break
		}
		n.Heads = append(n.Heads, m.Head)
	}
	for {
		m, ok := n.subTx.Pop()
		if !ok {
			break
		}
		n.VTxs = append(n.VTxs, m.TxId)
	}
	for {
		m, ok := n.subMine.Pop()
		if !ok {
			break
		}
		n.Targets = append(n.Targets, m)
	}
	if n.Dead == "" && n.N.Crashed {
		n.Dead = "the node crashed: " + n.N.CrashMsg
	}
	if n.Dead == "" && n.stopped != nil && *n.stopped {
		n.Dead = "the chain's loop ended"
	}
}

// Head is the last announced head.
func (n *Node) Head() H {
	if len(n.Heads) == 0 {
		return H{}
	}
	return n.Heads[len(n.Heads)-1]
}

// Event builds the candidate event offering the given blocks, the last being the head.
func Event(ks ...*Blk) bus.CandidateHeadEvent {
	e := bus.CandidateHeadEvent{}
	seen := map[H]bool{}
	for _, k := range ks {
		for _, t := range k.Txs {
			if id := t.Hash(); !seen[id] {
				seen[id] = true
				e.Txs = append(e.Txs, t)
			}
		}
		for _, m := range k.Merkles {
			if id := m.Hash(); !seen[id] {
				seen[id] = true
				e.Merkles = append(e.Merkles, m)
			}
		}
		e.Blocks = append(e.Blocks, k.B)
		e.Head = k.ID
	}
	return e
}

// OfferHead publishes a candidate head and waits until it was handled.
func (n *Node) OfferHead(e bus.CandidateHeadEvent) {
	n.X.S.CallNode(n.N, "offer", func() { n.Bus.CandidateHead.Pub(e) })
	mcrt.Sleep(26 * Ms)
	n.Drain()
}

// OfferTx publishes a candidate transaction and returns the answer ("no answer" if none arrives).
func (n *Node) OfferTx(tx core.Tx) string {
	ret := mcrt.MakeChan[error](1)
	n.X.S.CallNode(n.N, "offer", func() {
		n.Bus.CandidateTx.Pub(bus.CandidateTxEvent{Ret: ret, Tx: tx})
	})
	mcrt.Sleep(26 * Ms)
	n.Drain()
	if ret.Len() == 0 {
		mcrt.Sleep(5 * Sec)
		n.Drain()
		if ret.Len() == 0 {
			return "no answer"
		}
	}
	if err := ret.Recv(); err != nil {
		return "refused: " + err.Error()
	}
	return ""
}

// Answers are the replies to the ledger queries.
type Answers struct {
	Height   uint64
	Bal      map[H]uint64
	Utxos    map[core.Utxo]H
	Free     map[core.Utxo]H // excluding outputs with pending spends
	Rich     map[H]uint64
	Confirms map[H]uint64
	Included map[H]H
}

// Ask issues every ledger query for the given owners and transactions.
func (n *Node) Ask(pkhs, txs []H, richLen uint64) *Answers {
	if n.Dead != "" {
		return nil
	}
	h := mcrt.MakeChan[uint64](1)
	b := mcrt.MakeChan[map[H]uint64](1)
	u := mcrt.MakeChan[map[core.Utxo]H](1)
	f := mcrt.MakeChan[map[core.Utxo]H](1)
	r := mcrt.MakeChan[map[H]uint64](1)
	c := mcrt.MakeChan[map[H]uint64](1)
	i := mcrt.MakeChan[map[H]H](1)
	n.X.S.CallNode(n.N, "ask", func() {
		n.Bus.HeadHeight.Pub(bus.HeadHeightQuery{Ret: h})
		n.Bus.PkhBalance.Pub(bus.PkhBalanceQuery{Ret: b, PublicKeyHashes: pkhs})
		n.Bus.PkhUtxos.Pub(bus.PkhUtxosQuery{Ret: u, PublicKeyHashes: pkhs})
		n.Bus.PkhUtxos.Pub(bus.PkhUtxosQuery{Ret: f, PublicKeyHashes: pkhs, ExcludeMempool: true})
		n.Bus.RichList.Pub(bus.RichListQuery{Ret: r, MaxLen: richLen})
		n.Bus.TxConfirms.Pub(bus.TxConfirmsQuery{Ret: c, TxIds: txs})
		n.Bus.TxIncludedBlock.Pub(bus.TxIncludedBlockQuery{Ret: i, TxIds: txs})
	})
	done := func() bool {
		return h.Len()+b.Len()+u.Len()+f.Len()+r.Len()+c.Len()+i.Len() == 7
	}
	mcrt.Sleep(26 * Ms)
	if !done() {
		mcrt.Sleep(5 * Sec)
	}
	n.Drain()
	if !done() {
		return nil
	}
	return &Answers{h.Recv(), b.Recv(), u.Recv(), f.Recv(), r.Recv(), c.Recv(), i.Recv()}
}

// Known lists which of the universe's transactions, tree nodes and blocks the node's inventory holds.
func (n *Node) Known(u *Uni) (txs, mks, bls []H) {
	n.X.S.CallNode(n.N, "known", func() {
		for id := range u.Ref.Tx {
			if n.Inv.HasTx(id) {
				txs = append(txs, id)
			}
		}
		for id := range u.Ref.Mk {
			if n.Inv.HasMerkle(id) {
				mks = append(mks, id)
			}
		}
		for id := range u.Ref.Bl {
			if n.Inv.HasBlock(id) {
				bls = append(bls, id)
			}
		}
	})
	for _, l := range [][]H{txs, mks, bls} {
		l := l
		sort.Slice(l, func(i, j int) bool { return Less(l[i], l[j]) })
	}
	return
}

// Expect is what the reference ledger answers for the given chain and pending transactions.
func (r *Ref) Expect(l *Ledger, pkhs, known, pending []H) *Answers {
	a := &Answers{Height: l.Height, Bal: map[H]uint64{}, Utxos: map[core.Utxo]H{}, Free: map[core.Utxo]H{},
		Rich: map[H]uint64{}, Confirms: map[H]uint64{}, Included: map[H]H{}}
	for p, v := range l.Balances() {
		a.Rich[p] = v.Uint64()
	}
	spent := map[core.Utxo]bool{}
	for _, id := range pending {
		for _, i := range r.Tx[id].Inputs {
			spent[i.Utxo] = true
		}
	}
	want := map[H]bool{}
	for _, p := range pkhs {
		want[p] = true
		a.Bal[p] = a.Rich[p]
	}
	for u, p := range l.Utxos {
		if want[p] {
			a.Utxos[u] = p
			if !spent[u] {
				a.Free[u] = p
			}
		}
	}
	for _, id := range known {
		if b, ok := l.Inc[id]; ok {
			a.Included[id] = b
			a.Confirms[id] = l.Height - r.Ledger(b).Height + 1
		} else {
			a.Confirms[id] = 0
		}
	}
	return a
}

// Diff describes the first difference between answers ("" when equal).
func (u *Uni) Diff(got, want *Answers) string {
	if got.Height != want.Height {
		return fmt.Sprintf("height %d instead of %d", got.Height, want.Height)
	}
	if d := diffMap(u, "balance", got.Bal, want.Bal); d != "" {
		return d
	}
	if d := diffUtxo(u, "unspent outputs", got.Utxos, want.Utxos); d != "" {
		return d
	}
	if d := diffUtxo(u, "unspent outputs without pending spends", got.Free, want.Free); d != "" {
		return d
	}
	if d := diffMap(u, "rich list", got.Rich, want.Rich); d != "" {
		return d
	}
	if d := diffMap(u, "confirmations", got.Confirms, want.Confirms); d != "" {
		return d
	}
	for k, v := range want.Included {
		if got.Included[k] != v {
			return fmt.Sprintf("including block of %s: %s instead of %s", u.Name(k), u.Name(got.Included[k]), u.Name(v))
		}
	}
	for k := range got.Included {
		if _, ok := want.Included[k]; !ok {
			return fmt.Sprintf("including block given for %s, which is not on the chain", u.Name(k))
		}
	}
	return ""
}

func diffMap(u *Uni, what string, got, want map[H]uint64) string {
	for k, v := range want {
		if g, ok := got[k]; (!ok || g != v) && !(what == "rich list" && v == 0 && g == 0) {
			return fmt.Sprintf("%s of %s: %d (present %v) instead of %d", what, u.Name(k), g, ok, v)
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok && !(what == "rich list" && g == 0) {
			return fmt.Sprintf("%s lists %s (%d), which it should not", what, u.Name(k), g)
		}
	}
	return ""
}

func diffUtxo(u *Uni, what string, got, want map[core.Utxo]H) string {
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return fmt.Sprintf("%s: %s[%d] missing or wrong owner", what, u.Name(k.TxId), k.Ind)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s: %s[%d] should not be listed", what, u.Name(k.TxId), k.Ind)
		}
	}
	return ""
}

// Total of all unspent outputs as reported through the rich list.
func (a *Answers) Total() *big.Int {
	s := new(big.Int)
	for _, v := range a.Rich {
		s.Add(s, new(big.Int).SetUint64(v))
	}
	return s
}

// Fingerprint of answers, for state identification.
func (a *Answers) Fingerprint() string {
	if a == nil {
		return "none"
	}
	var s []string
	for k, v := range a.Free {
		s = append(s, fmt.Sprint(k.TxId, k.Ind, v))
	}
	for k, v := range a.Confirms {
		s = append(s, fmt.Sprint(k, v))
	}
	for k := range a.Utxos {
		s = append(s, fmt.Sprint("u", k.TxId, k.Ind))
	}
	sort.Strings(s)
	return fmt.Sprint(a.Height) + strings.Join(s, ",")
}

// Owners lists every owner appearing in the universe.
func (u *Uni) Owners() (out []H) {
	seen := map[H]bool{Pkh(77): true}
	out = append(out, Pkh(77))
	for _, t := range u.Ref.Tx {
		for _, o := range t.Outputs {
			if !seen[o.PublicKeyHash] {
				seen[o.PublicKeyHash] = true
				out = append(out, o.PublicKeyHash)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return Less(out[i], out[j]) })
	return
}

// TxIDs lists every transaction of the universe.
func (u *Uni) TxIDs() (out []H) {
	for id := range u.Ref.Tx {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return Less(out[i], out[j]) })
	return
}

// RichErr judges a rich list of at most n entries against all balances.
func (u *Uni) RichErr(got map[H]uint64, bal map[H]*big.Int, n uint64) string {
	var pos []uint64
	for p, v := range bal {
		if v.Sign() > 0 {
			pos = append(pos, v.Uint64())
		}
		if g, ok := got[p]; ok && g != v.Uint64() {
			return fmt.Sprintf("%s listed with %d instead of %d", u.Name(p), g, v)
		}
	}
	sort.Slice(pos, func(i, j int) bool { return pos[i] > pos[j] })
	if uint64(len(got)) > n {
		return fmt.Sprintf("%d entries", len(got))
	}
	var g []uint64
	for p, v := range got {
		if bal[p] == nil && v != 0 {
			return fmt.Sprintf("%s listed, which owns nothing", u.Name(p))
		}
		if v > 0 {
			g = append(g, v)
		}
	}
	sort.Slice(g, func(i, j int) bool { return g[i] > g[j] })
	if uint64(len(pos)) > n {
		pos = pos[:n]
	}
	if fmt.Sprint(g) != fmt.Sprint(pos) {
		return fmt.Sprintf("amounts %v instead of %v", g, pos)
	}
	return ""
}
