package ledger

import (
	"fmt"
	"sort"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
)

// storeOp gives the node blocks and everything they need without proposing any of them as head.
func storeOp(name string, ks ...*kit.Blk) op {
	e := kit.Event(ks...)
	e.Head = H{}
	return op{name: name, ev: &e}
}

// bareOp proposes a block as head without any data.
func bareOp(name string, k *kit.Blk) op {
	return op{name: name, ev: &bus.CandidateHeadEvent{Head: k.ID}}
}

// probe is a new transaction valid for the node as it is: it spends, by preference, an unspent output no
// pending transaction spends.
func (h *hist) probe(tag string, fee uint64) (core.Tx, bool) {
	l := h.u.Ref.Ledger(h.head)
	touched := map[core.Utxo]bool{}
	for _, id := range h.pending(l) {
		for _, i := range h.known.Tx[id].Inputs {
			touched[i.Utxo] = true
		}
	}
	type cand struct {
		rank int
		id   H
		ind  int
		k    int
	}
	var cs []cand
	for id, t := range h.known.Tx {
		for i, o := range t.Outputs {
			k, ok := kit.KeyOfPkh(o.PublicKeyHash)
			if !ok || o.Value < 40 || o.Value > 1<<40 {
				continue
			}
			ut := core.Utxo{TxId: id, Ind: uint64(i), Value: o.Value}
			c := cand{2, id, i, k}
			if _, ok := l.Utxos[ut]; ok {
				c.rank = 1
				if !touched[ut] {
					c.rank = 0
				}
			}
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		return core.Tx{}, false
	}
	sort.Slice(cs, func(i, j int) bool {
		a, b := cs[i], cs[j]
		if a.rank != b.rank {
			return a.rank < b.rank
		}
		if a.id != b.id {
			return kit.Less(a.id, b.id)
		}
		return a.ind < b.ind
	})
	c := cs[0]
	from := h.known.Tx[c.id]
	name := fmt.Sprintf("probe-%s-%s-%d", tag, c.id.String()[:6], c.ind)
	t := kit.MakeTx(0, []kit.In{{Tx: from, N: c.ind, K: c.k}}, []kit.Out{{V: from.Outputs[c.ind].Value - fee, K: 77}})
	if h.known.TxErr(t) != "" {
		return core.Tx{}, false
	}
	return h.u.Probe(name, t), true
}

// extension of a head by empty blocks until it has more work than the given chain; nil when the rules or
// the range of amounts do not let us.
func (h *hist) beyond(from, rival H, noise byte) (out []*kit.Blk) {
	u := h.u
	ref := u.Ref
	goal := ref.Work(rival)
	for ref.Work(from).Cmp(goal) <= 0 {
		t, ok := ref.NextTarget(from)
		if !ok || len(out) > 12 || u.P.BlockReward > 1<<40 {
			return nil
		}
		b := u.Empty(from, t, noise)
		if ref.BlockErr(b.B, unix()) != "" {
			return nil
		}
		out = append(out, b)
		from = b.ID
	}
	return
}

// tail follows a history to its end with: a new transaction, a heavier chain from the origin, a new
// transaction, and a still heavier continuation of the old chain - so that whatever the history left behind in
// memory (pending transactions, fee rates, balances, inclusion records) shows.
func (h *hist) tail() {
	if h.n.Dead != "" || h.x.Failed() || h.noTail {
		return
	}
	n := len(h.path)
	defer func() { h.path = h.path[:n:n] }()
	h.check = true
	step := func(o op) bool {
		h.do(o)
		h.judge()
		if h.after != nil && h.n.Dead == "" {
			h.after()
		}
		h.x.Count("operations in closing sequences", 1)
		return h.n.Dead == "" && !h.x.Failed()
	}
	if t, ok := h.probe("a", 5); ok && !step(txOp("probe", t)) {
		return
	}
	old := h.head
	away := h.beyond(H{}, old, 250)
	if old.EqZero() || len(away) == 0 {
		return
	}
	if !step(headOp("empty-chain-from-origin", away...)) || h.head == old {
		return
	}
	if t, ok := h.probe("b", 30); ok && !step(txOp("probe", t)) {
		return
	}
	if back := h.beyond(old, h.head, 251); len(back) > 0 {
		step(headOp("continuation-of-"+h.u.Name(old), back...))
	}
}

// restarts explores histories of at most d operations with restarts of the node among them.
func (h *hist) restarts(ops []op, d int) {
	for i := 0; i < d; i++ {
		k := h.x.Pick(len(ops) + 2)
		h.check = !h.x.S.Replaying()
		if h.n.Dead != "" {
			return
		}
		if k == 0 {
			break
		}
		if k == 1 {
			was := h.head
			h.restart(nil)
			if h.n.Dead == "" && h.check {
				if h.head != was {
					h.fail("head", "the head after a restart is %s instead of %s", h.u.Name(h.head), h.u.Name(was))
				}
				if w := 1; len(h.n.Heads) > w || (was.EqZero() && len(h.n.Heads) > 0) {
					h.fail("head", "the head was announced %d times after a restart", len(h.n.Heads))
				}
			}
		} else {
			h.do(ops[k-2])
		}
		if h.n.Dead != "" || h.x.Failed() {
			return
		}
		h.check = !h.x.S.Replaying()
		if h.check {
			a := h.judge()
			if h.n.Dead != "" || h.x.Failed() {
				return
			}
			h.x.State(h.state(a), true)
		}
	}
	h.tail()
}
