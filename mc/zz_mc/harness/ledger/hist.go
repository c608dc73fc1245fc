// Harnesses for the ledger: histories of candidate heads and transactions offered to a running chain.
package ledger

import (
	"fmt"
	"strings"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

type H = core.HashT

// op is one thing that can happen to the node.
type op struct {
	name string
	ev   *bus.CandidateHeadEvent
	tx   *core.Tx
	mine bool // mine a block from the last template and offer it
	when func(h *hist) bool
}

func headOp(name string, ks ...*kit.Blk) op {
	e := kit.Event(ks...)
	return op{name: name, ev: &e}
}

func evOp(name string, e bus.CandidateHeadEvent) op { return op{name: name, ev: &e} }

func txOp(name string, t core.Tx) op { return op{name: name, tx: &t} }

// hist is one execution of a history.
type hist struct {
	x     *mcx.X
	u     *kit.Uni
	n     *kit.Node
	props map[string]bool // which oracles count
	// model
	known  *kit.Ref // what the node holds
	head   H
	path   []string
	dyn    *kit.Ref // universe including blocks made during the execution
	owners []H
	check  bool
	disk   *string
	lastTx []H
	after  func()     // more to judge after each operation
	asked  bool       // queries are made after every operation, also where their answers were judged before
	noTail bool       // histories are not followed by a closing sequence
	lost   map[H]bool // held on disk since before a restart and not mentioned since
}

// pending lists held transactions that are not on the chain of l.
func (h *hist) pending(l *kit.Ledger) (out []H) {
	for id := range h.known.Tx {
		if _, ok := l.Inc[id]; !ok && !h.lost[id] {
			out = append(out, id)
		}
	}
	return
}

// fail reports a violation if the oracle belongs to the property being checked.
func (h *hist) fail(oracle, f string, a ...any) {
	if h.props[oracle] || oracle == "dead" {
		h.x.Fail(oracle, "after [%s]: %s", strings.Join(h.path, ", "), fmt.Sprintf(f, a...))
	}
}

func cloneEv(e bus.CandidateHeadEvent) bus.CandidateHeadEvent {
	c := e
	c.Txs = nil
	for _, t := range e.Txs {
		c.Txs = append(c.Txs, kit.CloneTx(t))
	}
	c.Merkles = append([]core.MerkleNode{}, e.Merkles...)
	c.Blocks = append([]core.Block{}, e.Blocks...)
	return c
}

func newHist(x *mcx.X, u *kit.Uni, miners bool, dir *string, oracles ...string) *hist {
	h := &hist{x: x, u: u, props: map[string]bool{}, disk: dir, asked: true}
	for _, o := range oracles {
		h.props[o] = true
	}
	h.n = kit.StartNode(x, "n", "10.0.0.1", u.P, miners, dir)
	h.known = kit.NewRef(u.P)
	h.owners = u.Owners()
	if h.n.Dead != "" {
		h.fail("dead", "%s", h.n.Dead)
	}
	return h
}

// sync re-reads what the node holds, and reports anything held that is not valid.
func (h *hist) sync(now uint64) {
	txs, mks, bls := h.n.Known(h.u)
	u := h.u.Ref
	for _, id := range txs {
		h.known.Tx[id] = u.Tx[id]
	}
	for _, id := range mks {
		h.known.Mk[id] = u.Mk[id]
	}
	old := map[H]bool{}
	for id := range h.known.Bl {
		old[id] = true
	}
	for _, id := range bls {
		h.known.Bl[id] = u.Bl[id]
	}
	if !h.check {
		return
	}
	for _, id := range txs {
		if e := h.known.TxErr(u.Tx[id]); e != "" {
			h.fail("accept", "the node accepted transaction %s: %s", h.u.Name(id), e)
			switch e {
			case "no surplus", "amounts out of range", "wrong claimed value", "unknown output", "duplicate input":
				h.fail("value", "the node accepted transaction %s, which would create value: %s", h.u.Name(id), e)
			}
		}
	}
	for _, id := range mks {
		if e := h.known.MerkleErr(u.Mk[id]); e != "" {
			h.fail("accept", "the node accepted merkle node %s: %s", h.u.Name(id), e)
		}
	}
	for _, id := range bls {
		if old[id] {
			continue
		}
		if e := h.known.BlockErr(u.Bl[id], now); e != "" {
			h.fail("accept", "the node accepted block %s: %s", h.u.Name(id), e)
			if e == "totals do not match" || e == "coinbase placement" {
				h.fail("value", "the node accepted block %s: %s", h.u.Name(id), e)
			}
			if strings.Contains(e, "time") || strings.Contains(e, "target") || strings.Contains(e, "duration") {
				h.fail("times", "the node accepted block %s: %s", h.u.Name(id), e)
			}
		}
	}
}

// wellFormed: every entity of the event is known or valid at its position, and the head is among them.
func (h *hist) wellFormed(e bus.CandidateHeadEvent, now uint64) string {
	k := kit.NewRef(h.u.P)
	for i, v := range h.known.Tx {
		k.Tx[i] = v
	}
	for i, v := range h.known.Mk {
		k.Mk[i] = v
	}
	for i, v := range h.known.Bl {
		k.Bl[i] = v
	}
	for _, t := range e.Txs {
		id := t.Hash()
		if _, ok := k.Tx[id]; !ok {
			if r := k.TxErr(t); r != "" {
				return "tx " + h.u.Name(id) + ": " + r
			}
			k.Tx[id] = t
		}
	}
	for _, m := range e.Merkles {
		id := m.Hash()
		if _, ok := k.Mk[id]; !ok {
			if r := k.MerkleErr(m); r != "" {
				return "merkle node " + h.u.Name(id) + ": " + r
			}
			k.Mk[id] = m
		}
	}
	for _, b := range e.Blocks {
		id := b.Hash()
		if _, ok := k.Bl[id]; !ok {
			if r := k.BlockErr(b, now); r != "" {
				return "block " + h.u.Name(id) + ": " + r
			}
			k.Bl[id] = b
		}
	}
	if _, ok := k.Bl[e.Head]; !ok && !e.Head.EqZero() {
		return "unknown head"
	}
	return ""
}

func unix() uint64 { return uint64(mcrt.Now() / kit.Sec) }

// do performs one operation and, when h.check is set, judges its direct effects.
func (h *hist) do(o op) {
	if h.n.Dead != "" {
		return
	}
	h.path = append(h.path, o.name)
	u := h.u
	ref := u.Ref
	nHeads, nTg := len(h.n.Heads), len(h.n.Targets)
	now := unix()
	if o.mine {
		b := h.mineTemplate()
		if b == nil {
			return
		}
		e := kit.Event(b)
		o.ev = &e
	}
	if o.tx != nil {
		id := o.tx.Hash()
		_, had := h.known.Tx[id]
		why := h.known.TxErr(*o.tx)
		ans := h.n.OfferTx(kit.CloneTx(*o.tx))
		if h.dead() {
			return
		}
		if ans == "no answer" {
			h.fail("dead", "no answer to an offered transaction")
			h.n.Dead = "no answer"
			return
		}
		h.sync(now)
		_, has := h.known.Tx[id]
		delete(h.lost, id)
		if h.check {
			if why == "" && !has {
				h.fail("accept", "valid transaction %s was not accepted (%s)", o.name, ans)
				h.fail("later", "valid transaction %s was not accepted (%s)", o.name, ans)
			}
			if why == "" && ans != "" {
				h.fail("accept", "valid transaction %s was reported as %s", o.name, ans)
			}
			if why != "" && !had && ans == "" {
				h.fail("accept", "invalid transaction %s (%s) was reported accepted", o.name, why)
			}
			if len(h.n.Heads) != nHeads {
				h.fail("head", "offering a transaction announced a head")
			}
		}
	} else {
		e := cloneEv(*o.ev)
		why := ""
		if h.check {
			why = h.wellFormed(e, now)
		}
		before := h.head
		h.n.OfferHead(e)
		if h.dead() {
			return
		}
		h.sync(now)
		_, known := h.known.Bl[e.Head]
		valid := known && ref.Spendable(e.Head)
		better := known && ref.Work(e.Head).Cmp(ref.Work(before)) > 0
		ann := h.n.Heads[nHeads:]
		h.mentioned(e, ann)
		if h.check {
			h.x.Count("candidate heads offered", 1)
			if why == "" {
				for _, t := range e.Txs {
					if _, ok := h.known.Tx[t.Hash()]; !ok {
						h.fail("accept", "valid transaction %s offered with a head was not accepted", u.Name(t.Hash()))
					}
				}
				for _, m := range e.Merkles {
					if _, ok := h.known.Mk[m.Hash()]; !ok {
						h.fail("accept", "valid merkle node offered with head %s was not accepted", u.Name(e.Head))
					}
				}
				for _, b := range e.Blocks {
					if _, ok := h.known.Bl[b.Hash()]; !ok {
						h.fail("accept", "valid block %s was not accepted", u.Name(b.Hash()))
						h.fail("later", "valid block %s was not accepted", u.Name(b.Hash()))
					}
				}
			}
			switch {
			case valid && better && why == "":
				h.x.Count("adoptions", 1)
				if len(ann) == 0 {
					h.fail("head", "head %s is valid and has more work than %s but was not adopted", u.Name(e.Head), u.Name(before))
					h.fail("later", "valid better head %s was not adopted", u.Name(e.Head))
					h.fail("reorg", "valid better head %s was not adopted", u.Name(e.Head))
				} else if len(ann) > 1 {
					h.fail("head", "head %s was announced %d times", u.Name(e.Head), len(ann))
				}
			case !valid && len(ann) > 0:
				err := "unknown"
				if known {
					err = ref.Ledger(e.Head).Err
				}
				h.fail("head", "head %s was adopted although its chain is invalid: %s", u.Name(e.Head), err)
				if known {
					if err == "below minimum height" {
						h.fail("lock", "adopted head %s holds a transaction below its minimum height", u.Name(e.Head))
					} else {
						h.fail("spend", "adopted head %s: %s", u.Name(e.Head), err)
					}
				}
			case !better && len(ann) > 0:
				h.fail("head", "head %s was adopted although it has no more work than %s", u.Name(e.Head), u.Name(before))
			}
			for _, a := range ann {
				if a != e.Head {
					h.fail("head", "announced head %s, offered %s", u.Name(a), u.Name(e.Head))
				}
			}
		}
		if o.mine && h.check && len(ann) == 0 {
			h.fail("template", "a block made from the offered template %v on %s is not accepted (valid: %v, %s)", u.Names(h.lastTx), u.Name(before), valid, why)
		}
		if len(ann) > 0 {
			h.head = ann[len(ann)-1]
		}
	}
	if h.check {
		h.templates(nTg)
	}
}

// mentioned: transactions listed by a candidate, or on a chain adopted, are no longer forgotten.
func (h *hist) mentioned(e bus.CandidateHeadEvent, ann []H) {
	if len(h.lost) == 0 {
		return
	}
	for _, t := range e.Txs {
		if _, ok := h.known.Tx[t.Hash()]; !ok {
			break
		}
		delete(h.lost, t.Hash())
	}
	for _, id := range ann {
		for ; !id.EqZero(); id = h.u.Ref.Bl[id].PrevBlockId {
			for _, t := range h.u.Ref.Leaves(h.u.Ref.Bl[id].MerkleRoot) {
				delete(h.lost, t)
			}
		}
	}
}

func (h *hist) dead() bool {
	if h.n.Dead != "" {
		h.fail("dead", "%s", h.n.Dead)
		return true
	}
	return false
}

// templates judges the mining templates published since index from.
func (h *hist) templates(from int) {
	for _, t := range h.n.Targets[from:] {
		h.x.Count("templates judged", 1)
		if _, ok := h.known.Bl[t.Head]; !ok && !t.Head.EqZero() {
			h.fail("template", "template names an unknown head")
			continue
		}
		l := h.u.Ref.Ledger(t.Head)
		if e := h.u.Ref.TemplateErr(l, h.pending(l), t.TxIds); e != "" {
			h.fail("template", "template %v on %s: %s", h.u.Names(t.TxIds), h.u.Name(t.Head), e)
			if strings.Contains(e, "minimum height") {
				h.fail("lock", "a transaction below its minimum height was offered for mining")
			}
			if strings.Contains(e, "left out") {
				h.fail("offered", "template %v on %s: %s", h.u.Names(t.TxIds), h.u.Name(t.Head), e)
			}
		}
		nt, ok := h.u.Ref.NextTarget(t.Head)
		if !ok {
			h.fail("times", "the adopted chain to %s has no defined next target", h.u.Name(t.Head))
		} else if nt != t.Target {
			h.fail("times", "next target after %s is %s instead of %s", h.u.Name(t.Head), t.Target, nt)
			h.fail("template", "target after %s is %s instead of %s", h.u.Name(t.Head), t.Target, nt)
		}
	}
	if len(h.n.Targets) > 0 {
		t := h.n.Targets[len(h.n.Targets)-1]
		if t.Head != h.head {
			h.fail("template", "the last template names %s, the head is %s", h.u.Name(t.Head), h.u.Name(h.head))
		}
	}
}

// judge asks every ledger query and compares with the replayed chain.
func (h *hist) judge() *kit.Answers {
	if h.n.Dead != "" {
		return nil
	}
	a := h.n.Ask(h.owners, h.u.TxIDs(), 1<<20)
	if h.dead() {
		return nil
	}
	if a == nil {
		h.fail("dead", "the node does not answer queries")
		h.n.Dead = "no answer"
		return nil
	}
	var known []H
	for id := range h.known.Tx {
		known = append(known, id)
	}
	l := h.u.Ref.Ledger(h.head)
	want := h.u.Ref.Expect(l, h.owners, known, h.pending(l))
	if d := h.u.Diff(a, want); d != "" {
		h.fail("ledger", "head %s: %s", h.u.Name(h.head), d)
	}
	tot := a.Total()
	if w := h.u.Ref.SupplyAt(l.Height); tot.Cmp(w) != 0 {
		h.fail("supply", "unspent outputs on %s (height %d) add up to %s instead of %s", h.u.Name(h.head), l.Height, tot, w)
	}
	seen := map[H]bool{}
	for id := h.head; !id.EqZero(); id = h.u.Ref.Bl[id].PrevBlockId {
		for _, t := range h.u.Ref.Leaves(h.u.Ref.Bl[id].MerkleRoot) {
			if seen[t] {
				h.fail("spend", "transaction %s is twice on the adopted chain", h.u.Name(t))
			}
			seen[t] = true
		}
	}
	if l.Err != "" {
		h.fail("spend", "the adopted chain %s is invalid: %s", h.u.Name(h.head), l.Err)
	}
	return a
}

// state identifies the reached state: everything held, the head, every answer and the chain's memory.
func (h *hist) state(a *kit.Answers) uint64 {
	var sum uint64
	for id := range h.known.Tx {
		sum += kit.HashOf(id) * 3
	}
	for id := range h.known.Mk {
		sum += kit.HashOf(id) * 5
	}
	for id := range h.known.Bl {
		sum += kit.HashOf(id) * 7
	}
	tg := "-"
	if k := len(h.n.Targets); k > 0 {
		tg = fmt.Sprint(h.n.Targets[k-1])
	}
	for id := range h.lost {
		sum += kit.HashOf(id) * 11
	}
	return mcx.Hash(sum, h.head, a.Fingerprint(), tg, h.n.Deep())
}

// run explores every sequence of at most depth operations; after each the oracles are evaluated.
func (h *hist) run(ops []op, depth int, after func()) {
	h.after = after
	for d := 0; ; d++ {
		h.check = !h.x.S.Replaying()
		if h.n.Dead != "" {
			return
		}
		if h.check {
			a := h.judge()
			if after != nil {
				after()
			}
			if h.n.Dead != "" || h.x.Failed() {
				return
			}
			h.x.State(h.state(a), true)
		} else if h.asked {
			h.n.Ask(h.owners, h.u.TxIDs(), 1<<20)
			if h.dead() {
				return
			}
		}
		if d == depth {
			h.tail()
			return
		}
		k := h.x.Pick(len(ops) + 1)
		if k == 0 {
			h.tail()
			h.x.Sample("[%s] head %s", strings.Join(h.path, ", "), h.u.Name(h.head))
			return
		}
		h.check = !h.x.S.Replaying()
		h.do(ops[k-1])
	}
}

// seq performs a fixed preamble without branching.
func (h *hist) seq(ops ...op) {
	h.check = true
	for _, o := range ops {
		h.do(o)
	}
}

// mineTemplate builds a block from the last template, as a miner would.
func (h *hist) mineTemplate() *kit.Blk {
	if len(h.n.Targets) == 0 {
		return nil
	}
	t := h.n.Targets[len(h.n.Targets)-1]
	h.lastTx = t.TxIds
	var txs []core.Tx
	for _, id := range t.TxIds {
		tx, ok := h.u.Ref.Tx[id]
		if !ok {
			return nil
		}
		txs = append(txs, tx)
	}
	return h.u.Mined(t.Head, t.Target, txs)
}
