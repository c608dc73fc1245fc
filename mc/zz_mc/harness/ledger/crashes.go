package ledger

import (
	"fmt"
	"strings"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// fsHash identifies the contents of a file system.
func fsHash(fs *mcrt.FS) uint64 {
	var v []any
	for _, p := range fs.Paths() {
		v = append(v, p, string(fs.Files[p].Data))
	}
	return mcx.Hash(v...)
}

// crashPoint picks a moment of the logged file operations and returns the files as they are then.
func crashPoint(x *mcx.X, pre *mcrt.FS, log []mcrt.FSOp, few bool) (*mcrt.FS, int, string) {
	k := x.Pick(len(log) + 1)
	fs := pre.Clone()
	for _, o := range log[:k] {
		fs.Apply(o, -1)
	}
	d := fmt.Sprintf("stop before file operation %d of %d", k, len(log))
	if k < len(log) {
		d += fmt.Sprintf(" (%s %s)", log[k].Kind, tailOf(log[k].Path))
		if l := len(log[k].Data); log[k].Kind == "write" {
			torn := []int{-1, 0, 1, l / 2, l - 1}
			if few {
				torn = []int{-1, l / 2}
			}
			if t := torn[x.Pick(len(torn))]; t >= 0 {
				fs.Apply(log[k], t)
				d += fmt.Sprintf(", %d of %d bytes written", t, l)
			}
		}
	}
	return fs, k, d
}

// crashDo performs the operation, stopping at a moment of its file operations, and starts again.
func (h *hist) crashDo(o op, few bool) bool {
	before := h.head
	f := h.n.N.FS
	pre := f.Clone()
	f.Ops, f.Log = nil, true
	h.do(o)
	f.Log = false
	if h.n.Dead != "" {
		return false
	}
	log := f.Ops
	after := h.head
	h.x.S.KillNode(h.n.N)
	fs, k, d := crashPoint(h.x, pre, log, few)
	h.path = append(h.path, d, "start")
	return h.rise(fs, before, after, k == len(log))
}

// rise restarts on the given files; the head must be one of the two (the second if settled).
func (h *hist) rise(fs *mcrt.FS, before, after H, settled bool) bool {
	h.check = !h.x.S.Replaying()
	h.restartOn(fs)
	if h.n.Dead != "" {
		return false
	}
	if h.head != after && (settled || h.head != before) {
		h.fail("restart", "the head is %s instead of %s or %s", h.u.Name(h.head), h.u.Name(before), h.u.Name(after))
		return false
	}
	return true
}

// settle judges the state and offers everything in the given order.
func (h *hist) settle(ops []op, back bool) {
	h.check = true
	for i := range ops {
		o := ops[i]
		if back {
			o = ops[len(ops)-1-i]
		}
		h.do(o)
		if h.n.Dead != "" || h.x.Failed() {
			return
		}
	}
	h.judge()
}

func c14(tier string) []mcx.Scenario {
	f := theForks()
	dir := "/Data-1"
	depth := 2
	if tier == "thorough" {
		depth = 3
	}
	ops := []op{headOp("A1", f.a1), headOp("A2", f.a2), headOp("A1-A3", f.a1, f.a2, f.a3), headOp("A1-X2-X4", f.a1, f.x2, f.x3, f.x4), headOp("B1-B2", f.b1, f.b2),
		headOp("B1-B3", f.b1, f.b2, f.b3), headOp("B1-B4", f.b1, f.b2, f.b3, f.b4), headOp("Y2", f.y2, f.y3), headOp("Ddup", f.ddup), txOp("t1", f.t1), txOp("t1x", f.t1x), txOp("t2", f.t2),
		headOp("A1-D3again", f.a1, f.a2, f.bad[1]), headOp("D2both", f.bad[0])}
	follow := append(append([]op(nil), ops...), headOp("A4", f.a4), txOp("t3", f.t3), txOp("t4", f.t4), op{name: "mine", mine: true}, headOp("A2-A4", f.a2, f.a3, f.a4))
	oracles := []string{"restart", "ledger", "spend", "supply", "later", "head", "accept", "template"}
	finish := func(h *hist) {
		a := h.judge()
		if h.n.Dead != "" || h.x.Failed() {
			return
		}
		h.x.State(mcx.Hash(h.state(a), fsHash(h.n.N.FS)), true)
		back := h.x.Pick(2) == 1
		h.settle(follow, back)
		if h.n.Dead == "" && !h.x.Failed() {
			// and nothing of it is lost by stopping again
			hd := h.head
			h.x.S.KillNode(h.n.N)
			h.path = append(h.path, "stop", "start")
			h.rise(h.n.N.FS, hd, hd, true)
			h.judge()
		}
	}
	return []mcx.Scenario{
		{Name: "stop-anywhere", Body: func(x *mcx.X) {
			h := newHist(x, f.u, true, &dir, oracles...)
			for d := 1; ; d++ {
				o := ops[x.Pick(len(ops))]
				if d == depth || x.Pick(2) == 1 {
					if !h.crashDo(o, false) {
						return
					}
					break
				}
				h.do(o)
				if h.n.Dead != "" {
					return
				}
			}
			finish(h)
		}},
		{Name: "stop-twice", Body: func(x *mcx.X) {
			h := newHist(x, f.u, true, &dir, oracles...)
			few := []op{ops[1], ops[9], ops[2], ops[3]}
			if tier != "thorough" {
				few = few[:2]
			}
			if !h.crashDo(few[x.Pick(len(few))], tier != "thorough") {
				return
			}
			h.x.State(mcx.Hash(h.head, fsHash(h.n.N.FS), h.n.Deep()), true)
			few = []op{ops[2], ops[11], ops[6]}
			if tier != "thorough" {
				few = few[:2]
			}
			if !h.crashDo(few[x.Pick(len(few))], tier != "thorough") {
				return
			}
			finish(h)
		}},
		{Name: "stop-while-starting", Body: func(x *mcx.X) {
			h := newHist(x, f.u, true, &dir, oracles...)
			k := x.Pick(4)
			for _, o := range [][]op{{}, {ops[0]}, {ops[2]}, {ops[9], ops[2], ops[5]}}[k] {
				h.do(o)
			}
			if h.n.Dead != "" {
				return
			}
			hd := h.head
			pre := h.n.N.FS.Clone()
			if k == 0 {
				pre = mcrt.NewFS()
			}
			h.x.S.KillNode(h.n.N)
			fs := pre.Clone()
			fs.Log = true
			h.path = append(h.path, "start")
			h.restartOn(fs)
			fs.Log = false
			if h.n.Dead != "" {
				return
			}
			h.x.S.KillNode(h.n.N)
			fs2, _, d := crashPoint(x, pre, fs.Ops, false)
			h.path = append(h.path, d, "start")
			if h.rise(fs2, hd, hd, true) {
				finish(h)
			}
		}},
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C14", Scenarios: c14, Rule: ledgerRule + "; the last operation (or the start itself) is stopped before each of its file operations and inside each write, and the node started again",
		Assumptions: append([]string{"a stop keeps the file operations made so far, in order; only the write in progress is torn (no reordering by a disk cache)"}, ledgerAssume...)})
}

// tailOf shortens a path for reports.
func tailOf(p string) string {
	if i := strings.LastIndex(p, "/"); i > 0 && len(p) > i+9 {
		return p[:i+9] + ".." + p[len(p)-3:]
	}
	return p
}
