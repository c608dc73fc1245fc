package ledger

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// timeCands are the interesting times for a block on parent.
func timeCands(r *kit.Ref, p core.Params, parent H, now uint64, few bool) []uint64 {
	m := map[uint64]bool{now + 3600: true}
	h := r.Height(parent) + 1
	if med, ok := r.Median(parent); ok {
		m[med] = true
		m[med+1] = true
		if !few {
			m[r.Bl[parent].MinedTime+600] = true
			m[r.Bl[parent].MinedTime] = true
			if (h+1)%p.DifficultyPeriod == 0 || h%p.DifficultyPeriod > 1 {
				first := h / p.DifficultyPeriod * p.DifficultyPeriod
				if first == 0 {
					first = 1
				}
				ft := r.Bl[r.Anc(parent, h-1-first)].MinedTime
				m[ft] = true
				m[ft+1] = true
			}
			m[0] = true
		}
	} else {
		m[0] = true
		m[now-100000] = true
	}
	if !few {
		m[now+3601] = true
		m[math.MaxUint64] = true
	}
	var out []uint64
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func add(h H, n int64) H {
	b := new(big.Int).Add(kit.Big(h), big.NewInt(n))
	if b.Sign() < 0 || b.BitLen() > 256 {
		return h
	}
	return kit.FromBig(b)
}

// targetCands are the interesting targets for a block on parent, the computed one first.
func targetCands(u *kit.Uni, p core.Params, parent H, few bool) []H {
	r := u.Ref
	var l []H
	nt, ok := r.NextTarget(parent)
	if ok {
		l = append(l, nt)
	}
	if parent.EqZero() {
		l = append(l, add(p.OriginalTarget, 1), add(p.OriginalTarget, -1), p.MaxTarget)
	} else {
		pt := r.Bl[parent].Target
		mn, mx := u.MinNext(pt), u.MaxNext(pt)
		l = append(l, mn, mx)
		if !few {
			l = append(l, pt, add(pt, 1), add(pt, -1), add(mn, -1), add(mx, 1))
		}
	}
	seen := map[H]bool{}
	var out []H
	for _, t := range l {
		if !seen[t] && !t.EqZero() {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// growTimes builds a chain block by block, every valid choice of time and target at each height,
// and offers every invalid choice on the way.
// plain (optional): up to that height only the first valid choice is taken.
func growTimes(p core.Params, depth, fewUntil int, plain ...int) func(x *mcx.X) {
	return func(x *mcx.X) {
		u := kit.NewUni(p)
		h := newHist(x, u, true, nil, ledgerProps("C08")...)
		var head *kit.Blk
		hid := H{}
		ref := u.Ref
		waited := false
		base := kit.BaseUnix
		for ht := 1; ht <= depth; ht++ {
			few := ht <= fewUntil
			// every height has its own stretch of time: invalid offers first, the valid one at its end
			base += 100
			now := base + 50
			x.S.AdvanceTo(int64(base) * kit.Sec)
			type cand struct {
				t  uint64
				tg H
			}
			var ok, bad []cand
			tcs, gcs := timeCands(ref, p, hid, now, few), targetCands(u, p, hid, few)
			if !few {
				gcs = append(gcs, targetCands(u, p, hid, true)...)
			}
			for _, t := range tcs {
				seen := map[H]bool{}
				for _, g := range gcs {
					if seen[g] || kit.Big(g).BitLen() < 64 {
						continue
					}
					seen[g] = true
					b := core.Block{PrevBlockId: hid, Target: g, MinedTime: t}
					_ = b
					if timeErr(u, hid, t, g, now) == "" {
						ok = append(ok, cand{t, g})
					} else {
						bad = append(bad, cand{t, g})
					}
				}
			}
			name := func(c cand) string {
				return fmt.Sprintf("h%d time now%+d target %s", ht, int64(c.t-now), c.tg.String()[:8])
			}
			// continue with at most: all times with the computed target, all targets with the median time
			var next []cand
			for i, c := range ok {
				if i == 0 || c.tg == gcs[0] || c.t == ok[0].t {
					next = append(next, c)
				}
			}
			if !x.S.Replaying() {
				h.check = true
				for _, c := range bad {
					if ns := mcrt.Now() % kit.Sec; ns > 900*kit.Ms {
						mcrt.Sleep(kit.Sec - ns)
					}
					if c.t == now+3601 {
						c.t = unix() + 3601
					}
					e := timeErr(u, hid, c.t, c.tg, unix())
					if e == "" {
						continue
					}
					k := u.Block(name(c), head, nil, kit.Time(c.t), kit.Target(c.tg), kit.Hide(), kit.Key(500+ht))
					n := len(h.n.Heads)
					h.n.OfferHead(kit.Event(k))
					x.Count("invalid blocks offered", 1)
					if h.dead() {
						return
					}
					if len(h.n.Heads) != n {
						h.path = append(h.path, k.Name)
						h.fail("times", "the block was adopted: %s", e)
						return
					}
				}
			}
			if len(next) == 0 && !waited {
				// every time above the median is still in the future
				base += 4000
				waited = true
				ht--
				continue
			}
			waited = false
			if len(next) == 0 {
				h.fail("times", "no acceptable block exists on %v", h.path)
				return
			}
			c := next[0]
			if len(plain) == 0 || ht > plain[0] {
				c = next[x.Pick(len(next))]
			}
			h.check = !x.S.Replaying()
			x.S.AdvanceTo(int64(now) * kit.Sec)
			k := u.Block(name(c), head, nil, kit.Time(c.t), kit.Target(c.tg), kit.Hide(), kit.Key(500+ht))
			h.path = append(h.path, k.Name)
			n, nt := len(h.n.Heads), len(h.n.Targets)
			h.n.OfferHead(kit.Event(k))
			x.Count("valid blocks offered", 1)
			if h.dead() {
				return
			}
			if len(h.n.Heads) != n+1 || h.n.Heads[n] != k.ID {
				h.fail("times", "the block was not adopted")
				return
			}
			head, hid = k, k.ID
			h.head = hid
			h.known.Bl[hid] = k.B
			if !h.check {
				continue
			}
			h.templates(nt)
			if len(h.n.Targets) == nt {
				h.fail("times", "no next target was computed")
				return
			}
			s := fmt.Sprint(ht, kit.Big(k.B.Target))
			for b, i := hid, uint64(0); !b.EqZero() && i < p.DifficultyPeriod+5; i++ {
				s += fmt.Sprint(" ", int64(ref.Bl[b].MinedTime-unix()))
				b = ref.Bl[b].PrevBlockId
			}
			x.State(mcx.Hash(s), true)
		}
		x.Sample("%v", h.path)
	}
}

// timeErr: what the time and target rules say about a block.
func timeErr(u *kit.Uni, parent H, t uint64, tg H, now uint64) string {
	b := core.Block{PrevBlockId: parent, Target: tg, MinedTime: t}
	return u.Ref.TimeErr(b, now)
}

func targetParams(period uint64, orig, max H) core.Params {
	p := kit.SmallParams()
	p.DifficultyPeriod, p.OriginalTarget, p.MaxTarget = period, orig, max
	return p
}

func timeParams(period uint64, orig, max int64) core.Params {
	p := kit.SmallParams()
	p.DifficultyPeriod = period
	p.OriginalTarget = lowTarget(orig)
	p.MaxTarget = lowTarget(max)
	return p
}

// forkTimes: two branches of the same heights but other times, and with them other medians and targets, whose blocks
// arrive in every order, some at the limit of what their branch allows and some just beyond it.
func forkTimes(depth int) mcx.Scenario {
	type two struct {
		u   *kit.Uni
		ops []op
	}
	var made *two
	get := func() *two {
		if made != nil {
			return made
		}
		u := kit.NewUni(timeParams(4, 8, 4))
		made = &two{u: u}
		a0 := u.Block("c1", nil, nil, kit.Time(kit.BaseUnix-900_000))
		var br [2][]*kit.Blk
		for i, step := range []uint64{90, 1100} {
			top := a0
			for h := uint64(2); h <= 10; h++ {
				top = u.Block(fmt.Sprintf("%c%d", 'a'+i, h), top, nil, kit.Time(kit.BaseUnix-900_000+step*h+uint64(i)*5000), kit.Noise(byte(i)))
				br[i] = append(br[i], top)
				u.Valid(top)
			}
		}
		u.Valid(a0)
		made.ops = append(made.ops, headOp("c1-a5", append([]*kit.Blk{a0}, br[0][:4]...)...), headOp("c1-b5", append([]*kit.Blk{a0}, br[1][:4]...)...))
		for i := range br {
			for _, n := range []int{5, 7} { // on the blocks of height 6 and 8
				t := br[i][n-1]
				m, _ := u.Ref.Median(t.ID)
				ok := u.Block(t.Name+"+median+1", t, nil, kit.Time(m+1), kit.Noise(byte(7+i)))
				no := u.Block(t.Name+"+median", t, nil, kit.Time(m), kit.Noise(byte(7+i)))
				u.Valid(ok)
				u.Invalid(no)
				k := 4
				if n == 7 {
					k = 5
				}
				made.ops = append(made.ops, headOp(fmt.Sprintf("%s-%s", br[i][k].Name, t.Name), br[i][k:n]...), headOp(ok.Name, ok), headOp(no.Name, no))
			}
			made.ops = append(made.ops, headOp(fmt.Sprintf("%s-%s", br[i][7].Name, br[i][8].Name), br[i][7:9]...))
		}
		return made
	}
	return mcx.Scenario{Name: "forks-of-other-times", Body: func(x *mcx.X) {
		m := get()
		newHist(x, m.u, true, nil, append([]string{"head", "accept"}, ledgerProps("C08")...)...).run(m.ops, depth, nil)
	}}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c08(tier string) []mcx.Scenario {
	s := []mcx.Scenario{
		{Name: "period-4", Body: growTimes(timeParams(4, 8, 4), 8, 3)},
		{Name: "period-5-from-easiest", Body: growTimes(timeParams(5, 1, 1), 6, 2)},
		{Name: "period-4-all-early-times", Body: growTimes(timeParams(4, 64, 1), 5, 0)},
		{Name: "production-difficulty", Body: growTimes(targetParams(4, kit.ProdTarget, kit.ProdTarget), 8, 3)},
		{Name: "hard", Body: growTimes(targetParams(4, kit.HardTarget, kit.ProdTarget), 8, 3)},
		{Name: "fourth-period", Body: growTimes(timeParams(4, 8, 4), 16, 13, 11)},
		{Name: "tenth-period", Body: growTimes(timeParams(5, 8, 4), 50, 49, 45)},
	}
	s = append(s, forkTimes(4+btoi(tier == "thorough")))
	if tier == "thorough" {
		s = append(s,
			mcx.Scenario{Name: "period-4-three-periods", Body: growTimes(timeParams(4, 8, 1), 12, 7)},
			mcx.Scenario{Name: "period-6", Body: growTimes(timeParams(6, 8, 4), 12, 6)},
			mcx.Scenario{Name: "period-7", Body: growTimes(timeParams(7, 8, 4), 14, 8)},
		)
	}
	return s
}

func init() {
	mcx.Register(&mcx.Check{ID: "C08", Scenarios: c08, Assumptions: ledgerAssume,
		Rule: "every chain up to the scenario's length whose blocks take their times from {0, median, median+1, parent, parent+600, start of period, start of period+1, now+1h, now+1h+1s, 2^64-1} and targets from {computed, parent, minimum, maximum, each +-1}; every invalid choice is offered before the chain continues with each valid one"})
}
