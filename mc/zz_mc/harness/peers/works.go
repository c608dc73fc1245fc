package peers

import (
	"fmt"
	"math/big"

	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// newHeavy makes a world in which a shorter chain may have more work than a longer one: the difficulty changes at height 4.
func newHeavy(max, orig H) *world {
	p := kit.SmallParams()
	p.DifficultyPeriod = 4
	p.MaxTarget, p.OriginalTarget = max, orig
	w := &world{u: kit.NewUni(p), bad: map[*kit.Blk]*kit.Blk{}}
	u := w.u
	grow := func(name string, from *kit.Blk, n int, key int, o ...kit.Opt) (out []*kit.Blk) {
		for i := 1; i <= n; i++ {
			opts := []kit.Opt{kit.Key(key), kit.Noise(byte(key))}
			if i == 1 {
				opts = append(opts, o...)
			}
			from = u.Block(fmt.Sprintf("%s%d", name, i), from, nil, opts...)
			out = append(out, from)
		}
		return
	}
	start := grow("p", nil, 3, 1)
	light := grow("light", start[2], 4, 2, kit.Target(u.MaxNext(orig)))
	heavy := grow("heavy", start[2], 2, 3, kit.Target(u.MinNext(orig)))
	other := grow("q", nil, 5, 4)
	all := new(big.Int).Lsh(big.NewInt(1), 256)
	more := new(big.Int).Add(new(big.Int).Div(all, kit.Big(orig)), big.NewInt(1))
	plus := grow("plus", start[2], 1, 5, kit.Target(kit.FromBig(new(big.Int).Div(all, more)))) // one unit of work more
	same := grow("same", start[2], 1, 6, kit.Target(orig))
	w.a = append(append([]*kit.Blk{}, start[0], start[2]), light[0], light[1], light[3])
	w.b = append(append([]*kit.Blk{}, heavy...), plus[0], same[0])
	w.c = []*kit.Blk{other[1], other[4]}
	u.Valid(light[3], heavy[1], other[4], plus[0], same[0])
	return w
}

// heavyChains: what counts is the work of the chains, not their length.
func heavyChains() mcx.Scenario {
	var ws []*world
	return mcx.Scenario{Name: "different-work", Body: func(x *mcx.X) {
		if ws == nil {
			ws = []*world{
				newHeavy(kit.EasyTarget, kit.FromBig(new(big.Int).Rsh(kit.Big(kit.EasyTarget), 2))),
				newHeavy(kit.ProdTarget, kit.FromBig(new(big.Int).Rsh(kit.Big(kit.ProdTarget), 3))),
				newHeavy(kit.ProdTarget, kit.HardTarget),
			}
		}
		k := x.Pick(len(ws))
		w := ws[k]
		hs := w.heads()
		i, j := x.Pick(len(hs)), x.Pick(len(hs))
		late := x.Pick(2) == 1
		a := kit.StartFull(x, "a", "10.0.0.1", kit.FullOpt{P: w.u.P})
		b := kit.StartFull(x, "b", "10.0.0.2", kit.FullOpt{P: w.u.P, Seeds: []string{"10.0.0.1" + kit.Port}, Late: true})
		w.give(x, b, hs[j])
		if late {
			b.StartNet()
			settle(x, 2*sec)
		}
		if late && w.work(hs[i]) <= w.work(hs[j]) {
			if hs[i] != nil {
				a.OfferHead(kit.Event(w.u.Chain(hs[i])...)) // no better than what it got from b
			}
		} else {
			w.give(x, a, hs[i])
		}
		if !late {
			b.StartNet()
		}
		settle(x, 3*sec)
		desc := fmt.Sprintf("difficulty %d, a learns %s, b dials with %s (connected before %v)", k, nm(hs[i]), nm(hs[j]), late)
		w.converged(x, desc, []*kit.Node{a, b}, []*kit.Blk{hs[i], hs[j]})
		x.State(mcx.Hash(desc), false)
		x.Sample("%s", desc)
	}}
}
