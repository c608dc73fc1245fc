package ledger

import (
	"crypto/ecdsa"
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// purse is one set of owned outputs.
type purse struct {
	vals  []uint64
	own   []int
	utxos []core.Utxo
	src   []core.Tx
}

func (p *purse) String() string {
	s := "outputs"
	for i, v := range p.vals {
		s += fmt.Sprintf(" %d(owner %d)", v, p.own[i])
	}
	return s
}

var srcCache = map[[3]uint64]core.Tx{}

func newPurse(vals []uint64, own []int) *purse {
	p := &purse{vals: vals, own: own}
	for i, v := range vals {
		k := [3]uint64{uint64(i), v, uint64(own[i])}
		t, ok := srcCache[k]
		if !ok {
			t = kit.Coinbase(uint64(i+1), v, own[i])
			srcCache[k] = t
		}
		p.src = append(p.src, t)
		p.utxos = append(p.utxos, core.Utxo{TxId: t.Hash(), Ind: 0, Value: v})
	}
	return p
}

// together makes the outputs those of as few transactions as n outputs each allow.
func (p *purse) together(n int) *purse {
	p.src = nil
	for i := 0; i < len(p.vals); i += n {
		t := core.Tx{IsCoinbase: true, MinBlock: uint64(i + 1), Inputs: []core.TxIn{}}
		for j := i; j < i+n && j < len(p.vals); j++ {
			t.Outputs = append(t.Outputs, core.TxOut{Value: p.vals[j], PublicKeyHash: kit.Pkh(p.own[j])})
		}
		p.src = append(p.src, t)
		for j := range t.Outputs {
			p.utxos[i+j] = core.Utxo{TxId: t.Hash(), Ind: uint64(j), Value: p.vals[i+j]}
		}
	}
	return p
}

func (p *purse) m() map[core.Utxo]H {
	out := map[core.Utxo]H{}
	for i, u := range p.utxos {
		out[u] = kit.Pkh(p.own[i])
	}
	return out
}

// top sums the k most valuable outputs.
func (p *purse) top(k int) *big.Int {
	s := append([]uint64(nil), p.vals...)
	sort.Slice(s, func(i, j int) bool { return s[i] > s[j] })
	t := new(big.Int)
	for _, v := range s[:k] {
		t.Add(t, new(big.Int).SetUint64(v))
	}
	return t
}

// purses calls f for every multiset of up to n of the values with every owner pattern.
func purses(values []uint64, n int, patterns [][]int, f func(p *purse)) {
	var rec func(from int, cur []uint64)
	rec = func(from int, cur []uint64) {
		done := map[string]bool{}
		for _, pat := range patterns {
			own := make([]int, len(cur))
			for i := range own {
				own[i] = pat[i%len(pat)]
			}
			if k := fmt.Sprint(own); !done[k] {
				done[k] = true
				f(newPurse(append([]uint64(nil), cur...), own))
			}
		}
		if len(cur) == n {
			return
		}
		for i := from; i < len(values); i++ {
			rec(i, append(append([]uint64(nil), cur...), values[i]))
		}
	}
	rec(0, nil)
}

const inMax = 32 + 8 + 8 + 91 + 72

func paySize(ins, outs int) uint64 { return uint64(72 + inMax*ins + 40*outs) }

func ratFloor(r *big.Rat) *big.Int { return new(big.Int).Quo(r.Num(), r.Denom()) }

func feeOf(rate float64, size uint64) *big.Int {
	r := new(big.Rat)
	r.SetFloat64(rate)
	return ratFloor(r.Mul(r, new(big.Rat).SetInt(new(big.Int).SetUint64(size))))
}

var u64lim = new(big.Int).Lsh(big.NewInt(1), 64)

type payReq struct {
	purse *purse
	keys  []int
	dests map[H]uint64
	rate  float64
	min   uint64
	max   uint64
	cons  bool
}

func (q *payReq) String() string {
	s := fmt.Sprintf("%s, rate %v, min block %d, size limit %d: ", q.purse, q.rate, q.min, q.max)
	if q.cons {
		return s + "consolidation"
	}
	s += "payment of"
	for i := 0; i < 20; i++ {
		if v, ok := q.dests[kit.Pkh(i)]; ok {
			s += fmt.Sprintf(" %d to %d", v, i)
		}
	}
	return s
}

// feasible says whether a transaction meeting the request exists, and with how few inputs;
// doubt means the code may refuse (values whose sum is out of range, or a fee too close to a rounding boundary).
func (q *payReq) feasible() (k int, ok, doubt bool) {
	n := len(q.purse.vals)
	doubt = q.purse.top(n).Cmp(u64lim) >= 0
	if q.cons {
		if n < 2 {
			return 0, false, doubt
		}
		for k = 0; k < n && paySize(k+1, 1) <= q.max; k++ {
		}
		fee := feeOf(q.rate, paySize(k, 1))
		if k == 1 {
			doubt = true
		}
		return k, k > 0 && fee.Sign() > 0 && q.purse.top(k).Cmp(fee) > 0, doubt
	}
	sum := new(big.Int)
	for _, v := range q.dests {
		sum.Add(sum, new(big.Int).SetUint64(v))
	}
	for k = 1; k <= n && paySize(k, len(q.dests)+1) <= q.max; k++ {
		fee := feeOf(q.rate, paySize(k, len(q.dests)+1))
		if q.purse.top(k).Cmp(new(big.Int).Add(sum, fee)) >= 0 {
			if fee.Sign() == 0 {
				return k, false, doubt
			}
			return k, true, doubt
		}
	}
	return 0, false, doubt
}

func (q *payReq) judge(x *mcx.X, n *mcrt.Node, priv []*ecdsa.PrivateKey) {
	p := kit.SmallParams()
	p.MaxTxVSize = q.max
	var tx *core.Tx
	var err error
	um := q.purse.m()
	ok, pv := x.S.CallNode(n, "pay", func() {
		if q.cons {
			tx, err = core.MakeConsolidateTx(p, priv, um, q.rate, q.min)
		} else {
			tx, err = core.MakeOutboundTx(p, priv, um, q.dests, q.rate, q.min)
		}
	})
	if !ok {
		x.Fail("crash", "%s: %v", q, pv)
		return
	}
	k, can, doubt := q.feasible()
	x.Count("requests", 1)
	if err != nil {
		if can && !doubt {
			x.Fail("refused", "%s: refused with %q though %d inputs suffice", q, err, k)
		}
		x.Count("requests refused", 1)
		return
	}
	x.Count("transactions built", 1)
	if tx == nil {
		x.Fail("nothing", "%s: neither a transaction nor an error", q)
		return
	}
	ref := kit.NewRef(p)
	for _, t := range q.purse.src {
		ref.Tx[t.Hash()] = t
	}
	if tx.IsCoinbase {
		x.Fail("invalid", "%s: built a coinbase", q)
		return
	}
	if e := ref.TxErr(*tx); e != "" {
		x.Fail("invalid", "%s: built a transaction the node refuses (%s)", q, e)
		return
	}
	if tx.MinBlock != q.min {
		x.Fail("minblock", "%s: minimum height %d", q, tx.MinBlock)
	}
	// each destination its amount; the rest to an owned address
	left := map[H]uint64{}
	for h, v := range q.dests {
		left[h] = v
	}
	owned := map[H]bool{}
	for _, i := range q.keys {
		owned[kit.Pkh(i)] = true
	}
	var rest []core.TxOut
	for _, o := range tx.Outputs {
		if v, ok := left[o.PublicKeyHash]; ok && v == o.Value {
			delete(left, o.PublicKeyHash)
			continue
		}
		rest = append(rest, o)
	}
	if len(left) > 0 {
		x.Fail("unpaid", "%s: %d destinations are not paid their amount", q, len(left))
	}
	if len(rest) > 1 {
		x.Fail("extra", "%s: %d outputs besides the destinations", q, len(rest))
	}
	for _, o := range rest {
		if !owned[o.PublicKeyHash] {
			x.Fail("lost", "%s: %d paid to an address which is neither a destination nor owned", q, o.Value)
		}
	}
	fee := new(big.Int).Sub(kit.InSum(*tx), kit.OutSum(*tx))
	most := paySize(len(tx.Inputs), len(tx.Outputs))
	hi, lo := feeOf(q.rate, most), feeOf(q.rate, kit.TxVSize(*tx))
	if fee.Cmp(hi) > 0 {
		x.Fail("fee", "%s: fee %v above the requested rate (%v)", q, fee, hi)
	}
	if fee.Cmp(lo) < 0 {
		x.Fail("fee", "%s: fee %v below the requested rate (%v)", q, fee, lo)
	}
	if !q.cons && can && len(tx.Inputs) != k {
		x.Fail("inputs", "%s: %d inputs where %d suffice", q, len(tx.Inputs), k)
	}
	if q.cons && len(tx.Inputs) != k {
		x.Fail("inputs", "%s: consolidates %d outputs of the %d that fit", q, len(tx.Inputs), k)
	}
	if q.cons && kit.InSum(*tx).Cmp(q.purse.top(len(tx.Inputs))) != 0 {
		x.Fail("inputs", "%s: does not consolidate the most valuable outputs", q)
	}
}

func c27(tier string) []mcx.Scenario {
	nmax, cmax := 3, 5
	if tier == "thorough" {
		nmax, cmax = 4, 6
	}
	const big63, max = uint64(1) << 63, uint64(math.MaxUint64)
	values := []uint64{0, 1, 300, 1000, big63, max}
	rates := []float64{1, 0, 0.0001, 0.004, 0.01, 0.1, 0.5, 1.5, 7, 1e15}
	patterns := [][]int{{1}, {1, 2}, {2, 2, 1}}
	keyOf := func(ks []int) (out []*ecdsa.PrivateKey) {
		for _, k := range ks {
			out = append(out, kit.Priv(k))
		}
		return
	}
	many := []int{4, 5, 6, 7, 12, 33, 76, 77, 78, 300}
	if tier == "thorough" {
		many = nil
		for i := 4; i <= 80; i++ {
			many = append(many, i)
		}
		many = append(many, 128, 255, 256, 257, 300, 600)
	}
	forms := []string{"one other", "one own", "two", "two, one of zero", "two, one own", "none"}
	return []mcx.Scenario{
		{Name: "payments", Body: func(x *mcx.X) {
			n := x.S.NewNode("w", "10.0.0.9")
			rate := rates[x.Pick(len(rates))]
			form := x.Pick(len(forms))
			minb := []uint64{7, 0, max}[0]
			lim := x.Pick(5)
			keys := []int{1, 2, 3}
			if x.Pick(2) == 1 {
				minb, keys = max-uint64(lim), []int{3, 2, 1, 1}
			}
			priv := keyOf(keys)
			nd := map[string]int{"one other": 1, "one own": 1, "none": 0}[forms[form]]
			if forms[form] != "none" && nd == 0 {
				nd = 2
			}
			limit := []uint64{16384, paySize(1, nd+1), paySize(2, nd+1) - 1, paySize(2, nd+1), paySize(3, nd+1) - 1}[lim]
			purses(values, nmax, patterns, func(p *purse) {
				if x.Failed() {
					return
				}
				amounts := map[uint64]bool{0: true, 1: true, 250: true, big63: true, max: true, max - 100: true, big63 - 1: true}
				for k := 1; k <= len(p.vals); k++ {
					t := p.top(k)
					f := feeOf(rate, paySize(k, nd+1))
					for _, d := range []int64{-1, 0, 1} {
						for _, b := range []*big.Int{t, new(big.Int).Sub(t, f)} {
							if v := new(big.Int).Add(b, big.NewInt(d)); v.IsUint64() {
								amounts[v.Uint64()] = true
							}
						}
					}
				}
				var as []uint64
				for a := range amounts {
					as = append(as, a)
				}
				sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
				for _, a := range as {
					dests := map[H]uint64{}
					switch forms[form] {
					case "one other":
						dests[kit.Pkh(8)] = a
					case "one own":
						dests[kit.Pkh(1)] = a
					case "two":
						if a == 0 {
							continue
						}
						dests[kit.Pkh(8)], dests[kit.Pkh(9)] = a-a/3, a/3
						if a == max-100 {
							dests[kit.Pkh(9)] = max // sum beyond 64 bits
						}
					case "two, one of zero":
						dests[kit.Pkh(8)], dests[kit.Pkh(9)] = a, 0
					case "two, one own":
						if a == 0 {
							continue
						}
						dests[kit.Pkh(2)], dests[kit.Pkh(9)] = a-1, 1
					case "none":
						if a > 1 {
							continue
						}
					}
					q := &payReq{purse: p, keys: keys, dests: dests, rate: rate, min: minb, max: limit}
					q.judge(x, n, priv)
				}
			})
			x.State(mcx.Hash(fmt.Sprint(rate, form, lim, minb)), true)
			x.Sample("rate %v, destinations: %s, size limit %d", rate, forms[form], limit)
		}},
		{Name: "consolidations", Body: func(x *mcx.X) {
			n := x.S.NewNode("w", "10.0.0.9")
			rate := rates[x.Pick(len(rates))]
			lim := x.Pick(8)
			limit := uint64(16384)
			if lim > 0 {
				limit = paySize((lim+1)/2, 1) - uint64(lim%2)
			}
			keys := []int{1, 2, 3}
			priv := keyOf(keys)
			vals := append([]uint64{}, values...)
			// totals at the edge of being worth the fee
			for k := 2; k <= 3; k++ {
				f := feeOf(rate, paySize(k, 1))
				for _, d := range []int64{-1, 0, 1} {
					if v := new(big.Int).Add(f, big.NewInt(d)); v.IsUint64() && v.Uint64() > 1 && v.Uint64() < 1<<62 && k == 2 {
						vals = append(vals, v.Uint64())
					}
				}
			}
			m := cmax - 1
			if x.Pick(2) == 1 {
				m = cmax
				vals = []uint64{1, 1000, 400}
			}
			purses(vals, m, patterns, func(p *purse) {
				if x.Failed() {
					return
				}
				q := &payReq{purse: p, keys: keys, rate: rate, min: 3, max: limit, cons: true}
				q.judge(x, n, priv)
			})
			x.State(mcx.Hash(fmt.Sprint(rate, lim, m)), true)
		}},
		{Name: "outputs-of-few-transactions", Body: func(x *mcx.X) {
			n := x.S.NewNode("w", "10.0.0.9")
			rate := []float64{1, 0.01, 1.5}[x.Pick(3)]
			per := 2 + x.Pick(4)
			keys := []int{1, 2, 3, 4}
			priv := keyOf(keys)
			pats := append([][]int{{1, 2, 3}, {3, 2, 1, 4}}, patterns...)
			purses([]uint64{300, 1000, 1000, 2000}, 5, pats, func(p *purse) {
				if len(p.vals) < 2 {
					return
				}
				p.together(per)
				for k := 1; k <= len(p.vals) && !x.Failed(); k++ {
					v := new(big.Int).Sub(p.top(k), feeOf(rate, paySize(k, 2)))
					for _, d := range []int64{-1, 0, 1} {
						if w := new(big.Int).Add(v, big.NewInt(d)); w.Sign() > 0 {
							q := &payReq{purse: p, keys: keys, dests: map[H]uint64{kit.Pkh(8): w.Uint64()}, rate: rate, min: 3, max: 16384}
							q.judge(x, n, priv)
						}
					}
				}
				q := &payReq{purse: p, keys: keys, rate: rate, min: 3, max: 16384, cons: true}
				q.judge(x, n, priv)
			})
			x.State(mcx.Hash(fmt.Sprint(rate, per)), true)
			x.Sample("%d outputs per transaction, rate %v", per, rate)
		}},
		{Name: "many-outputs", Body: func(x *mcx.X) {
			n := x.S.NewNode("w", "10.0.0.9")
			cnt := many[x.Pick(len(many))]
			spread := x.Pick(3)
			var vals []uint64
			var own, keys []int
			for i := 0; i < cnt; i++ {
				// distinct values in no particular order, all alike, or steeply falling
				v := uint64(1000 + (i*37)%101*10)
				switch spread {
				case 1:
					v = 1000
				case 2:
					v = 500 + uint64(1)<<uint(60*(i*7%cnt)/cnt)
				}
				vals = append(vals, v)
				own = append(own, 1+i%80)
			}
			for i := 1; i <= 81; i++ {
				keys = append(keys, i)
			}
			priv := keyOf(keys)
			p := newPurse(vals, own)
			if x.Pick(2) == 1 {
				p.together(50)
			}
			lim := paySize(cnt/2+1, 2)
			for _, limit := range []uint64{16384, lim, lim - 1, 1 << 20} {
				q := &payReq{purse: p, keys: keys, rate: 1, min: 3, max: limit, cons: true}
				q.judge(x, n, priv)
				step := 1 + cnt/8
				for k := 1; k <= cnt; k += step {
					for _, d := range []int64{-1, 0, 1} {
						v := new(big.Int).Sub(p.top(k), feeOf(1, paySize(k, 2)))
						if v.Add(v, big.NewInt(d)); v.Sign() <= 0 || !v.IsUint64() {
							continue
						}
						q := &payReq{purse: p, keys: keys, dests: map[H]uint64{kit.Pkh(90): v.Uint64()}, rate: 1, min: 3, max: limit}
						q.judge(x, n, priv)
						if x.Failed() {
							return
						}
					}
				}
			}
			x.State(mcx.Hash(cnt, spread), true)
			x.Sample("%d owned outputs", cnt)
		}},
		{Name: "many-destinations", Body: func(x *mcx.X) {
			n := x.S.NewNode("w", "10.0.0.9")
			cnt := []int{3, 4, 5, 8, 16, 17, 64, 255, 256, 257, 400}[x.Pick(11)]
			ins := 1 + x.Pick(3)
			priv := keyOf([]int{1})
			vals := make([]uint64, ins)
			own := make([]int, ins)
			for i := range vals {
				vals[i], own[i] = 1<<40, 1
			}
			p := newPurse(vals, own)
			dests := map[H]uint64{}
			for i := 0; i < cnt-1; i++ {
				dests[kit.DH([]byte{byte(i), byte(i >> 8), 99})] = uint64(i)
			}
			last := kit.DH([]byte{99})
			for _, limit := range []uint64{16384, paySize(ins, cnt+1), paySize(ins, cnt+1) - 1} {
				for _, d := range []int64{-1, 0, 1} {
					v := new(big.Int).Sub(p.top(ins), feeOf(1, paySize(ins, cnt+1)))
					v.Sub(v, big.NewInt(int64((cnt-1)*(cnt-2)/2)-d))
					dests[last] = v.Uint64()
					q := &payReq{purse: p, keys: []int{1}, dests: dests, rate: 1, min: 3, max: limit}
					q.judge(x, n, priv)
				}
			}
			x.State(mcx.Hash(cnt, ins), true)
			x.Sample("%d destinations", cnt)
		}},
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C27", Scenarios: c27,
		Assumptions: []string{"signatures are deterministic (RFC 6979) in the harness; a transaction's size varies by at most its signatures' length"},
		Rule:        "every multiset of owned outputs over the value grid (0, 1, 300, 1000, 2^63, 2^64-1; fee boundaries), owner patterns, destination forms, amounts around every sum and fee boundary, rates and size limits; each request judged against an independent account of feasibility and validity"})
}
