// Package kit holds what the harnesses share: deterministic keys, builders for transactions and
// blocks, a plain reference ledger, and a driver for a running node.
package kit

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	"github.com/levilutz/basiccoin/pkg/core"
)

type H = core.HashT

// ---- keys

type key struct {
	priv *ecdsa.PrivateKey
	pub  []byte
	pkh  H
}

var keys = map[int]*key{}

func getKey(i int) *key {
	if k := keys[i]; k != nil {
		return k
	}
	var b [16]byte
	binary.BigEndian.PutUint64(b[:], uint64(i))
	copy(b[8:], "kit key ")
	h := sha256.Sum256(b[:])
	c := elliptic.P256()
	d := new(big.Int).SetBytes(h[:])
	d.Mod(d, new(big.Int).Sub(c.Params().N, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	p := new(ecdsa.PrivateKey)
	p.Curve = c
	p.D = d
	p.X, p.Y = c.ScalarBaseMult(d.FillBytes(make([]byte, 32)))
	pub, err := x509.MarshalPKIXPublicKey(&p.PublicKey)
	if err != nil {
		panic(err)
	}
	k := &key{p, pub, DH(pub)}
	keys[i] = k
	byPkh[k.pkh] = i
	return k
}

// DH is sha256 twice.
func DH(b []byte) H {
	a := sha256.Sum256(b)
	c := sha256.Sum256(a[:])
	return core.NewHashTFromBytes(c[:])
}

func Priv(i int) *ecdsa.PrivateKey { return getKey(i).priv }
func Pub(i int) []byte             { return append([]byte(nil), getKey(i).pub...) }
func Pkh(i int) H                  { return getKey(i).pkh }

// KeyOfPkh is the number of a harness key made so far, by its hash.
func KeyOfPkh(h H) (int, bool) {
	k, ok := byPkh[h]
	return k, ok
}

var byPkh = map[H]int{}

var sigs = map[string][]byte{}

// Sign signs a hash with key i.
func Sign(i int, h H) []byte {
	d := h.Data()
	k := fmt.Sprint(i, d)
	if s, ok := sigs[k]; ok {
		return append([]byte(nil), s...)
	}
	s, err := getKey(i).priv.Sign(nil, d[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	sigs[k] = s
	return append([]byte(nil), s...)
}

var vers = map[string]bool{}

// sigOK checks a signature independently of the code under test.
func SigOK(pub []byte, h H, sig []byte) bool {
	d := h.Data()
	ck := string(pub) + "|" + string(d[:]) + "|" + string(sig)
	if v, ok := vers[ck]; ok {
		return v
	}
	v := false
	if k, err := x509.ParsePKIXPublicKey(pub); err == nil {
		if e, ok := k.(*ecdsa.PublicKey); ok {
			v = ecdsa.VerifyASN1(e, d[:], sig)
		}
	}
	vers[ck] = v
	return v
}

// signedFor: what each signature made by a harness key was made for.
var signedFor = map[string]map[string]bool{}

// Content is what a signature covers, independent of how the code under test hashes it.
func Content(min uint64, outs []core.TxOut) string {
	s := fmt.Sprint(min)
	for _, o := range outs {
		d := o.PublicKeyHash.Data()
		s += fmt.Sprintf("|%d:%x", o.Value, d[:])
	}
	return s
}

// SignFor signs a minimum height and outputs with key i.
func SignFor(i int, min uint64, outs []core.TxOut) []byte {
	return Record(Pub(i), Sign(i, core.TxHashPreSig(min, outs)), min, outs)
}

// Record remembers what a signature was made for.
func Record(pub, sig []byte, min uint64, outs []core.TxOut) []byte {
	k := string(pub) + "|" + string(sig)
	if signedFor[k] == nil {
		signedFor[k] = map[string]bool{}
	}
	signedFor[k][Content(min, outs)] = true
	return sig
}

// Authorises: the signature is one made with this key for this minimum height and these outputs (or, when
// the harness did not make it, one that verifies).
func Authorises(pub, sig []byte, min uint64, outs []core.TxOut) bool {
	if c, ok := signedFor[string(pub)+"|"+string(sig)]; ok && !c[Content(min, outs)] {
		return false
	}
	return SigOK(pub, core.TxHashPreSig(min, outs), sig)
}

// ---- hashes as numbers

var two256m1 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func Big(h H) *big.Int {
	d := h.Data()
	return new(big.Int).SetBytes(d[:])
}

func FromBig(b *big.Int) H {
	return core.NewHashTFromBytes(b.FillBytes(make([]byte, 32)))
}

func Less(a, b H) bool {
	x, y := a.Data(), b.Data()
	return bytes.Compare(x[:], y[:]) < 0
}

func HashHex(s string) H { return core.NewHashTFromStringAssert(s) }

// ---- reference values

func TxVSize(tx core.Tx) uint64 {
	n := uint64(8 + 32 + 32)
	for _, i := range tx.Inputs {
		n += 32 + 8 + 8 + uint64(len(i.PublicKey)+len(i.Signature))
	}
	return n + 40*uint64(len(tx.Outputs))
}

const CoinbaseVSize = 8 + 32 + 32 + 40

func InSum(tx core.Tx) *big.Int {
	s := new(big.Int)
	for _, i := range tx.Inputs {
		s.Add(s, new(big.Int).SetUint64(i.Utxo.Value))
	}
	return s
}

func OutSum(tx core.Tx) *big.Int {
	s := new(big.Int)
	for _, o := range tx.Outputs {
		s.Add(s, new(big.Int).SetUint64(o.Value))
	}
	return s
}

// Rate is fee per byte as an exact fraction.
func Rate(tx core.Tx) *big.Rat {
	f := new(big.Int).Sub(InSum(tx), OutSum(tx))
	return new(big.Rat).SetFrac(f, new(big.Int).SetUint64(TxVSize(tx)))
}

// Ref knows a set of entities and judges entities and chains from first principles.
type Ref struct {
	P  core.Params
	Tx map[H]core.Tx
	Mk map[H]core.MerkleNode
	Bl map[H]core.Block
	lc map[H]*Ledger
}

func NewRef(p core.Params) *Ref {
	return &Ref{P: p, Tx: map[H]core.Tx{}, Mk: map[H]core.MerkleNode{}, Bl: map[H]core.Block{}, lc: map[H]*Ledger{}}
}

func (r *Ref) has(id H) bool {
	_, a := r.Tx[id]
	_, b := r.Mk[id]
	return a || b
}

// TxErr: why a transaction is not valid given the known ones ("" when valid).
func (r *Ref) TxErr(tx core.Tx) string {
	if TxVSize(tx) > r.P.MaxTxVSize {
		return "too large"
	}
	if tx.IsCoinbase {
		if len(tx.Inputs) != 0 {
			return "coinbase with inputs"
		}
		if len(tx.Outputs) != 1 {
			return "coinbase without exactly one output"
		}
		if tx.Outputs[0].Value < r.P.BlockReward {
			return "coinbase below reward"
		}
		return ""
	}
	if InSum(tx).Cmp(OutSum(tx)) <= 0 {
		return "no surplus"
	}
	if !InSum(tx).IsUint64() {
		return "amounts out of range"
	}
	seen := map[core.Utxo]bool{}
	for _, i := range tx.Inputs {
		if seen[i.Utxo] {
			return "duplicate input"
		}
		seen[i.Utxo] = true
		o, ok := r.Tx[i.Utxo.TxId]
		if !ok || i.Utxo.Ind >= uint64(len(o.Outputs)) {
			return "unknown output"
		}
		out := o.Outputs[i.Utxo.Ind]
		if out.Value != i.Utxo.Value {
			return "wrong claimed value"
		}
		if DH(i.PublicKey) != out.PublicKeyHash {
			return "wrong key"
		}
		if !Authorises(i.PublicKey, i.Signature, tx.MinBlock, tx.Outputs) {
			return "bad signature"
		}
	}
	return ""
}

// Leaves lists the transaction ids under a node breadth first, which for generated trees is left to right.
func (r *Ref) Leaves(root H) (out []H) {
	q := []H{root}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		if _, ok := r.Tx[id]; ok {
			out = append(out, id)
		} else if m, ok := r.Mk[id]; ok {
			q = append(q, m.LChild)
			if m.RChild != m.LChild {
				q = append(q, m.RChild)
			}
		}
	}
	return
}

func (r *Ref) Size(id H) *big.Int {
	s := new(big.Int)
	for _, l := range r.Leaves(id) {
		s.Add(s, new(big.Int).SetUint64(TxVSize(r.Tx[l])))
	}
	return s
}

func (r *Ref) MerkleErr(m core.MerkleNode) string {
	if !r.has(m.LChild) || !r.has(m.RChild) {
		return "unknown child"
	}
	ids := r.Leaves(m.LChild)
	tot := r.Size(m.LChild)
	if m.RChild != m.LChild {
		tot.Add(tot, r.Size(m.RChild))
		ids = append(ids, r.Leaves(m.RChild)...)
	}
	seen := map[H]bool{}
	for _, id := range ids {
		if seen[id] {
			return "shared transaction"
		}
		seen[id] = true
	}
	if tot.Cmp(new(big.Int).SetUint64(r.P.MaxBlockVSize)) > 0 {
		return "too large"
	}
	return ""
}

func (r *Ref) Height(id H) uint64 {
	n := uint64(0)
	for !id.EqZero() {
		id = r.Bl[id].PrevBlockId
		n++
	}
	return n
}

// Anc is the block n steps up (the zero block when the chain is shorter).
func (r *Ref) Anc(id H, n uint64) H {
	for ; n > 0 && !id.EqZero(); n-- {
		id = r.Bl[id].PrevBlockId
	}
	return id
}

func (r *Ref) Work(id H) *big.Int {
	w := new(big.Int)
	for !id.EqZero() {
		b := r.Bl[id]
		w.Add(w, new(big.Int).Div(two256m1, Big(b.Target)))
		id = b.PrevBlockId
	}
	return w
}

func (r *Ref) minNext(t H) *big.Int { return new(big.Int).Rsh(Big(t), 2) }
func (r *Ref) maxNext(t H) *big.Int {
	n := new(big.Int).Lsh(Big(t), 2)
	if m := Big(r.P.MaxTarget); n.Cmp(m) > 0 {
		return m
	}
	return n
}

// periodFirst is the block starting the difficulty period that head belongs to.
func (r *Ref) periodFirst(head H) (H, uint64) {
	h := r.Height(head)
	first := h / r.P.DifficultyPeriod * r.P.DifficultyPeriod
	if first == 0 {
		first = 1
	}
	return r.Anc(head, h-first), h - first
}

// NextTarget is the target the rules give the block after head.
func (r *Ref) NextTarget(head H) (H, bool) {
	if head.EqZero() {
		return r.P.OriginalTarget, true
	}
	b := r.Bl[head]
	if (r.Height(head)+1)%r.P.DifficultyPeriod != 0 {
		return b.Target, true
	}
	f, n := r.periodFirst(head)
	ft := r.Bl[f].MinedTime
	if ft >= b.MinedTime {
		return H{}, false
	}
	t := new(big.Int).Mul(Big(b.Target), new(big.Int).SetUint64(b.MinedTime-ft))
	t.Div(t, new(big.Int).Mul(new(big.Int).SetUint64(r.P.BlockTargetTime), new(big.Int).SetUint64(n)))
	if m := r.minNext(b.Target); t.Cmp(m) < 0 {
		t = m
	}
	if m := r.maxNext(b.Target); t.Cmp(m) > 0 {
		t = m
	}
	return FromBig(t), true
}

// Median of the (up to) five blocks ending at id.
func (r *Ref) Median(id H) (uint64, bool) {
	var ts []uint64
	for i := 0; i < 5 && !id.EqZero(); i++ {
		ts = append(ts, r.Bl[id].MinedTime)
		id = r.Bl[id].PrevBlockId
	}
	if len(ts) == 0 {
		return 0, false
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	n := len(ts)
	if n%2 == 1 {
		return ts[n/2], true
	}
	return (ts[n/2-1] + ts[n/2]) / 2, true
}

// BlockErr judges a block by everything except whether its transactions' inputs are unspent.
func (r *Ref) BlockErr(b core.Block, now uint64) string {
	if !Less(b.Hash(), b.Target) {
		return "does not beat its target"
	}
	if _, ok := r.Mk[b.MerkleRoot]; !ok {
		return "unknown tree"
	}
	if _, ok := r.Bl[b.PrevBlockId]; !ok && !b.PrevBlockId.EqZero() {
		return "unknown parent"
	}
	ids := r.Leaves(b.MerkleRoot)
	if len(ids) == 0 {
		return "no transactions"
	}
	height := r.Height(b.PrevBlockId) + 1
	in := new(big.Int).SetUint64(r.P.BlockReward)
	out := new(big.Int)
	for i, id := range ids {
		tx := r.Tx[id]
		if tx.IsCoinbase != (i == 0) {
			return "coinbase placement"
		}
		in.Add(in, InSum(tx))
		out.Add(out, OutSum(tx))
	}
	if r.Tx[ids[0]].MinBlock != height {
		return "coinbase height"
	}
	if in.Cmp(out) != 0 {
		return "totals do not match"
	}
	if r.Size(b.MerkleRoot).Cmp(new(big.Int).SetUint64(r.P.MaxBlockVSize)) > 0 {
		return "too large"
	}
	return r.TimeErr(b, now)
}

// TimeErr judges a block's time and target.
func (r *Ref) TimeErr(b core.Block, now uint64) string {
	height := r.Height(b.PrevBlockId) + 1
	if m, ok := r.Median(b.PrevBlockId); ok && b.MinedTime <= m {
		return "time not above median"
	}
	if b.MinedTime > now+3600 {
		return "time in the future"
	}
	if b.PrevBlockId.EqZero() {
		if b.Target != r.P.OriginalTarget {
			return "first target"
		}
		return ""
	}
	pt := r.Bl[b.PrevBlockId].Target
	if height%r.P.DifficultyPeriod == 0 {
		t := Big(b.Target)
		if t.Cmp(r.minNext(pt)) < 0 || t.Cmp(r.maxNext(pt)) > 0 {
			return "target out of range"
		}
	} else if b.Target != pt {
		return "target changed inside period"
	}
	if (height+1)%r.P.DifficultyPeriod == 0 && height >= 2 {
		first := height / r.P.DifficultyPeriod * r.P.DifficultyPeriod
		if first == 0 {
			first = 1
		}
		if b.MinedTime <= r.Bl[r.Anc(b.PrevBlockId, height-1-first)].MinedTime {
			return "period would have no duration"
		}
	}
	return ""
}

// Ledger is the state of one chain, replayed from scratch.
type Ledger struct {
	Head   H
	Height uint64
	Err    string // "" when every block's transactions are spendable in order
	Utxos  map[core.Utxo]H
	Inc    map[H]H
}

func (r *Ref) Ledger(head H) *Ledger {
	if l := r.lc[head]; l != nil {
		return l
	}
	l := &Ledger{Head: head, Utxos: map[core.Utxo]H{}, Inc: map[H]H{}}
	if !head.EqZero() {
		b := r.Bl[head]
		p := r.Ledger(b.PrevBlockId)
		l.Height = p.Height + 1
		l.Err = p.Err
		for k, v := range p.Utxos {
			l.Utxos[k] = v
		}
		for k, v := range p.Inc {
			l.Inc[k] = v
		}
		for _, id := range r.Leaves(b.MerkleRoot) {
			if e := l.apply(r, id, head); e != "" && l.Err == "" {
				l.Err = e
			}
		}
	}
	r.lc[head] = l
	return l
}

// Why a transaction cannot come next in a block at the given height on this ledger.
func (l *Ledger) txErr(r *Ref, id H, height uint64) string {
	tx := r.Tx[id]
	if _, ok := l.Inc[id]; ok {
		return "transaction twice on chain"
	}
	if tx.MinBlock > height {
		return "below minimum height"
	}
	used := map[core.Utxo]bool{}
	for _, i := range tx.Inputs {
		if _, ok := l.Utxos[i.Utxo]; !ok || used[i.Utxo] {
			return "input not available"
		}
		used[i.Utxo] = true
	}
	return ""
}

func (l *Ledger) apply(r *Ref, id, block H) string {
	tx := r.Tx[id]
	e := l.txErr(r, id, l.Height)
	for _, i := range tx.Inputs {
		delete(l.Utxos, i.Utxo)
	}
	for n, o := range tx.Outputs {
		l.Utxos[core.Utxo{TxId: id, Ind: uint64(n), Value: o.Value}] = o.PublicKeyHash
	}
	l.Inc[id] = block
	return e
}

// Valid: every block of the chain to head passes (times are judged at adoption, so only the
// ledger part is evaluated here).
func (r *Ref) Spendable(head H) bool { return r.Ledger(head).Err == "" }

// Pending lists known transactions that are not on the chain to head.
func (r *Ref) Pending(known []H, l *Ledger) (out []H) {
	for _, id := range known {
		if _, ok := l.Inc[id]; !ok {
			out = append(out, id)
		}
	}
	return
}

// Balances by owner.
func (l *Ledger) Balances() map[H]*big.Int {
	m := map[H]*big.Int{}
	for u, p := range l.Utxos {
		if m[p] == nil {
			m[p] = new(big.Int)
		}
		m[p].Add(m[p], new(big.Int).SetUint64(u.Value))
	}
	return m
}

// Includable: could come next after the ledger's head.
func (l *Ledger) Includable(r *Ref, id H) bool { return l.txErr(r, id, l.Height+1) == "" }

// TemplateErr judges a mining template for the ledger given the pending transactions.
func (r *Ref) TemplateErr(l *Ledger, pending []H, txs []H) string {
	limit := new(big.Int).SetUint64(r.P.MaxBlockVSize)
	size := big.NewInt(CoinbaseVSize)
	taken := map[H]bool{}
	spent := map[core.Utxo]H{}
	isPending := map[H]bool{}
	for _, id := range pending {
		isPending[id] = true
	}
	var last *big.Rat
	for _, id := range txs {
		tx, ok := r.Tx[id]
		if !ok {
			return "unknown transaction offered"
		}
		if taken[id] {
			return "transaction offered twice"
		}
		taken[id] = true
		if !isPending[id] {
			return "offered transaction is not pending"
		}
		if tx.IsCoinbase || InSum(tx).Cmp(OutSum(tx)) <= 0 {
			return "offered transaction pays no fee"
		}
		if !l.Includable(r, id) {
			return "offered transaction is not includable: " + l.txErr(r, id, l.Height+1)
		}
		for _, i := range tx.Inputs {
			if _, ok := spent[i.Utxo]; ok {
				return "offered transactions conflict"
			}
			spent[i.Utxo] = id
		}
		size.Add(size, new(big.Int).SetUint64(TxVSize(tx)))
		rt := Rate(tx)
		if last != nil && rt.Cmp(last) > 0 && !near(rt, last) {
			return "offered transactions are not in order of fee rate"
		}
		last = rt
	}
	if size.Cmp(limit) > 0 {
		return "offered transactions exceed the block size"
	}
	for _, id := range pending {
		tx := r.Tx[id]
		if taken[id] || tx.IsCoinbase || InSum(tx).Cmp(OutSum(tx)) <= 0 || !l.Includable(r, id) {
			continue
		}
		rt := Rate(tx)
		ok := false
		before := big.NewInt(CoinbaseVSize)
		for _, t := range txs {
			o := Rate(r.Tx[t])
			if o.Cmp(rt) >= 0 || near(o, rt) {
				before.Add(before, new(big.Int).SetUint64(TxVSize(r.Tx[t])))
				for _, i := range tx.Inputs {
					if spent[i.Utxo] == t {
						ok = true
					}
				}
			}
		}
		if before.Add(before, new(big.Int).SetUint64(TxVSize(tx))).Cmp(limit) > 0 {
			ok = true
		}
		if !ok {
			return "a fitting, paying, conflict-free transaction was left out"
		}
	}
	return ""
}

// near: rates a float64 computation cannot tell apart are ties.
func near(a, b *big.Rat) bool {
	d := new(big.Rat).Sub(a, b)
	d.Abs(d)
	m := new(big.Rat).Abs(a)
	if n := new(big.Rat).Abs(b); n.Cmp(m) > 0 {
		m = n
	}
	return d.Cmp(m.Mul(m, big.NewRat(1, 1_000_000_000_000))) <= 0
}

// SupplyAt is the total of all coins at a height.
func (r *Ref) SupplyAt(h uint64) *big.Int {
	return new(big.Int).Mul(new(big.Int).SetUint64(r.P.BlockReward), new(big.Int).SetUint64(h))
}

// HashOf condenses an id.
func HashOf(h H) uint64 { return hashT(h) }
