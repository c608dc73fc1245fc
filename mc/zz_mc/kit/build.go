package kit

import (
	"fmt"
	"math/big"

	"github.com/levilutz/basiccoin/pkg/core"
	sha256 "github.com/levilutz/basiccoin/zz_mc/shim/crypto_sha256"
)

// EasyTarget is the easiest target the parameters may allow.
var EasyTarget = HashHex("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")

// ProdTarget is the easiest target of the production network, HardTarget one after some growth of it.
var (
	ProdTarget = HashHex("0000000fffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
	HardTarget = HashHex("0000000000000000000357c1a89f00e3d24b76a1fffe8d0b7a3391c02b4ce811")
)

// BaseUnix is the time executions start at.
const BaseUnix = uint64(1_700_000_000)

// SmallParams are parameters for quick histories.
func SmallParams() core.Params {
	return core.Params{
		BlockReward: 1000, DifficultyPeriod: 1000, BlockTargetTime: 600,
		MaxBlockVSize: 4000, MaxTxVSize: 1500,
		MaxTarget: EasyTarget, OriginalTarget: EasyTarget,
	}
}

// Blk is a block with everything it needs.
type Blk struct {
	Name    string
	ID      H
	B       core.Block
	Merkles []core.MerkleNode
	Txs     []core.Tx
}

// Uni is a universe of prepared transactions and blocks.
type Uni struct {
	P     core.Params
	Ref   *Ref // knows everything in the universe
	Txs   []core.Tx
	TxN   []string
	Blks  []*Blk
	name  map[H]string
	mined map[string]*Blk
	time  uint64
}

func NewUni(p core.Params) *Uni {
	return &Uni{P: p, Ref: NewRef(p), name: map[H]string{H{}: "0"}, time: BaseUnix - 100_000}
}

// Earlier moves the times of blocks made from now on back.
func (u *Uni) Earlier(s uint64) { u.time -= s }

// Name of an entity.
func (u *Uni) Name(id H) string {
	if n, ok := u.name[id]; ok {
		return n
	}
	return id.String()[:8]
}

func (u *Uni) Names(ids []H) (out []string) {
	for _, i := range ids {
		out = append(out, u.Name(i))
	}
	return
}

// In is an input to build: output n of a transaction, owned by key k.
type In struct {
	Tx core.Tx
	N  int
	K  int
}

// Out is an output to build.
type Out struct {
	V uint64
	K int
}

// MakeTx builds and signs a transaction without registering it.
func MakeTx(min uint64, ins []In, outs []Out) core.Tx {
	tx := core.Tx{MinBlock: min, Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for _, o := range outs {
		tx.Outputs = append(tx.Outputs, core.TxOut{Value: o.V, PublicKeyHash: Pkh(o.K)})
	}
	for _, i := range ins {
		tx.Inputs = append(tx.Inputs, core.TxIn{
			Utxo:      core.Utxo{TxId: i.Tx.Hash(), Ind: uint64(i.N), Value: i.Tx.Outputs[i.N].Value},
			PublicKey: Pub(i.K), Signature: SignFor(i.K, min, tx.Outputs),
		})
	}
	return tx
}

// Tx builds and registers a transaction.
func (u *Uni) Tx(name string, min uint64, ins []In, outs []Out) core.Tx {
	return u.AddTx(name, MakeTx(min, ins, outs))
}

// AddTx registers a transaction as a candidate.
func (u *Uni) AddTx(name string, tx core.Tx) core.Tx {
	u.knowTx(name, tx)
	u.Txs = append(u.Txs, tx)
	u.TxN = append(u.TxN, name)
	return tx
}

func (u *Uni) knowTx(name string, tx core.Tx) {
	id := tx.Hash()
	if _, ok := u.name[id]; !ok {
		u.name[id] = name
	}
	u.Ref.Tx[id] = tx
}

func Coinbase(height, value uint64, k int) core.Tx {
	return core.Tx{IsCoinbase: true, MinBlock: height, Inputs: []core.TxIn{}, Outputs: []core.TxOut{{Value: value, PublicKeyHash: Pkh(k)}}}
}

// Tree builds merkle nodes over ids, children first, root last.
func Tree(ids []H) (out []core.MerkleNode) {
	layer := append([]H(nil), ids...)
	for first := true; first || len(layer) > 1; first = false {
		var next []H
		for i := 0; i < len(layer); i += 2 {
			r := layer[i]
			if i+1 < len(layer) {
				r = layer[i+1]
			}
			m := core.MerkleNode{LChild: layer[i], RChild: r}
			out = append(out, m)
			next = append(next, m.Hash())
		}
		layer = next
	}
	return
}

// Opt adjusts a block under construction.
type Opt func(*blkOpt)

type blkOpt struct {
	time   *uint64
	target *H
	cb     *core.Tx
	noCb   bool
	key    int
	fees   int64 // added to the coinbase beyond reward plus fees
	tree   func(ids []H) []core.MerkleNode
	lose   bool // does not beat its target
	noise  byte
	hide   bool
}

func Time(t uint64) Opt                          { return func(o *blkOpt) { o.time = &t } }
func Target(t H) Opt                             { return func(o *blkOpt) { o.target = &t } }
func CbTx(t core.Tx) Opt                         { return func(o *blkOpt) { o.cb = &t } }
func NoCb() Opt                                  { return func(o *blkOpt) { o.noCb = true } }
func Key(k int) Opt                              { return func(o *blkOpt) { o.key = k } }
func Extra(n int64) Opt                          { return func(o *blkOpt) { o.fees = n } }
func Lose() Opt                                  { return func(o *blkOpt) { o.lose = true } }
func Noise(b byte) Opt                           { return func(o *blkOpt) { o.noise = b } }
func WithTree(f func([]H) []core.MerkleNode) Opt { return func(o *blkOpt) { o.tree = f } }

// Hide: do not list the block as a candidate of its own.
func Hide() Opt { return func(o *blkOpt) { o.hide = true } }

// Block builds, mines and registers a block on parent (nil: on nothing) holding txs after its coinbase.
func (u *Uni) Block(name string, parent *Blk, txs []core.Tx, opts ...Opt) *Blk {
	o := blkOpt{key: 900 + len(u.Blks)}
	for _, f := range opts {
		f(&o)
	}
	pid := H{}
	if parent != nil {
		pid = parent.ID
	}
	height := u.Ref.Height(pid) + 1
	var all []core.Tx
	if !o.noCb {
		cb := Coinbase(height, 0, o.key)
		if o.cb != nil {
			cb = *o.cb
		} else {
			v := int64(u.P.BlockReward) + o.fees
			for _, t := range txs {
				v += int64(InSum(t).Int64() - OutSum(t).Int64())
			}
			cb.Outputs[0].Value = uint64(v)
		}
		all = append(all, cb)
		u.knowTx(name+".cb", cb)
	}
	all = append(all, txs...)
	var ids []H
	for i, t := range all {
		u.knowTx(fmt.Sprintf("%s.tx%d", name, i), t)
		ids = append(ids, t.Hash())
	}
	tree := Tree
	if o.tree != nil {
		tree = o.tree
	}
	mk := tree(ids)
	for _, m := range mk {
		u.Ref.Mk[m.Hash()] = m
	}
	b := core.Block{PrevBlockId: pid, MerkleRoot: mk[len(mk)-1].Hash(), Noise: DH([]byte{o.noise}), MinedTime: u.time + height*600}
	if o.time != nil {
		b.MinedTime = *o.time
	}
	if o.target != nil {
		b.Target = *o.target
	} else if t, ok := u.Ref.NextTarget(pid); ok {
		b.Target = t
	}
	Mine(&b, !o.lose)
	k := &Blk{Name: name, ID: b.Hash(), B: b, Merkles: mk, Txs: all}
	u.Ref.Bl[k.ID] = b
	u.name[k.ID] = name
	if !o.hide {
		u.Blks = append(u.Blks, k)
	}
	return k
}

// Mine searches a nonce whose id beats (or, on request, misses) the block's target. For targets too hard to beat
// an id is chosen instead, as if the search had been made.
func Mine(b *core.Block, win bool) {
	if t := Big(b.Target); win && t.BitLen() < 238 && t.BitLen() > 60 && !Less(b.Hash(), b.Target) {
		v := new(big.Int).Mod(Big(b.Hash()), t)
		sha256.Choose(func() { b.Hash() }, FromBig(v).Data())
		if !Less(b.Hash(), b.Target) {
			panic("cannot choose the block's id")
		}
		return
	}
	for n := 0; n < 1<<22; n++ {
		if Less(b.Hash(), b.Target) == win {
			return
		}
		b.Nonce++
	}
	panic("cannot mine block")
}

// Chain is the path of blocks from the first to k.
func (u *Uni) Chain(k *Blk) (out []*Blk) {
	by := map[H]*Blk{}
	for _, b := range u.Blks {
		by[b.ID] = b
	}
	for k != nil {
		out = append([]*Blk{k}, out...)
		k = by[k.B.PrevBlockId]
	}
	return
}

// CloneTx copies a transaction so that executions share no memory.
func CloneTx(t core.Tx) core.Tx {
	c := t
	c.Inputs = make([]core.TxIn, len(t.Inputs))
	for i, in := range t.Inputs {
		in.PublicKey = append([]byte(nil), in.PublicKey...)
		in.Signature = append([]byte(nil), in.Signature...)
		c.Inputs[i] = in
	}
	c.Outputs = append([]core.TxOut{}, t.Outputs...)
	return c
}

// Mined is the block a miner makes on the given head; the same request gives the same block.
func (u *Uni) Mined(head, target H, txs []core.Tx) *Blk {
	k := fmt.Sprint(head, target)
	for _, t := range txs {
		k += t.Hash().String()
	}
	if b := u.mined[k]; b != nil {
		return b
	}
	if u.mined == nil {
		u.mined = map[string]*Blk{}
	}
	var parent *Blk
	if !head.EqZero() {
		parent = &Blk{ID: head}
	}
	kh := DH([]byte(k)).String()[:6]
	b := u.Block("mined-"+kh, parent, txs, Target(target), Key(77), Hide(), Noise(200))
	u.mined[k] = b
	return b
}

// Valid insists that blocks meant to be valid are so by the reference rules.
func (u *Uni) Valid(ks ...*Blk) {
	for _, k := range ks {
		if e := u.Ref.BlockErr(k.B, BaseUnix); e != "" {
			panic("universe: block " + k.Name + " is not valid: " + e)
		}
		if e := u.Ref.Ledger(k.ID).Err; e != "" {
			panic("universe: chain to " + k.Name + " is not valid: " + e)
		}
	}
}

// Invalid insists that blocks meant to be invalid are so.
func (u *Uni) Invalid(ks ...*Blk) {
	for _, k := range ks {
		if u.Ref.BlockErr(k.B, BaseUnix) == "" && u.Ref.Ledger(k.ID).Err == "" {
			panic("universe: chain to " + k.Name + " is valid")
		}
	}
}

// MaxNext is the easiest target allowed after t at a period boundary.
func (u *Uni) MaxNext(t H) H { return FromBig(u.Ref.maxNext(t)) }

// MinNext is the hardest.
func (u *Uni) MinNext(t H) H { return FromBig(u.Ref.minNext(t)) }

// Probe registers a transaction made during an execution (once).
func (u *Uni) Probe(name string, t core.Tx) core.Tx {
	u.knowTx(name, t)
	return t
}

// Empty is a block without transactions after the given one; the same request gives the same block.
func (u *Uni) Empty(parent, target H, noise byte) *Blk {
	k := fmt.Sprint("empty", parent, target, noise)
	if b := u.mined[k]; b != nil {
		return b
	}
	if u.mined == nil {
		u.mined = map[string]*Blk{}
	}
	var p *Blk
	if !parent.EqZero() {
		p = &Blk{ID: parent}
	}
	b := u.Block(fmt.Sprintf("%s+%d", u.Name(parent), noise), p, nil, Target(target), Key(77), Hide(), Noise(noise))
	u.mined[k] = b
	return b
}

// Once makes a block of that name once.
func (u *Uni) Once(name string, f func() *Blk) *Blk {
	if b := u.mined["once "+name]; b != nil {
		return b
	}
	if u.mined == nil {
		u.mined = map[string]*Blk{}
	}
	b := f()
	u.mined["once "+name] = b
	return b
}
