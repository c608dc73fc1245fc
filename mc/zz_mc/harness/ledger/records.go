package ledger

import (
	"fmt"
	"math"
	"strings"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/disksyncmap"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// records is a universe whose entities have boundary values in their fields.
type records struct {
	u    *kit.Uni
	list []entity // in storing order
}

var recordsOnce *records

func theRecords() *records {
	if recordsOnce != nil {
		return recordsOnce
	}
	u := kit.NewUni(kit.SmallParams())
	r := &records{u: u}
	a1 := u.Block("A1", nil, nil, kit.Key(1))
	cb := a1.Txs[0]
	ta := u.Tx("ta", 0, []kit.In{{cb, 0, 1}}, []kit.Out{{600, 3}, {1, 1}, {389, 2}})
	tb := u.Tx("tb", 1, []kit.In{{ta, 0, 3}, {ta, 1, 1}}, []kit.Out{{590, 4}})
	tc := u.Tx("tc", 2, []kit.In{{ta, 2, 2}}, []kit.Out{{380, 5}, {1, 6}})
	late := u.Tx("late", math.MaxUint64, []kit.In{{tb, 0, 4}}, []kit.Out{{500, 4}})
	late2 := u.Tx("late2", 1<<63, []kit.In{{tb, 0, 4}}, []kit.Out{{501, 4}})
	a2 := u.Block("A2", a1, []core.Tx{ta, tb, tc}, kit.Key(2))
	a3 := u.Block("A3", a2, nil, kit.Key(3), kit.Time(uint64(mcrt.BaseTime/1e9)+3600))
	b1 := u.Block("B1", nil, nil, kit.Key(2), kit.Noise(255))
	// a nonce at the end of its range
	hi := b1.B
	hi.Noise = v1Hash("hi")
	for hi.Nonce = math.MaxUint64; !kit.Less(hi.Hash(), hi.Target); hi.Nonce-- {
	}
	// a coinbase paying all it may in one output, another height than its block's
	cbx := kit.Coinbase(math.MaxUint64, 1000, 7)
	add := func(kind, name string, v any) { r.list = append(r.list, entity{kind, name, "", v}) }
	for _, k := range []*kit.Blk{a1, a2, a3, b1} {
		for i, t := range k.Txs {
			add("tx", fmt.Sprintf("%s.tx%d", k.Name, i), t)
		}
		for i, m := range k.Merkles {
			add("merkle", fmt.Sprintf("%s.m%d", k.Name, i), m)
		}
		add("block", k.Name, k.B)
	}
	add("tx", "late", late)
	add("tx", "late2", late2)
	add("tx", "cbx", cbx)
	add("merkle", "alone", core.MerkleNode{LChild: late.Hash(), RChild: late.Hash()})
	add("merkle", "pair", core.MerkleNode{LChild: late.Hash(), RChild: late2.Hash()})
	add("block", "Bhi", hi)
	seen := map[H]bool{}
	out := r.list[:0]
	for _, e := range r.list {
		if !seen[e.id()] {
			seen[e.id()] = true
			out = append(out, e)
		}
	}
	r.list = out
	recordsOnce = r
	return r
}

func storeEntity(i *inv.Inv, e entity) error {
	switch v := e.v.(type) {
	case core.Tx:
		return i.StoreTx(v)
	case core.MerkleNode:
		return i.StoreMerkle(v)
	case core.Block:
		return i.StoreBlock(v)
	}
	panic("kind")
}

func hasEntity(i *inv.Inv, e entity) bool {
	switch e.v.(type) {
	case core.Tx:
		return i.HasTx(e.id())
	case core.MerkleNode:
		return i.HasMerkle(e.id())
	}
	return i.HasBlock(e.id())
}

// readEntity describes everything the inventory says about a stored entity.
func readEntity(i *inv.Inv, e entity) string {
	id := e.id()
	switch e.v.(type) {
	case core.Tx:
		return fmt.Sprint(entity{kind: "tx", v: i.GetTx(id)}.norm(), " size ", i.GetTxVSize(id))
	case core.MerkleNode:
		return fmt.Sprint(entity{kind: "merkle", v: i.GetMerkle(id)}.norm(), " size ", i.GetMerkleVSize(id))
	}
	return fmt.Sprint(entity{kind: "block", v: i.GetBlock(id)}.norm(), " height ", i.GetBlockHeight(id), " work ", i.GetBlockTotalWork(id))
}

// want is what readEntity must say.
func (r *records) want(e entity) string {
	s := e.norm()
	switch v := e.v.(type) {
	case core.Tx:
		return fmt.Sprint(s, " size ", kit.TxVSize(v))
	case core.MerkleNode:
		return fmt.Sprint(s, " size ", r.u.Ref.Size(e.id()))
	}
	return fmt.Sprint(s, " height ", r.u.Ref.Height(e.id()), " work ", kit.FromBig(r.u.Ref.Work(e.id())))
}

// known completes the reference with the entities outside the universe's chains.
func (r *records) complete() {
	for _, e := range r.list {
		switch v := e.v.(type) {
		case core.Tx:
			r.u.Ref.Tx[e.id()] = v
		case core.MerkleNode:
			r.u.Ref.Mk[e.id()] = v
		case core.Block:
			r.u.Ref.Bl[e.id()] = v
		}
	}
}

// process runs f in a fresh process on the files; false if it panicked.
func (r *records) process(x *mcx.X, fs *mcrt.FS, f func(i *inv.Inv)) (bool, any) {
	mn := x.S.NewNode("p", "10.0.0.1")
	mn.FS = fs
	dir := "/Data-1"
	ok, pv := x.S.CallNode(mn, "inv", func() { f(inv.NewInv(r.u.P, &dir)) })
	x.S.KillNode(mn)
	return ok, pv
}

// stored stores everything and returns the files and each entity's file.
func (r *records) stored(x *mcx.X) (*mcrt.FS, []string) {
	r.complete()
	fs := mcrt.NewFS()
	paths := make([]string, len(r.list))
	have := map[string]bool{}
	ok, pv := r.process(x, fs, func(i *inv.Inv) {
		for _, p := range fs.Paths() {
			have[p] = true
		}
		for k, e := range r.list {
			if err := storeEntity(i, e); err != nil {
				x.Fail("refused", "storing %s: %v", e.name, err)
			}
			for _, p := range fs.Paths() {
				if !have[p] && !fs.Files[p].Dir {
					have[p] = true
					paths[k] = p
				}
			}
		}
		for _, e := range r.list {
			if !hasEntity(i, e) || readEntity(i, e) != r.want(e) {
				x.Fail("stored", "%s reads back as %s instead of %s", e.name, readEntity(i, e), r.want(e))
			}
		}
	})
	if !ok {
		x.Fail("panic", "storing: %v", pv)
	}
	return fs, paths
}

// damage is one way to spoil a file.
type damage struct {
	name string
	data []byte
}

func damages(d []byte, thorough bool) (out []damage) {
	add := func(n string, b []byte) { out = append(out, damage{n, b}) }
	cat := func(p ...[]byte) (b []byte) {
		for _, x := range p {
			b = append(b, x...)
		}
		return
	}
	for i := 0; i < len(d); i++ {
		add(fmt.Sprintf("first %d bytes", i), d[:i])
		add(fmt.Sprintf("first %d bytes and zeroes", i), cat(d[:i], make([]byte, len(d)-i)))
		add(fmt.Sprintf("last %d bytes", i), d[len(d)-i:])
		add(fmt.Sprintf("without byte %d", i), cat(d[:i], d[i+1:]))
		vals := []byte{d[i] ^ 1, d[i] ^ 2, d[i] ^ 0x80, '\n', 0, '0', ' '}
		if thorough {
			vals = nil
			for b := 0; b < 256; b++ {
				vals = append(vals, byte(b))
			}
		}
		for _, b := range vals {
			if b != d[i] {
				add(fmt.Sprintf("byte %d set to %q", i, b), cat(d[:i], []byte{b}, d[i+1:]))
			}
			if b == '\n' || b == '0' || b == d[i]^1 || thorough && b >= '0' && b <= '9' {
				add(fmt.Sprintf("%q before byte %d", b, i), cat(d[:i], []byte{b}, d[i:]))
			}
		}
		if i > 0 && d[i] != d[i-1] {
			add(fmt.Sprintf("bytes %d and %d exchanged", i-1, i), cat(d[:i-1], []byte{d[i], d[i-1]}, d[i+1:]))
		}
	}
	lines := strings.SplitAfter(string(d), "\n")
	for i := range lines {
		ls := append(append([]string{}, lines[:i]...), lines[i+1:]...)
		add(fmt.Sprintf("without line %d", i), []byte(strings.Join(ls, "")))
		for j := i + 1; j < len(lines); j++ {
			ls := append([]string{}, lines...)
			ls[i], ls[j] = ls[j], ls[i]
			add(fmt.Sprintf("lines %d and %d exchanged", i, j), []byte(strings.Join(ls, "")))
			if thorough {
				ls = append(append([]string{}, lines[:i]...), lines[j:]...)
				add(fmt.Sprintf("without lines %d to %d", i, j-1), []byte(strings.Join(ls, "")))
			}
		}
	}
	add("twice its contents", cat(d, d))
	add("a newline after it", cat(d, []byte("\n")))
	add("a newline before it", cat([]byte("\n"), d))
	add("a digit after it", cat(d, []byte("0")))
	add("a zero byte after it", cat(d, []byte{0}))
	return
}

// judgeFiles reads everything in a fresh process: each entity is absent or as stored; absent ones can
// be stored again.
func (r *records) judgeFiles(x *mcx.X, fs *mcrt.FS, what string, spoilt int, others bool) {
	x.Count("damaged files", 1)
	ok, pv := r.process(x, fs, func(i *inv.Inv) {
		for k, e := range r.list {
			if k != spoilt && !others {
				continue
			}
			if !hasEntity(i, e) {
				if k != spoilt {
					x.Fail("lost", "%s, %s is gone", what, e.name)
				}
				if err := storeEntity(i, e); err != nil {
					x.Fail("again", "%s, it is absent but cannot be stored again: %v", what, err)
					continue
				}
			}
			if got := readEntity(i, e); got != r.want(e) {
				x.Fail("different", "%s, %s reads as %s instead of %s", what, e.name, got, r.want(e))
			}
		}
	})
	if !ok {
		x.Fail("panic", "%s, reading panics: %v", what, pv)
	}
	if x.Failed() {
		return
	}
	// and once more from the files
	ok, pv = r.process(x, fs, func(i *inv.Inv) {
		e := r.list[spoilt]
		if !hasEntity(i, e) {
			x.Fail("again", "%s, after storing it again it is absent", what)
		} else if got := readEntity(i, e); got != r.want(e) {
			x.Fail("different", "%s, %s reads as %s instead of %s after storing it again", what, e.name, got, r.want(e))
		}
	})
	if !ok {
		x.Fail("panic", "%s, reading again panics: %v", what, pv)
	}
}

type hKey = core.HashT

// roundTrip stores one record in a disk map and reads it in a fresh process.
func roundTrip[V fmt.Stringer](x *mcx.X, name string, v V, parse func(string) (V, error), show func(V) string) {
	fs := mcrt.NewFS()
	keys := []hKey{{}, v1Hash("1"), v1Hash(name)}
	for p := 0; p < 2; p++ {
		mn := x.S.NewNode("p", "10.0.0.1")
		mn.FS = fs
		ok, pv := x.S.CallNode(mn, "map", func() {
			m := disksyncmap.NewDiskSyncMap[hKey, V]("/Data-1/x", parse)
			for _, k := range keys {
				if m.Has(k) != (p == 1) {
					x.Fail("stored", "%s: present before storing or absent after", name)
					return
				}
				if p == 0 {
					m.Store(k, v)
				}
				if got := show(m.Get(k)); got != show(v) {
					x.Fail("stored", "%s reads back as %s instead of %s", name, got, show(v))
				}
			}
		})
		if !ok {
			x.Fail("panic", "%s: %v", name, pv)
		}
		x.S.KillNode(mn)
	}
	x.Count("records written and read", 1)
}

func v1Hash(s string) H { return kit.DH([]byte(s)) }

func c15(tier string) []mcx.Scenario {
	thorough := tier == "thorough"
	ints := []uint64{0, 1, 9, 10, math.MaxInt64, 1 << 63, math.MaxUint64}
	hx := func(b string) H { return kit.HashHex(strings.Repeat(b, 32)) }
	hashes := []H{hx("00"), hx("01"), hx("0a"), v1Hash("q"), hx("ff")}
	blobs := [][]byte{{}, {0}, {255, 254}, {'\n', '\n'}, []byte("sum x\n"), make([]byte, 91)}
	return []mcx.Scenario{
		{Name: "damaged-file", Body: func(x *mcx.X) {
			r := theRecords()
			x.Count("entities", 0)
			k := x.Pick(len(r.list))
			fs, paths := r.stored(x)
			if x.Failed() {
				return
			}
			part := x.Pick(16)
			e := r.list[k]
			if paths[k] == "" {
				x.Fail("stored", "%s has no file", e.name)
				return
			}
			for j, d := range damages(fs.Files[paths[k]].Data, thorough) {
				if j%16 != part {
					continue
				}
				f := fs.Clone()
				f.Files[paths[k]].Data = append([]byte(nil), d.data...)
				r.judgeFiles(x, f, fmt.Sprintf("the file of %s left as %s", e.name, d.name), k, j < 16)
				if x.Failed() {
					return
				}
			}
			x.State(mcx.Hash(k, part), false)
		}},
		{Name: "foreign-file", Body: func(x *mcx.X) {
			r := theRecords()
			k := x.Pick(len(r.list))
			fs, paths := r.stored(x)
			if x.Failed() {
				return
			}
			for j := range r.list {
				if j == k {
					continue
				}
				f := fs.Clone()
				f.Files[paths[k]].Data = append([]byte(nil), fs.Files[paths[j]].Data...)
				r.judgeFiles(x, f, fmt.Sprintf("the file of %s replaced by that of %s", r.list[k].name, r.list[j].name), k, true)
				if x.Failed() {
					return
				}
				// the files of two entities exchanged
				f = fs.Clone()
				f.Files[paths[k]].Data, f.Files[paths[j]].Data = f.Files[paths[j]].Data, f.Files[paths[k]].Data
				if paths[k] != paths[j] {
					ok, pv := r.process(x, f, func(i *inv.Inv) {
						for _, q := range []int{k, j} {
							if e := r.list[q]; hasEntity(i, e) && readEntity(i, e) != r.want(e) {
								x.Fail("different", "after exchanging the files of %s and %s, %s reads as %s", r.list[k].name, r.list[j].name, e.name, readEntity(i, e))
							}
						}
					})
					if !ok {
						x.Fail("panic", "after exchanging the files of %s and %s, reading panics: %v", r.list[k].name, r.list[j].name, pv)
					}
				}
			}
			f := fs.Clone()
			delete(f.Files, paths[k])
			r.judgeFiles(x, f, "without the file of "+r.list[k].name, k, true)
			f = fs.Clone()
			r.judgeFiles(x, f, "with all files intact", k, true)
		}},
		{Name: "extreme-blocks", Body: func(x *mcx.X) {
			b := inv.BlockRecord{Block: core.Block{PrevBlockId: hashes[x.Pick(len(hashes))], MerkleRoot: hashes[x.Pick(len(hashes))]}}
			n, t, h := ints[x.Pick(len(ints))], ints[x.Pick(len(ints))], ints[x.Pick(len(ints))]
			for _, tg := range hashes {
				b.Block.Target, b.Block.Noise, b.TotalWork = tg, hashes[4], hashes[3]
				b.Block.Nonce, b.Block.MinedTime, b.Height = n, t, h
				if n == h {
					b.Block.Noise, b.TotalWork = hashes[1], tg
				}
				roundTrip(x, "block", b, inv.BlockRecordFromString, func(b inv.BlockRecord) string { return fmt.Sprint(b.Block, b.Height, b.TotalWork) })
			}
		}},
		{Name: "extreme-merkles", Body: func(x *mcx.X) {
			m := inv.MerkleRecord{Merkle: core.MerkleNode{LChild: hashes[x.Pick(len(hashes))], RChild: hashes[x.Pick(len(hashes))]}, VSize: ints[x.Pick(len(ints))]}
			roundTrip(x, "merkle", m, inv.MerkleRecordFromString, func(m inv.MerkleRecord) string { return fmt.Sprint(m.Merkle, m.VSize) })
		}},
		{Name: "extreme-txs", Body: func(x *mcx.X) {
			t := inv.TxRecord{VSize: ints[x.Pick(len(ints))], Tx: core.Tx{IsCoinbase: x.Pick(2) == 1, MinBlock: ints[x.Pick(len(ints))]}}
			for n := x.Pick(3); n > 0; n-- {
				t.Tx.Inputs = append(t.Tx.Inputs, core.TxIn{Utxo: core.Utxo{TxId: hashes[n], Ind: t.Tx.MinBlock + uint64(n), Value: ints[6] - uint64(n)},
					PublicKey: blobs[x.Pick(len(blobs))], Signature: blobs[x.Pick(len(blobs))]})
			}
			for n := 1 + x.Pick(2); n > 0; n-- {
				t.Tx.Outputs = append(t.Tx.Outputs, core.TxOut{Value: ints[6-n], PublicKeyHash: hashes[5-n]})
			}
			roundTrip(x, "tx", t, inv.TxRecordFromString, func(t inv.TxRecord) string { return fmt.Sprint(entity{kind: "tx", v: t.Tx}.norm(), t.VSize) })
		}},
		{Name: "many-inputs-and-outputs", Body: func(x *mcx.X) {
			ns := []int{0, 3, 9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000}
			n, m := ns[x.Pick(len(ns))], ns[x.Pick(len(ns))]
			t := inv.TxRecord{VSize: uint64(n), Tx: core.Tx{MinBlock: 7}}
			for i := 0; i < n; i++ {
				t.Tx.Inputs = append(t.Tx.Inputs, core.TxIn{Utxo: core.Utxo{TxId: hashes[i%5], Ind: uint64(i), Value: uint64(n * i)},
					PublicKey: []byte{byte(i), byte(i >> 8), 1}, Signature: []byte{byte(i >> 8), byte(i), 2}})
			}
			for i := 0; i < m; i++ {
				t.Tx.Outputs = append(t.Tx.Outputs, core.TxOut{Value: uint64(m * i), PublicKeyHash: v1Hash(fmt.Sprint(i))})
			}
			roundTrip(x, "tx", t, inv.TxRecordFromString, func(t inv.TxRecord) string { return fmt.Sprint(entity{kind: "tx", v: t.Tx}.norm(), t.VSize) })
		}},
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C15", Scenarios: c15,
		Rule:        "every entity of a universe with boundary values stored by the real inventory and read by fresh processes; every single-byte change (of a set of values), deletion, insertion and exchange, every truncation at either end, every line dropped or exchanged, and every other entity's record in its place; records with every combination of boundary field values",
		Assumptions: []string{"the file system is simulated: files hold what was written, apart from the damage enumerated"}})
}
