package kit

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// Raw is a peer written independently of the code under test. It follows the protocol, except at
// the one send that Dev alters.
type Raw struct {
	X     *mcx.X
	U     *Uni
	N     *mcrt.Node
	E     *mcrt.End
	Init  bool // it opened the connection
	ID    string
	Up    bool   // the handshake is done
	Other string // runtime id of the other side
	Gone  bool   // the connection ended
	Err   string // what the other side did wrong
	Note  string // where it was when the connection ended
	Head  *Blk
	Have  map[H]bool // entities and blocks it has
	Addrs map[string]string
	Log   []string          // what it was told: "announce ADDR", "request", "close", "tx ID", "head ID"
	Got   map[string]string // last addresses received
	GotN  int               // how many lists were received
	Wait  int64             // how long it waits for an expected message

	Armed bool
	ArmUp bool // arm once the handshake is done
	Kinds []Deviation
	Did   []string // deviations so far
	Sends int
	Mute  bool // stop reading and answering

	bl map[H]core.Block
	mk map[H]core.MerkleNode
	tx map[H]core.Tx
	ks map[H]*Blk

	todo []func()
	busy bool
	stop bool
}

// Deviation replaces one send.
type Deviation struct {
	Name string
	F    func(r *Raw, b []byte)
}

type rawEnd struct{ why string }

// NewRaw creates a peer in its own process.
func NewRaw(x *mcx.X, u *Uni, name, ip, id string) *Raw {
	return NewRawOn(x, u, x.S.NewNode(name, ip), id)
}

// NewRawOn is NewRaw in an existing process.
func NewRawOn(x *mcx.X, u *Uni, n *mcrt.Node, id string) *Raw {
	return &Raw{bl: map[H]core.Block{}, mk: map[H]core.MerkleNode{}, tx: map[H]core.Tx{}, ks: map[H]*Blk{}, X: x, U: u, N: n, ID: id, Have: map[H]bool{}, Addrs: map[string]string{}, Wait: 100 * Sec}
}

// Adopt makes it know the chain to k and follow it.
func (r *Raw) Adopt(k *Blk) {
	r.Head = nil
	if k != nil {
		r.Follow(r.U.Chain(k)...)
	}
}

// Follow makes it know the given blocks, its head being the last.
func (r *Raw) Follow(ks ...*Blk) {
	for _, b := range ks {
		r.Head = b
		r.Have[b.ID] = true
		r.bl[b.ID], r.ks[b.ID] = b.B, b
		for _, m := range b.Merkles {
			r.Have[m.Hash()] = true
			r.mk[m.Hash()] = m
		}
		for _, t := range b.Txs {
			r.Have[t.Hash()] = true
			r.tx[t.Hash()] = t
		}
	}
}

// Dial connects to addr and runs.
func (r *Raw) Dial(ip string) {
	r.Init = true
	r.X.S.GoNode(r.N, "raw", func() {
		r.E, _ = mcrt.NetDial(ip, 21720, mcrt.Now()+5*Sec)
		if r.E == nil {
			r.Gone, r.Note = true, "could not connect"
			return
		}
		r.run()
	})
}

// Listen waits for one connection and runs.
func (r *Raw) Listen() {
	r.X.S.GoNode(r.N, "raw", func() {
		l, e := mcrt.NetListen(r.N.IP, 21720)
		if e != mcrt.NetOK {
			r.Err = "cannot listen"
			return
		}
		r.E, _ = l.Accept()
		r.run()
	})
}

func (r *Raw) run() {
	r.guard(func() { r.handshake() })
	for !r.stop && !r.Gone {
		if r.Mute {
			mcrt.Sleep(20 * Ms)
			continue
		}
		if len(r.todo) > 0 {
			f := r.todo[0]
			r.todo = r.todo[1:]
			r.busy = true
			r.guard(f)
			r.busy = false
			continue
		}
		r.guard(func() {
			r.E.SetReadDeadline(mcrt.Now() + 20*Ms)
			b := make([]byte, 1)
			if _, e := r.E.Read(b); e == mcrt.NetTimeout {
				return
			} else if e != mcrt.NetOK {
				panic(rawEnd{"idle"})
			}
			r.react(string(r.frame(b)))
		})
	}
	r.E.Close()
}

// guard runs f until the connection ends.
func (r *Raw) guard(f func()) {
	defer func() {
		if v := recover(); v != nil {
			e, ok := v.(rawEnd)
			if !ok {
				panic(v)
			}
			r.Gone, r.Note = true, e.why
		}
	}()
	f()
}

// Do queues something to do and waits until it is done (or the peer is gone).
func (r *Raw) Do(f func(), limit int64) bool {
	done := false
	r.todo = append(r.todo, func() { f(); done = true })
	mcrt.ParkUntil(func() bool { return done || r.Gone || r.Mute }, mcrt.Now()+limit)
	return done
}

// Leave says goodbye and closes the connection.
func (r *Raw) Leave() {
	r.Do(func() { r.Out(Str("cmd:close")) }, 5*Sec)
	r.Hangup()
}

// Hangup closes the connection.
func (r *Raw) Hangup() {
	r.stop = true
	if r.E != nil {
		r.E.Close()
	}
}

// Out sends bytes, one unit of the protocol.
func (r *Raw) Out(b []byte) {
	if r.Armed && r.Kinds != nil {
		r.Sends++
		// which deviation, if any, is a decision of the environment
		r.X.S.Explore(true)
		k := mcrt.ChooseEnv(len(r.Kinds) + 1)
		r.X.S.Explore(false)
		if k > 0 {
			r.Did = append(r.Did, fmt.Sprintf("%s at send %d", r.Kinds[k-1].Name, r.Sends))
			r.Kinds[k-1].F(r, b)
			return
		}
	}
	r.Raw(b)
}

// Raw sends bytes as they are.
func (r *Raw) Raw(b []byte) {
	if len(b) == 0 {
		return
	}
	r.E.SetWriteDeadline(mcrt.Now() + 30*Sec)
	if _, e := r.E.Write(b); e != mcrt.NetOK {
		panic(rawEnd{"send"})
	}
}

// Stop never sends or reads again.
func (r *Raw) Stop() { r.Mute = true; panic(rawEnd{"muted"}) }

func (r *Raw) in(n int) []byte {
	b := make([]byte, n)
	got := 0
	for got < n {
		r.E.SetReadDeadline(mcrt.Now() + r.Wait)
		k, e := r.E.Read(b[got:])
		got += k
		if e == mcrt.NetTimeout {
			r.wrong("sent nothing for %d s while expected to", r.Wait/Sec)
		}
		if e != mcrt.NetOK {
			panic(rawEnd{"receive"})
		}
	}
	return b
}

func (r *Raw) frame(first []byte) []byte {
	if first == nil {
		first = r.in(1)
	}
	n := int(first[0])<<8 | int(r.in(1)[0])
	return r.in(n)
}

func (r *Raw) str() string { return string(r.frame(nil)) }
func (r *Raw) u64() uint64 { return binary.BigEndian.Uint64(r.in(8)) }
func (r *Raw) hash() H     { return core.NewHashTFromBytes(r.in(32)) }
func (r *Raw) bool() bool {
	b := r.in(1)[0]
	if b > 1 {
		r.wrong("sent a boolean %d", b)
	}
	return b == 1
}

func (r *Raw) wrong(f string, a ...any) {
	if r.Err == "" {
		r.Err = fmt.Sprintf(f, a...)
	}
	panic(rawEnd{"gave up"})
}

func (r *Raw) expect(s string) {
	if g := r.str(); g != s {
		r.wrong("sent %q instead of %q", g, s)
	}
}

// Encodings of the protocol's units.
func Str(s string) []byte { return append([]byte{byte(len(s) >> 8), byte(len(s))}, s...) }
func U64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }
func Hb(h H) []byte       { d := h.Data(); return d[:] }
func Bl(v bool) []byte {
	if v {
		return []byte{1}
	}
	return []byte{0}
}

// TxUnits lists the units a transaction is sent as.
func TxUnits(t core.Tx) (out [][]byte) {
	out = append(out, Bl(t.IsCoinbase), U64(t.MinBlock), U64(uint64(len(t.Inputs))), U64(uint64(len(t.Outputs))))
	for _, i := range t.Inputs {
		out = append(out, Hb(i.Utxo.TxId), U64(i.Utxo.Ind), U64(i.Utxo.Value), Str(string(i.PublicKey)), Str(string(i.Signature)))
	}
	for _, o := range t.Outputs {
		out = append(out, U64(o.Value), Hb(o.PublicKeyHash))
	}
	return
}

// BlockUnits lists the units a block is sent as.
func BlockUnits(b core.Block) [][]byte {
	return [][]byte{Hb(b.PrevBlockId), Hb(b.MerkleRoot), Hb(b.Target), Hb(b.Noise), U64(b.Nonce), U64(b.MinedTime)}
}

func (r *Raw) outs(us [][]byte) {
	for _, u := range us {
		r.Out(u)
	}
}

func (r *Raw) inTx() (t core.Tx) {
	t.IsCoinbase = r.bool()
	t.MinBlock = r.u64()
	ni, no := r.u64(), r.u64()
	for k := uint64(0); k < ni; k++ {
		t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: r.hash(), Ind: r.u64(), Value: r.u64()}, PublicKey: r.frame(nil), Signature: r.frame(nil)})
	}
	for k := uint64(0); k < no; k++ {
		t.Outputs = append(t.Outputs, core.TxOut{Value: r.u64(), PublicKeyHash: r.hash()})
	}
	return
}

func (r *Raw) inBlock() core.Block {
	return core.Block{PrevBlockId: r.hash(), MerkleRoot: r.hash(), Target: r.hash(), Noise: r.hash(), Nonce: r.u64(), MinedTime: r.u64()}
}

func (r *Raw) handshake() {
	r.Out(Str("levilutz/basiccoin"))
	r.Out(Str("v0.0.0"))
	r.Out(Str(r.ID))
	r.expect("levilutz/basiccoin")
	r.expect("v0.0.0")
	r.Other = r.str()
	r.Out(Str("continue"))
	if s := r.str(); s != "continue" {
		r.Log = append(r.Log, "refused: "+s)
		panic(rawEnd{"refused"})
	}
	r.Up = true
	r.Armed = r.Armed || r.ArmUp
	if r.Init {
		r.Cmd("sync-chain", r.sync)
	}
}

// Cmd issues a command the way the protocol prescribes.
func (r *Raw) Cmd(name string, h func()) {
	r.Out(Str("cmd:" + name))
	s := r.str()
	if s == "cmd:close" {
		r.closed()
	}
	if s == "ack:"+name {
		h()
		return
	}
	if !strings.HasPrefix(s, "cmd:") {
		r.wrong("answered %q to %s", s, name)
	}
	if r.Init {
		r.react(s)
		s = r.str()
		if s == "cmd:close" {
			r.closed()
		}
		if s != "ack:"+name {
			r.wrong("answered %q to %s", s, name)
		}
		h()
	} else {
		r.expect("ack:" + name)
		h()
		r.react(s)
	}
}

func (r *Raw) closed() {
	r.Log = append(r.Log, "close")
	panic(rawEnd{"told to close"})
}

// react handles a command of the other side.
func (r *Raw) react(s string) {
	if s == "cmd:close" {
		r.closed()
	}
	if !strings.HasPrefix(s, "cmd:") {
		r.wrong("sent %q as a command", s)
	}
	c := s[4:]
	r.Out(Str("ack:" + c))
	switch c {
	case "ping":
	case "announce-addr":
		r.Log = append(r.Log, "announce "+r.str())
	case "addrs-request":
		r.Log = append(r.Log, "request")
		r.todo = append(r.todo, func() { r.Cmd("peer-addrs", r.sendAddrs) })
	case "peer-addrs":
		n := r.u64()
		r.Got = map[string]string{}
		for ; n > 0; n-- {
			id := r.str()
			r.Got[id] = r.str()
		}
		r.GotN++
	case "new-tx":
		id := r.hash()
		r.Log = append(r.Log, "tx "+r.U.Name(id))
		if r.Have[id] {
			r.Out(Bl(false))
			break
		}
		r.Out(Bl(true))
		if t := r.inTx(); t.Hash() != id {
			r.wrong("sent another transaction than announced")
		}
		r.Have[id] = true
	case "sync-chain":
		r.sync()
	default:
		r.wrong("sent the unknown command %q", c)
	}
}

func (r *Raw) sendAddrs() {
	r.Out(U64(uint64(len(r.Addrs))))
	var ids []string
	for id := range r.Addrs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		r.Out(Str(id))
		r.Out(Str(r.Addrs[id]))
	}
}

// SendAddrs, Announce, Request, Ping, Tx and Sync issue commands.
func (r *Raw) SendAddrs()        { r.Cmd("peer-addrs", r.sendAddrs) }
func (r *Raw) Announce(a string) { r.Cmd("announce-addr", func() { r.Out(Str(a)) }) }
func (r *Raw) Request()          { r.Cmd("addrs-request", func() {}) }
func (r *Raw) Ping()             { r.Cmd("ping", func() {}) }
func (r *Raw) Sync()             { r.Cmd("sync-chain", r.sync) }
func (r *Raw) Tx(t core.Tx) {
	id := t.Hash()
	r.Have[id] = true
	r.Cmd("new-tx", func() {
		r.Out(Hb(id))
		if r.bool() {
			r.outs(TxUnits(t))
		}
	})
}

func (r *Raw) headID() H {
	if r.Head == nil {
		return H{}
	}
	return r.Head.ID
}

func (r *Raw) workOf(id H) H {
	w := new(big.Int)
	for (id != H{}) {
		b := r.bl[id]
		w.Add(w, new(big.Int).Div(two256m1, Big(b.Target)))
		id = b.PrevBlockId
	}
	return FromBig(w)
}

func (r *Raw) sync() {
	me, mine := r.headID(), r.workOf(r.headID())
	r.Out(Hb(mine))
	r.Out(Hb(me))
	theirs, their := r.hash(), r.hash()
	if theirs == mine || (Less(mine, theirs) && r.Have[their]) {
		r.Out(Str("cancel"))
		r.str()
		return
	}
	r.Out(Str("continue"))
	s := r.str()
	if s == "cancel" {
		return
	}
	if s != "continue" {
		r.wrong("answered %q while synchronising", s)
	}
	if Less(theirs, mine) {
		r.Out(Str("sync:send"))
		r.expect("sync:recv")
		id := me
		var need []H
		r.Out(Hb(id))
		for !r.bool() {
			need = append(need, id)
			if (id == H{}) {
				r.wrong("does not know the empty chain")
			}
			id = r.bl[id].PrevBlockId
			r.Out(Hb(id))
		}
		if len(need) == 0 {
			return
		}
		for _, id := range need {
			r.outs(BlockUnits(r.bl[id]))
		}
		if !r.bool() {
			r.wrong("refused a valid chain")
		}
		for {
			id := r.hash()
			if (id == H{}) {
				break
			}
			if m, ok := r.mk[id]; ok {
				r.Out(Bl(false))
				r.Out(Hb(m.LChild))
				r.Out(Hb(m.RChild))
			} else if t, ok := r.tx[id]; ok {
				r.Out(Bl(true))
				r.outs(TxUnits(t))
			} else {
				r.wrong("asked for an unknown entity")
			}
		}
		r.expect("complete")
		return
	}
	r.Out(Str("sync:recv"))
	r.expect("sync:send")
	id := r.hash()
	head := id
	var need []H
	for (id != H{}) && !r.Have[id] {
		need = append(need, id)
		r.Out(Bl(false))
		id = r.hash()
	}
	r.Out(Bl(true))
	if len(need) == 0 {
		return
	}
	var q []H
	got := map[H]core.Block{}
	for _, id := range need {
		b := r.inBlock()
		if b.Hash() != id {
			r.wrong("sent another block than listed")
		}
		got[id] = b
		q = append(q, b.MerkleRoot)
	}
	r.Out(Bl(true))
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		if r.Have[id] {
			continue
		}
		r.Out(Hb(id))
		if r.bool() {
			t := r.inTx()
			if t.Hash() != id {
				r.wrong("sent another transaction than asked for")
			}
			r.tx[id] = t
		} else {
			m := core.MerkleNode{LChild: r.hash(), RChild: r.hash()}
			if m.Hash() != id {
				r.wrong("sent another merkle node than asked for")
			}
			r.mk[id] = m
			q = append(q, m.LChild, m.RChild)
		}
		r.Have[id] = true
	}
	r.Out(Hb(H{}))
	r.Out(Str("complete"))
	for _, id := range need {
		r.Have[id] = true
		r.bl[id] = got[id]
	}
	r.Log = append(r.Log, "head "+r.U.Name(head))
	for _, k := range r.U.Blks {
		if k.ID == head {
			r.Head = k
		}
	}
}

// Host is an independent peer that may have several connections.
type Host struct {
	X     *mcx.X
	U     *Uni
	N     *mcrt.Node
	ID    string
	Addrs map[string]string
	All   []*Raw
}

func NewHost(x *mcx.X, u *Uni, ip, id string) *Host {
	return &Host{X: x, U: u, N: x.S.NewNode(id, ip), ID: id}
}

func (h *Host) session() *Raw {
	r := NewRawOn(h.X, h.U, h.N, h.ID)
	if h.Addrs != nil {
		r.Addrs = h.Addrs
	}
	h.All = append(h.All, r)
	return r
}

// Dial opens a connection.
func (h *Host) Dial(ip string) *Raw {
	r := h.session()
	r.Dial(ip)
	return r
}

// Listen accepts connections.
func (h *Host) Listen() {
	h.X.S.GoNode(h.N, "listen", func() {
		l, e := mcrt.NetListen(h.N.IP, 21720)
		if e != mcrt.NetOK {
			return
		}
		for {
			c, e := l.Accept()
			if e != mcrt.NetOK {
				return
			}
			r := h.session()
			r.E = c
			h.X.S.GoNode(h.N, "raw", r.run)
		}
	})
}

// Live lists the connections that are set up and not ended.
func (h *Host) Live() (out []*Raw) {
	for _, r := range h.All {
		if r.Up && !r.Gone && !r.stop {
			out = append(out, r)
		}
	}
	return
}

// Stopped: it hung up itself.
func (r *Raw) Stopped() bool { return r.stop }
