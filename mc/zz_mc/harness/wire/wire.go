// Package wire checks the connection layer: framing, typed messages and the handshake.
package wire

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
	vnet "github.com/levilutz/basiccoin/zz_mc/shim/net"
)

type H = core.HashT

const ms = int64(1_000_000)
const sec = 1000 * ms

// Handshake is what an honest counterpart with the given id sends.
func Handshake(id string) []byte {
	var b []byte
	for _, s := range []string{"levilutz/basiccoin", "v0.0.0", id, "continue"} {
		b = append(b, Frame([]byte(s))...)
	}
	return b
}

// Frame is a message with its length.
func Frame(d []byte) []byte {
	return append([]byte{byte(len(d) >> 8), byte(len(d))}, d...)
}

// listenOne accepts one connection on node n and hands it over.
func listenOne(x *mcx.X, n *mcrt.Node, got func(c *vnet.TCPConn)) {
	var l *vnet.TCPListener
	x.S.CallNode(n, "listen", func() {
		l, _ = vnet.ListenTCP("tcp", &vnet.TCPAddr{IP: vnet.ParseIP(n.IP), Port: 21720})
	})
	x.S.GoNode(n, "accept", func() {
		c, err := l.AcceptTCP()
		if err == nil {
			got(c)
		}
	})
}

// Pair connects two real connection ends.
func Pair(x *mcx.X) (a, b *prot.Conn) {
	na, nb := x.S.NewNode("a", "10.0.0.1"), x.S.NewNode("b", "10.0.0.2")
	x.S.Explore(false)
	listenOne(x, nb, func(c *vnet.TCPConn) { b = prot.NewConn(prot.NewParams("bb", false, false), c) })
	x.S.CallNode(na, "dial", func() {
		c, err := prot.ResolveConn(prot.NewParams("aa", true, false), "10.0.0.2:21720")
		if err == nil {
			a = c
		}
	})
	mcrt.Sleep(50 * ms)
	if a == nil || b == nil || a.HasErr() || b.HasErr() {
		x.Fail("no connection", "two ends could not connect")
		return nil, nil
	}
	return
}

// RawPair connects a real end to raw bytes.
func RawPair(x *mcx.X) (raw *mcrt.End, b *prot.Conn, nh, nb *mcrt.Node) {
	nh, nb = x.S.NewNode("raw", "10.0.0.9"), x.S.NewNode("b", "10.0.0.2")
	x.S.Explore(false)
	listenOne(x, nb, func(c *vnet.TCPConn) { b = prot.NewConn(prot.NewParams("bb", false, false), c) })
	x.S.CallNode(nh, "dial", func() {
		raw, _ = mcrt.NetDial("10.0.0.2", 21720, 0)
		if raw != nil {
			raw.Write(Handshake("raw"))
		}
	})
	mcrt.Sleep(50 * ms)
	if raw == nil || b == nil || b.HasErr() {
		x.Fail("no connection", "a counterpart following the handshake was refused")
		return nil, nil, nh, nb
	}
	return
}

// msg is something that can be sent.
type msg struct {
	name   string
	framed []byte // for plain messages
	isRaw  bool
	write  func(c *prot.Conn)
	read   func(c *prot.Conn) bool // whether it came out the same
}

func pattern(n, salt int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + salt + i>>8)
	}
	return b
}

func hx(n byte) (h H) {
	b := make([]byte, 32)
	for i := range b {
		b[i] = n + byte(i)
	}
	return core.NewHashTFromBytes(b)
}

func sameTx(a, b core.Tx) bool { return fmt.Sprintf("%v", norm(a)) == fmt.Sprintf("%v", norm(b)) }

func norm(t core.Tx) string {
	s := fmt.Sprint(t.IsCoinbase, t.MinBlock, len(t.Inputs), len(t.Outputs))
	for _, i := range t.Inputs {
		s += fmt.Sprintf("|%v %d %d %x %x", i.Utxo.TxId, i.Utxo.Ind, i.Utxo.Value, i.PublicKey, i.Signature)
	}
	for _, o := range t.Outputs {
		s += fmt.Sprintf("|%d %v", o.Value, o.PublicKeyHash)
	}
	return s
}

func messages(big bool) (out []msg) {
	add := func(m msg) { out = append(out, m) }
	for _, v := range []bool{false, true} {
		v := v
		add(msg{name: fmt.Sprint("bool ", v), write: func(c *prot.Conn) { c.WriteBool(v) }, read: func(c *prot.Conn) bool { return c.ReadBool() == v }})
	}
	for _, v := range []uint64{0, 1, 255, 256, 65535, 1 << 32, 1 << 63, math.MaxUint64, 0x0102030405060708} {
		v := v
		add(msg{name: fmt.Sprint("number ", v), write: func(c *prot.Conn) { c.WriteUint64(v) }, read: func(c *prot.Conn) bool { return c.ReadUint64() == v }})
	}
	for _, v := range []H{{}, hx(1), hx(0xf0)} {
		v := v
		add(msg{name: "hash " + v.String()[:6], write: func(c *prot.Conn) { c.WriteHashT(v) }, read: func(c *prot.Conn) bool { return c.ReadHashT() == v }})
	}
	lens := []int{0, 1, 2, 3, 255, 256, 257}
	if big {
		lens = append(lens, 4095, 32767, 32768, 65279, 65280, 65534, 65535)
	}
	for _, n := range lens {
		d := pattern(n, n)
		add(msg{name: fmt.Sprint("bytes ", n), framed: d, isRaw: true, write: func(c *prot.Conn) { c.Write(append([]byte(nil), d...)) },
			read: func(c *prot.Conn) bool { return bytes.Equal(c.Read(), d) }})
	}
	for _, s := range []string{"cmd:new-tx", "\xff\x00\xfe", "höhe"} {
		s := s
		add(msg{name: fmt.Sprintf("string %q", s), framed: []byte(s), isRaw: true, write: func(c *prot.Conn) { c.WriteString(s) },
			read: func(c *prot.Conn) bool { return c.ReadString() == s }})
	}
	add(msg{name: "expected string", framed: []byte("ack"), isRaw: true, write: func(c *prot.Conn) { c.WriteString("ack") },
		read: func(c *prot.Conn) bool { c.ReadStringExpected("ack"); return true }})
	for i, b := range []core.Block{{}, {PrevBlockId: hx(1), MerkleRoot: hx(2), Target: hx(3), Noise: hx(4), Nonce: 5, MinedTime: 6},
		{PrevBlockId: hx(9), Target: hx(8), MinedTime: math.MaxUint64, Nonce: math.MaxUint64}} {
		b := b
		add(msg{name: fmt.Sprint("block ", i), write: func(c *prot.Conn) { c.WriteBlock(b) }, read: func(c *prot.Conn) bool { return c.ReadBlock(b.Hash()) == b }})
	}
	for i, m := range []core.MerkleNode{{}, {LChild: hx(1), RChild: hx(2)}, {LChild: hx(2), RChild: hx(1)}} {
		m := m
		add(msg{name: fmt.Sprint("merkle ", i), write: func(c *prot.Conn) { c.WriteMerkle(m) }, read: func(c *prot.Conn) bool { return c.ReadMerkle(m.Hash()) == m }})
	}
	in := func(k byte, p, s int) core.TxIn {
		return core.TxIn{Utxo: core.Utxo{TxId: hx(k), Ind: uint64(k), Value: uint64(k) << 40}, PublicKey: pattern(p, 3), Signature: pattern(s, 4)}
	}
	o := func(k byte) core.TxOut { return core.TxOut{Value: uint64(k) << 50, PublicKeyHash: hx(k)} }
	txs := []core.Tx{
		{},
		{IsCoinbase: true, MinBlock: math.MaxUint64, Outputs: []core.TxOut{o(1)}},
		{MinBlock: 3, Inputs: []core.TxIn{in(1, 5, 6)}, Outputs: []core.TxOut{o(2)}},
		{MinBlock: 4, Inputs: []core.TxIn{in(1, 0, 0), in(2, 1, 0), in(3, 0, 1)}, Outputs: []core.TxOut{o(2), o(0), o(9)}},
	}
	if big {
		txs = append(txs, core.Tx{MinBlock: 4, Inputs: []core.TxIn{in(7, 65535, 256), in(8, 91, 65535)}, Outputs: []core.TxOut{}})
	}
	for i, t := range txs {
		t := t
		add(msg{name: fmt.Sprint("tx ", i), write: func(c *prot.Conn) { c.WriteTx(kit.CloneTx(t)) }, read: func(c *prot.Conn) bool { return sameTx(c.ReadTx(t.Hash()), t) }})
	}
	return
}

// wireBytes records what a message looks like on the wire.
func wireBytes(x *mcx.X, m msg) (out []byte) {
	na, nb := x.S.NewNode("rec-a", "10.9.0.1"), x.S.NewNode("rec-b", "10.9.0.2")
	x.S.Explore(false)
	var end *mcrt.End
	listenOne(x, nb, func(c *vnet.TCPConn) { end = c.E; c.E.Write(Handshake("rec")) })
	x.S.CallNode(na, "rec", func() {
		c, err := prot.ResolveConn(prot.NewParams("aa", true, false), "10.9.0.2:21720")
		if err != nil || c.HasErr() {
			return
		}
		m.write(c)
	})
	mcrt.Sleep(10 * ms)
	if end == nil {
		return nil
	}
	x.S.CallNode(nb, "rec", func() {
		b := make([]byte, 1<<18)
		n, _ := end.Read(b)
		out = b[:n]
	})
	return out[len(Handshake("aa")):]
}

func c19(tier string) []mcx.Scenario {
	all := messages(true)
	small := messages(false)
	deep := tier == "thorough"
	scns := []mcx.Scenario{
		{Name: "sequences-of-messages", Body: func(x *mcx.X) {
			i, j := x.Pick(len(all)), x.Pick(len(all))
			seq := []msg{all[i], all[j]}
			if deep {
				seq = append(seq, small[x.Pick(len(small))])
			}
			a, b := Pair(x)
			if a == nil {
				return
			}
			names := ""
			for _, m := range seq {
				names += m.name + ", "
				m.write(a)
			}
			a.WriteString("end")
			a.WriteUint64(0x55)
			if a.HasErr() {
				x.Fail("write failed", "writing %s: %v", names, a.Err())
				return
			}
			for _, m := range seq {
				ok := m.read(b)
				if b.HasErr() {
					x.Fail("read failed", "%s of %s: %v", m.name, names, b.Err())
					return
				}
				if !ok {
					x.Fail("different", "%s of %s came out different", m.name, names)
				}
			}
			if s, n := b.ReadString(), b.ReadUint64(); b.HasErr() || s != "end" || n != 0x55 {
				x.Fail("position", "after %s the reader is not at the next message", names)
			}
			x.State(mcx.Hash(names), false)
			x.Sample("%s", names)
		}},
		{Name: "many-inputs-and-outputs", Body: func(x *mcx.X) {
			ns := []int{0, 1, 2, 127, 128, 255, 256, 257, 511, 1024, 4100}
			t := core.Tx{MinBlock: 7}
			for i, n := 0, ns[x.Pick(len(ns))]; i < n; i++ {
				t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: hx(byte(i)), Ind: uint64(i), Value: uint64(i) << 20}, PublicKey: pattern(i%5, i), Signature: pattern(i%3, i)})
			}
			for i, n := 0, ns[x.Pick(len(ns))]; i < n; i++ {
				t.Outputs = append(t.Outputs, core.TxOut{Value: uint64(i), PublicKeyHash: hx(byte(i + 1))})
			}
			name := fmt.Sprintf("a transaction with %d inputs and %d outputs", len(t.Inputs), len(t.Outputs))
			a, b := Pair(x)
			if a == nil {
				return
			}
			a.WriteTx(kit.CloneTx(t))
			a.WriteString("end")
			if a.HasErr() {
				x.Fail("write failed", "writing %s: %v", name, a.Err())
				return
			}
			got := b.ReadTx(t.Hash())
			if b.HasErr() {
				x.Fail("read failed", "%s: %v", name, b.Err())
			} else if !sameTx(got, t) {
				x.Fail("different", "%s came out different", name)
			} else if s := b.ReadString(); b.HasErr() || s != "end" {
				x.Fail("position", "after %s the reader is not at the next message", name)
			}
			x.State(mcx.Hash(name), false)
		}},
		{Name: "too-long", Body: func(x *mcx.X) {
			lens := []int{65536, 65537, 65538, 65536 + 255, 65536 + 256, 131071, 131072, 131073, 1 << 20}
			n := lens[x.Pick(len(lens))]
			how := x.Pick(5)
			a, b := Pair(x)
			if a == nil {
				return
			}
			d := pattern(n, 1)
			switch how {
			case 0:
				a.Write(d)
			case 1:
				a.WriteString(string(d))
			case 2:
				a.WriteTx(core.Tx{Inputs: []core.TxIn{{PublicKey: d}}})
			case 3:
				a.WriteTx(core.Tx{Inputs: []core.TxIn{{Signature: d}}})
			case 4:
				a.WriteBool(true)
				a.Write(d)
			}
			if !a.HasErr() {
				x.Fail("accepted", "a field of %d bytes was accepted for writing", n)
				return
			}
			a.Err()
			if how < 2 || how == 4 {
				a.WriteString("end")
				if how == 4 {
					b.ReadBool()
				}
				if s := b.ReadString(); b.HasErr() || s != "end" {
					x.Fail("position", "after refusing a message of %d bytes the reader is not at the next message", n)
				}
			}
			x.State(mcx.Hash(n, how), false)
			x.Sample("length %d, way %d", n, how)
		}},
	}
	// Every way to cut the stream, with every delay between the pieces.
	delays := []int64{99 * ms, 101 * ms, 25 * sec, 35 * sec, 61 * sec}
	cutMsgs := messages(false)
	scns = append(scns, mcx.Scenario{Name: "pieces", Body: func(x *mcx.X) {
		m := cutMsgs[x.Pick(len(cutMsgs))]
		d1 := delays[x.Pick(len(delays))]
		two := x.Pick(2) == 1
		d2 := int64(0)
		if two {
			d2 = delays[1+x.Pick(len(delays)-1)]
		}
		w := wireBytes(x, m)
		if len(w) == 0 && m.framed == nil {
			x.Fail("record", "nothing was sent for %s", m.name)
			return
		}
		w = append(w, Frame([]byte("end"))...)
		pos := cutPositions(len(w), two && !deep)
		i := pos[x.Pick(len(pos))]
		j := len(w)
		if two {
			j = pos[x.Pick(len(pos))]
			if j <= i {
				return
			}
		}
		cutRun(x, m, w, []int{i, j}, []int64{d1, d2})
	}})
	scns = append(scns, mcx.Scenario{Name: "polled-large", Body: func(x *mcx.X) {
		var big []msg
		for _, m := range all {
			if m.isRaw && len(m.framed) > 256 {
				big = append(big, m)
			}
		}
		m := big[x.Pick(len(big))]
		d := delays[x.Pick(len(delays))]
		w := append(Frame(m.framed), Frame([]byte("end"))...)
		pos := []int{1, 2, 3, 200, len(m.framed), len(m.framed) + 1, len(m.framed) + 2, len(m.framed) + 3, len(m.framed) + 4, len(m.framed) + 6}
		i := pos[x.Pick(len(pos))]
		cutRun(x, m, w, []int{i, len(w)}, []int64{d, 0})
	}})
	// Both ends running, the transport delivering as it likes.
	dev := 3
	if deep {
		dev = 4
	}
	for _, cfg := range []struct {
		cap   int
		delay int64
		short bool
	}{{1 << 20, 0, true}, {3, 0, true}, {1 << 20, 120 * ms, false}, {1 << 20, 9 * sec, false}, {5, 120 * ms, true}} {
		cfg := cfg
		bound := dev
		if cfg.cap < 100 {
			bound--
		}
		scns = append(scns, mcx.Scenario{
			Name: fmt.Sprintf("concurrent-cap%d-delay%dms-short%v", cfg.cap, cfg.delay/ms, cfg.short), Bound: bound,
			Opt: func(s *mcrt.Sched) { s.ShortReads = cfg.short; s.NetDelay = cfg.delay },
			Body: func(x *mcx.X) {
				sets := [][]int{{0, 2, 11}, {14, 17, 22}, {25, 28}, {16, 33}}
				set := sets[x.Pick(len(sets))]
				a, b := Pair(x)
				if a == nil {
					return
				}
				x.S.NetCap = cfg.cap
				na, nb := x.S.Nodes[0], x.S.Nodes[1]
				wrote, read := 0, 0
				ack := ""
				x.S.Explore(true)
				x.S.GoNode(na, "writer", func() {
					for _, k := range set {
						small[k].write(a)
						a.WriteString("next")
					}
					ack = a.ReadString()
					wrote = 1
				})
				x.S.GoNode(nb, "reader", func() {
					for _, k := range set {
						m := small[k]
						if m.isRaw {
							if r, e := poll(b); e != nil || !bytes.Equal(r, m.framed) {
								x.Fail("different", "%s came out as %x (%v)", m.name, r, e)
								break
							}
						} else if ok := m.read(b); !ok || b.HasErr() {
							x.Fail("different", "%s came out different (%v)", m.name, b.Err())
							break
						}
						if r, e := poll(b); e != nil || string(r) != "next" {
							x.Fail("position", "after %s: %q (%v)", m.name, r, e)
							break
						}
					}
					b.WriteString("done")
					read = 1
				})
				mcrt.ParkUntil(func() bool { return wrote+read == 2 }, mcrt.Now()+400*sec)
				x.S.Explore(false)
				if wrote+read != 2 || ack != "done" || a.HasErr() || b.HasErr() {
					x.Fail("incomplete", "the exchange did not complete: writer %d reader %d ack %q", wrote, read, ack)
				}
				x.State(mcx.Hash(set, cfg.cap), false)
				x.Sample("%v", set)
			}})
	}
	return scns
}

// cutPositions of a stream: every one of a short stream, the ends of a long one.
func cutPositions(n int, few bool) (out []int) {
	for i := 0; i < n; i++ {
		if n <= 90 || i < 40 || i >= n-12 || i%32 < 2 {
			if few && i > 14 && i < n-10 && i%16 > 1 {
				continue
			}
			out = append(out, i)
		}
	}
	return
}

// poll waits for a plain message the way a peer's loop does.
func poll(c *prot.Conn) ([]byte, error) {
	for k := 0; k < 5000; k++ {
		r := c.ReadTimeout(100 * time.Millisecond)
		err := c.Err()
		if err == nil {
			return r, nil
		}
		if !os.IsTimeout(err) {
			return nil, err
		}
	}
	return nil, fmt.Errorf("nothing arrived")
}

// cutRun sends w in pieces and reads m and the end marker.
func cutRun(x *mcx.X, m msg, w []byte, at []int, wait []int64) {
	raw, b, nh, nb := RawPair(x)
	if raw == nil {
		return
	}
	x.S.GoNode(nh, "sender", func() {
		from := 0
		for k, p := range at {
			raw.Write(w[from:p])
			from = p
			if p < len(w) {
				mcrt.Sleep(wait[k])
			}
		}
		raw.Write(w[from:])
	})
	total := wait[0] + wait[1]
	desc := fmt.Sprintf("%s cut at %v with pauses of %v ms", m.name, at, []int64{wait[0] / ms, wait[1] / ms})
	done := false
	x.S.GoNode(nb, "reader", func() {
		defer func() { done = true }()
		if m.isRaw {
			r, e := poll(b)
			if e == nil && !bytes.Equal(r, m.framed) {
				x.Fail("different", "%s came out as %d bytes %.20x", desc, len(r), r)
			}
			if e != nil {
				if total < 30*sec {
					x.Fail("lost", "%s: %v", desc, e)
				}
				return
			}
		} else {
			ok := m.read(b)
			if e := b.Err(); e != nil {
				if total < 30*sec {
					x.Fail("lost", "%s: %v", desc, e)
				}
				return
			}
			if !ok {
				x.Fail("different", "%s came out different", desc)
			}
		}
		r, e := poll(b)
		if e == nil && string(r) != "end" {
			x.Fail("position", "%s: the next message is %d bytes %.20x", desc, len(r), r)
		}
		if e != nil && total < 30*sec {
			x.Fail("lost", "%s: end marker: %v", desc, e)
		}
	})
	mcrt.ParkUntil(func() bool { return done }, mcrt.Now()+1000*sec)
	if !done {
		x.Fail("hang", "%s: the reader does not return", desc)
	}
	x.State(mcx.Hash(desc), false)
	x.Sample("%s", desc)
}

func init() {
	mcx.Register(&mcx.Check{ID: "C19", Scenarios: c19, Seconds: 200,
		Rule:        "every message or pair of messages from the catalogue, every cut of its bytes with the listed pauses, and every schedule of a writer and a reader up to the deviation bound",
		Assumptions: []string{"the transport delivers bytes in order without loss (TCP)"}})
}
