package peers

import (
	"fmt"
	"sort"
	"strings"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// script is a conversation a peer leads, correct but for one deviation.
type script struct {
	name  string
	hello bool // deviate from the handshake on
	head  func(w *world) *kit.Blk
	evil  func(w *world) *kit.Blk // an invalid block it claims on top
	do    func(w *world, r *kit.Raw, n *kit.Node)
}

func seq(r *kit.Raw, fs ...func()) {
	for _, f := range fs {
		if r.Gone || r.Mute {
			return
		}
		r.Do(f, 200*sec)
	}
}

var scripts = []script{
	{name: "hello", hello: true, head: func(w *world) *kit.Blk { return w.a[1] }},
	{name: "ahead", head: func(w *world) *kit.Blk { return w.a[3] }},
	{name: "other-branch", head: func(w *world) *kit.Blk { return w.b[1] }},
	{name: "invalid-chain", head: func(w *world) *kit.Blk { return w.a[1] }, evil: func(w *world) *kit.Blk { return w.bad[w.a[1]] }},
	{name: "behind", head: func(w *world) *kit.Blk { return w.a[0] }},
	{name: "empty", head: func(w *world) *kit.Blk { return nil }},
	{name: "sends", head: func(w *world) *kit.Blk { return w.a[1] }, do: func(w *world, r *kit.Raw, n *kit.Node) {
		r.Addrs = map[string]string{"dead-1": "10.0.0.91:21720", "rt-a": "10.0.0.1:21720"}
		seq(r, func() { r.Tx(w.t1) }, func() { r.Tx(w.t1) }, r.SendAddrs, func() { r.Announce("10.0.0.92:21720") }, r.Request, r.Ping, r.Sync)
	}},
	{name: "answers", head: func(w *world) *kit.Blk { return w.a[1] }, do: func(w *world, r *kit.Raw, n *kit.Node) {
		n.Bus.CandidateTx.Pub(bus.CandidateTxEvent{Tx: w.t1})
		mcrt.Sleep(200 * ms)
		n.Bus.ShouldRequestPeers.Pub(bus.ShouldRequestPeersEvent{TargetRuntimeId: r.ID})
		mcrt.Sleep(200 * ms)
		n.OfferHead(kit.Event(w.a[2]))
		mcrt.Sleep(300 * ms)
	}},
	{name: "crossing", head: func(w *world) *kit.Blk { return w.a[1] }, do: func(w *world, r *kit.Raw, n *kit.Node) {
		mcrt.Sleep(200 * ms)
		n.Bus.CandidateTx.Pub(bus.CandidateTxEvent{Tx: w.t1})
		mcrt.Sleep(27 * ms)
		seq(r, func() { r.Tx(w.t3) })
		n.Bus.ShouldRequestPeers.Pub(bus.ShouldRequestPeersEvent{TargetRuntimeId: r.ID})
		mcrt.Sleep(27 * ms)
		seq(r, func() { r.Tx(w.t5) }, r.Ping)
		mcrt.Sleep(200 * ms)
	}},
}

func edit(f func(c []byte) []byte) func(r *kit.Raw, b []byte) {
	return func(r *kit.Raw, b []byte) { r.Raw(f(append([]byte(nil), b...))) }
}

func fill(v byte) func(r *kit.Raw, b []byte) {
	return edit(func(c []byte) []byte {
		for i := range c {
			c[i] = v
		}
		return c
	})
}

func num(v uint64) func(r *kit.Raw, b []byte) {
	return edit(func(c []byte) []byte {
		if len(c) == 8 {
			return kit.U64(v)
		}
		return append(kit.Str("cmd:ping"), c...)
	})
}

var kinds = []kit.Deviation{
	{"reset", func(r *kit.Raw, b []byte) { r.E.Cut(); r.Raw(b) }},
	{"close", func(r *kit.Raw, b []byte) { r.E.Close(); r.Raw(b) }},
	{"half then close", func(r *kit.Raw, b []byte) { r.Raw(b[:len(b)/2]); r.E.Close(); r.Raw(b) }},
	{"stall", func(r *kit.Raw, b []byte) { r.Stop() }},
	{"half then stall", func(r *kit.Raw, b []byte) { r.Raw(b[:(len(b)+1)/2]); r.Stop() }},
	{"zeros", fill(0)},
	{"ones", fill(0xff)},
	{"last bit", edit(func(c []byte) []byte { c[len(c)-1] ^= 1; return c })},
	{"first bit", edit(func(c []byte) []byte { c[0] ^= 0x80; return c })},
	{"extra byte", edit(func(c []byte) []byte { return append(c, 7) })},
	{"left out", func(r *kit.Raw, b []byte) {}},
	{"twice", edit(func(c []byte) []byte { return append(c, c...) })},
	{"close command", func(r *kit.Raw, b []byte) { r.Raw(kit.Str("cmd:close")) }},
	{"sync command", func(r *kit.Raw, b []byte) { r.Raw(kit.Str("cmd:sync-chain")) }},
	{"unknown command", func(r *kit.Raw, b []byte) { r.Raw(kit.Str("cmd:%s%n")); r.Raw(b) }},
	{"flood", func(r *kit.Raw, b []byte) {
		big := make([]byte, 70000)
		for i := range big {
			big[i] = 0xaa
		}
		r.Raw(big)
	}},
	{"2^24", num(1 << 24)},
	{"2^33", num(1 << 33)},
	{"2^63", num(1 << 63)},
	{"2^64-1 then close", func(r *kit.Raw, b []byte) {
		num(1<<64-1)(r, b)
		r.E.Close()
		r.Raw(b)
	}},
}

func threads(x *mcx.X, n *kit.Node) string {
	l := x.S.LiveThreads(n.N)
	sort.Strings(l)
	var out []string
	for _, s := range l {
		if !strings.HasPrefix(s, "time.") {
			out = append(out, s)
		}
	}
	return strings.Join(out, " ")
}

// hostile runs one script with one deviation and judges the node afterwards.
func (w *world) hostile(x *mcx.X, sc script, init bool) {
	role := "dialled by the node"
	if init {
		role = "dialling"
	}
	n := kit.StartFull(x, "a", "10.0.0.1", kit.FullOpt{P: w.u.P, Late: true, Seek: 3600 * 1e9})
	w.give(x, n, w.a[1])
	n.StartNet()
	old := x.S.MinSleep
	x.S.MinSleep = 48 * ms
	mcrt.Sleep(100 * ms)
	y := kit.NewRaw(x, w.u, "honest", "10.0.0.2", "honest")
	y.Adopt(w.a[1])
	y.Dial("10.0.0.1")
	mcrt.Sleep(400 * ms)
	z0 := kit.NewRaw(x, w.u, "passing", "10.0.0.3", "passing")
	z0.Adopt(w.a[1])
	if !y.Up || y.Gone {
		x.Fail("setup", "an honest peer could not connect: %s %s", y.Err, y.Note)
		return
	}
	base := threads(x, n)
	ends := x.S.OpenEnds(n.N)
	r := kit.NewRaw(x, w.u, "hostile", "10.0.0.66", "hostile")
	r.Wait = 3 * sec
	r.Adopt(sc.head(w))
	if sc.evil != nil {
		r.Follow(sc.evil(w))
	}
	r.Kinds = kinds
	if sc.hello {
		r.Armed = true
	} else {
		r.ArmUp = true
	}
	if init {
		r.Dial("10.0.0.1")
	} else {
		r.Listen()
		y.Addrs = map[string]string{"hostile": "10.0.0.66:21720"}
		y.Do(y.SendAddrs, 10*sec)
	}
	mcrt.Sleep(400 * ms)
	if sc.do != nil && !r.Gone && !r.Mute {
		sc.do(w, r, n)
	}
	mcrt.Sleep(300 * ms)
	// the chain and other peers keep working while it is connected
	z := z0
	z.Dial("10.0.0.1")
	mcrt.Sleep(600 * ms)
	zUp := z.Up
	n.OfferHead(kit.Event(w.rest(w.a[3], w.a[1])...))
	y.Do(func() { y.Tx(w.t6) }, 10*sec)
	mcrt.Sleep(600 * ms)
	desc := fmt.Sprintf("peer %s, script %s, %s", role, sc.name, strings.Join(r.Did, ", "))
	if r.Mute {
		x.S.MinSleep = 500 * ms
		mcrt.Sleep(70 * sec)
		x.S.MinSleep = 48 * ms
	}
	if d := n.Alive(); d != "" {
		x.Fail("dead", "%s: %s", desc, d)
		return
	}
	if !zUp {
		x.Fail("listener blocked", "%s: another peer cannot connect: %s %s", desc, z.Err, z.Note)
	}
	for _, p := range []*kit.Raw{y, z} {
		if p.Err != "" || p.Gone {
			x.Fail("honest peer lost", "%s: peer %s: %s %s", desc, p.ID, p.Err, p.Note)
			return
		}
		if p.Head != w.a[3] {
			x.Fail("honest peer starved", "%s: peer %s did not get the new head", desc, p.ID)
		}
	}
	if !z.Have[w.t6.Hash()] {
		x.Fail("honest peer starved", "%s: peer %s did not get a new transaction", desc, z.ID)
	}
	r.Hangup()
	z.Hangup()
	mcrt.Sleep(1600 * ms)
	if d := n.Alive(); d != "" {
		x.Fail("dead", "%s: %s", desc, d)
		return
	}
	if m := n.N.MaxAlloc; m > 1<<20 {
		x.Fail("memory", "%s: the node set aside %d bytes at %s", desc, m, n.N.MaxAllocPos)
	}
	if got := x.S.OpenEnds(n.N); got != ends {
		x.Fail("connection left open", "%s: %d connections are still open, %d should be", desc, got, ends)
	}
	if got := threads(x, n); got != base {
		x.Fail("threads left", "%s: %d threads are left, were %d", desc, len(strings.Fields(got)), len(strings.Fields(base)))
	}
	// it may come back
	r2 := kit.NewRaw(x, w.u, "again", "10.0.0.67", "hostile")
	r2.Adopt(w.a[3])
	r2.Dial("10.0.0.1")
	mcrt.Sleep(500 * ms)
	if !r2.Up || r2.Gone || r2.Err != "" {
		x.Fail("not accepted again", "%s: the peer cannot connect again: %s %s", desc, r2.Err, r2.Note)
	}
	w.converged(x, desc, []*kit.Node{n}, []*kit.Blk{w.a[1], w.a[3]})
	x.S.MinSleep = old
	x.State(mcx.Hash(desc), false)
	x.Sample("%s", desc)
}

// aborted: connections that fail while they are being accepted are nobody else's problem.
func (w *world) aborted(x *mcx.X) {
	n := kit.StartFull(x, "a", "10.0.0.1", kit.FullOpt{P: w.u.P, Late: true, Seek: 3600 * 1e9})
	w.give(x, n, w.a[1])
	n.StartNet()
	old := x.S.MinSleep
	x.S.MinSleep = 48 * ms
	mcrt.Sleep(100 * ms)
	before, k := x.Pick(2), 1+x.Pick(3)
	desc := fmt.Sprintf("%d connections fail while being accepted, %d peers before", k, before)
	var ps []*kit.Raw
	join := func() {
		p := kit.NewRaw(x, w.u, fmt.Sprintf("p%d", len(ps)), fmt.Sprintf("10.0.1.%d", len(ps)), fmt.Sprintf("p%d", len(ps)))
		p.Adopt(w.a[1])
		p.Dial("10.0.0.1")
		ps = append(ps, p)
		mcrt.Sleep(400 * ms)
	}
	for i := 0; i < before; i++ {
		join()
	}
	x.S.AcceptAt, x.S.AcceptFails = "a", k
	for i := 0; i < k; i++ {
		h := kit.NewRaw(x, w.u, fmt.Sprintf("h%d", i), fmt.Sprintf("10.0.6.%d", i), "hostile")
		h.Adopt(nil)
		h.Dial("10.0.0.1")
		mcrt.Sleep(400 * ms)
	}
	if x.S.AcceptFails > 0 {
		x.Fail("listener blocked", "%s: the node stopped accepting", desc)
	}
	x.S.AcceptFails = 0
	join()
	n.OfferHead(kit.Event(w.rest(w.a[3], w.a[1])...))
	mcrt.Sleep(600 * ms)
	if d := n.Alive(); d != "" {
		x.Fail("dead", "%s: %s", desc, d)
		return
	}
	for _, p := range ps {
		if !p.Up || p.Err != "" || p.Gone || p.Head != w.a[3] {
			x.Fail("honest peer lost", "%s: peer %s: up %v %s %s", desc, p.ID, p.Up, p.Err, p.Note)
		}
	}
	x.S.MinSleep = old
	x.State(mcx.Hash(desc), false)
	x.Sample("%s", desc)
}

func c23(tier string) []mcx.Scenario {
	w := newWorld()
	scns := []mcx.Scenario{{Name: "failing-accept", Body: w.aborted}}
	for _, sc := range scripts {
		for _, init := range []bool{true, false} {
			sc, init := sc, init
			name := sc.name + "-out"
			if init {
				name = sc.name + "-in"
			}
			if tier != "thorough" && (init && sc.name == "other-branch" || !init && (sc.name == "ahead" || sc.name == "behind" || sc.name == "empty" || sc.name == "invalid-chain")) {
				continue
			}
			bound := 1
			if tier == "thorough" {
				bound = 2
			}
			scns = append(scns, mcx.Scenario{Name: name, Bound: bound, Body: func(x *mcx.X) { w.hostile(x, sc, init) }})
		}
	}
	return scns
}

func init() {
	mcx.Register(&mcx.Check{ID: "C23", Scenarios: c23, Seconds: 200, Rule: "every single deviation out of a catalogue of 20 at every send of every script, for peers dialling and dialled"})
}
