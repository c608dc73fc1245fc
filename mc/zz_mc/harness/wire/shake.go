package wire

import (
	"fmt"

	"github.com/levilutz/basiccoin/pkg/prot"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
	vnet "github.com/levilutz/basiccoin/zz_mc/shim/net"
)

const proto, version = "levilutz/basiccoin", "v0.0.0"

// end is one real end of a connection being set up.
type end struct {
	c     *prot.Conn
	err   error
	ended bool
	at    int64
	crash bool
}

func (e *end) finish(c *prot.Conn, err error) {
	e.c, e.err = c, err
	if err == nil && c != nil && c.HasErr() {
		e.err = c.Err()
	}
	e.ended, e.at = true, mcrt.Now()
}

// realEnd starts a real end; as dialler it connects to addr, otherwise it waits for one connection.
func realEnd(x *mcx.X, n *mcrt.Node, id string, dial string) *end {
	e := &end{}
	p := prot.NewParams(id, dial != "", false)
	if dial == "" {
		listenOne(x, n, func(c *vnet.TCPConn) { e.finish(prot.NewConn(p, c), nil) })
	} else {
		x.S.GoNode(n, "dial", func() { c, err := prot.ResolveConn(p, dial); e.finish(c, err) })
	}
	return e
}

const shakeLimit = 6 * 60 * sec // eight reads of 30 s each, and some

// variants of a field, the first being the right one.
func fieldVariants(s string, few bool) (out []string) {
	out = []string{s, "", s + " ", " " + s, s + "\x00", s + s}
	if len(s) > 0 {
		out = append(out, s[:len(s)-1], s[1:])
	}
	for i := range s {
		for _, m := range []byte{1, 0x20, 0x80} {
			if few && m != 1 {
				continue
			}
			b := []byte(s)
			b[i] ^= m
			out = append(out, string(b))
		}
	}
	return
}

func c20(tier string) []mcx.Scenario {
	deep := tier == "thorough"
	var scns []mcx.Scenario
	// Two real ends.
	dev := 4
	if deep {
		dev = 5
	}
	for _, cfg := range []struct {
		name  string
		cap   int
		delay int64
		short bool
		bound int
	}{{"prompt", 1 << 20, 0, true, dev}, {"slow", 1 << 20, 12 * sec, false, dev}, {"lagging", 1 << 20, 31 * sec, false, dev}} {
		cfg := cfg
		scns = append(scns, mcx.Scenario{Name: "two-ends-" + cfg.name, Bound: cfg.bound,
			Opt: func(s *mcrt.Sched) { s.ShortReads, s.NetDelay, s.NetCap = cfg.short, cfg.delay, cfg.cap },
			Body: func(x *mcx.X) {
				ids := [][2]string{{"id-one", "id-two"}, {"same", "same"}, {"", "x"}, {"continue", "cancel"}}
				id := ids[x.Pick(len(ids))]
				na, nb := x.S.NewNode("a", "10.0.0.1"), x.S.NewNode("b", "10.0.0.2")
				b := realEnd(x, nb, id[1], "")
				mcrt.Sleep(ms)
				x.S.Explore(true)
				a := realEnd(x, na, id[0], "10.0.0.2:21720")
				start := mcrt.Now()
				mcrt.ParkUntil(func() bool { return a.ended && b.ended }, start+shakeLimit)
				x.S.Explore(false)
				judgeTwo(x, fmt.Sprint(cfg.name, id), a, b, id)
				lag := int64(0)
				if a.ended && b.ended {
					lag = (a.at - start + b.at - start) / sec
				}
				if id[0] != id[1] && lag < 25 && (a.err != nil || b.err != nil) {
					x.Fail("refused", "%s: ends following the protocol could not connect: %v / %v", cfg.name, a.err, b.err)
				}
				x.State(mcx.Hash(cfg.name, id, a.err, b.err, lag), false)
				x.Sample("%s %v: %v / %v", cfg.name, id, a.err, b.err)
			}})
	}
	// The connection breaks or stalls after any number of bytes in either direction.
	scns = append(scns, mcx.Scenario{Name: "two-ends-broken", Bound: 0, Body: func(x *mcx.X) {
		how := x.Pick(4) // reset, half-closed, stalled, delayed
		na, nb := x.S.NewNode("a", "10.0.0.1"), x.S.NewNode("b", "10.0.0.2")
		hop := x.S.NewNode("hop", "10.0.0.7")
		id := [2]string{"id-one", "id-two"}
		lim := [2]int{x.Pick(len(Handshake("id-one")) + 1), 0}
		lim[1] = x.Pick(len(Handshake("id-two")) + 1)
		b := realEnd(x, nb, id[1], "")
		// A relay forwards lim[0] bytes one way and lim[1] the other.
		listenOne(x, hop, func(c *vnet.TCPConn) {
			out, _ := mcrt.NetDial("10.0.0.2", 21720, 0)
			if out == nil {
				return
			}
			relay := func(k int, from, to *mcrt.End) {
				left := lim[k]
				buf := make([]byte, 1)
				for {
					if left == 0 {
						switch how {
						case 0:
							from.Cut()
							to.Cut()
							return
						case 1:
							to.CloseWrite()
							return
						case 2:
							return
						case 3:
							mcrt.Sleep(20 * sec)
							left = 1 << 30
						}
					}
					n, e := from.Read(buf)
					if e != mcrt.NetOK || n == 0 {
						to.CloseWrite()
						return
					}
					to.Write(buf[:n])
					left -= n
				}
			}
			x.S.GoNode(hop, "relay", func() { relay(1, out, c.E) })
			relay(0, c.E, out)
		})
		mcrt.Sleep(ms)
		a := realEnd(x, na, id[0], "10.0.0.7:21720")
		mcrt.ParkUntil(func() bool { return a.ended && b.ended }, mcrt.Now()+shakeLimit)
		desc := fmt.Sprintf("broken (way %d) after %v bytes", how, lim)
		judgeTwo(x, desc, a, b, id)
		if how == 3 && a.ended && b.ended && (a.err != nil || b.err != nil) {
			x.Fail("refused", "%s: a 20 s delay prevents the connection: %v / %v", desc, a.err, b.err)
		}
		x.State(mcx.Hash(desc, a.err, b.err), false)
		x.Sample("%s: %v / %v", desc, a.err, b.err)
	}})
	// A counterpart that is not quite the same program.
	type field struct {
		name string
		vals []string
	}
	fields := []field{
		{"protocol", append(fieldVariants(proto, !deep), "Levilutz/Basiccoin", "v0.0.0", string(make([]byte, 65535)))},
		{"version", append(fieldVariants(version, false), "v0.0.1", "v0.1.0", "v1.0.0", "0.0.0", "v0.0.0.0", "V0.0.0")},
		{"id", append([]string{"other"}, "own", "", "own ", "OWN", "continue", string(make([]byte, 65535)))},
		{"answer", append(fieldVariants("continue", !deep), "cancel", "Continue", "cmd:close")},
	}
	scns = append(scns, mcx.Scenario{Name: "other-programs", Body: func(x *mcx.X) {
		dialler := x.Pick(2) == 1
		f1 := x.Pick(4)
		v1 := x.Pick(len(fields[f1].vals))
		vals := []string{fields[0].vals[0], fields[1].vals[0], fields[2].vals[0], fields[3].vals[0]}
		vals[f1] = fields[f1].vals[v1]
		if f2 := x.Pick(4); f2 > f1 {
			n := len(fields[f2].vals)
			if n > 12 && !deep {
				n = 12
			}
			vals[f2] = fields[f2].vals[x.Pick(n)]
		}
		var w []byte
		for _, v := range vals {
			w = append(w, Frame([]byte(v))...)
		}
		ok := vals[0] == proto && vals[1] == version && vals[2] != "own" && vals[3] == "continue"
		rawRun(x, dialler, w, ok, vals[2], fmt.Sprintf("announcing %.30q", vals), 0)
	}})
	// A counterpart whose bytes stop, or are altered, at any position.
	good := Handshake("other")
	scns = append(scns, mcx.Scenario{Name: "altered-bytes", Body: func(x *mcx.X) {
		dialler := x.Pick(2) == 1
		pos := x.Pick(len(good))
		how := x.Pick(4 + 8)
		w := append([]byte(nil), good...)
		ok := false
		id := "other"
		switch {
		case how < 3:
			w = w[:pos]
		case how == 3:
			w = append(w[:pos], w[pos+1:]...)
		default:
			w[pos] ^= 1 << (how - 4)
			// an altered id is a different id, everything else is wrong
			if pos >= 30 && pos < 35 {
				ok = true
				id = string(w[30:35])
			}
		}
		if how == 3 && pos >= 28 && pos < 35 {
			return // only shifts what is the id
		}
		rawRun(x, dialler, w, ok, id, fmt.Sprintf("byte %d altered in way %d", pos, how), how)
	}})
	return scns
}

// rawRun sets up a connection with a counterpart sending w.
func rawRun(x *mcx.X, dialler bool, w []byte, ok bool, id, desc string, how int) {
	nr, nc := x.S.NewNode("real", "10.0.0.1"), x.S.NewNode("raw", "10.0.0.2")
	send := func(e *mcrt.End) {
		e.Write(w)
		switch how {
		case 1:
			e.Close()
		case 2:
			e.Cut()
		}
	}
	var e *end
	if dialler {
		listenOne(x, nc, func(c *vnet.TCPConn) { send(c.E) })
		mcrt.Sleep(ms)
		e = realEnd(x, nr, "own", "10.0.0.2:21720")
	} else {
		e = realEnd(x, nr, "own", "")
		mcrt.Sleep(ms)
		x.S.GoNode(nc, "raw", func() {
			if end, _ := mcrt.NetDial("10.0.0.1", 21720, 0); end != nil {
				send(end)
			}
		})
	}
	mcrt.ParkUntil(func() bool { return e.ended || nr.Crashed }, mcrt.Now()+shakeLimit)
	switch {
	case nr.Crashed:
		x.Fail("crash", "%s: the process crashed: %s", desc, nr.CrashMsg)
	case !e.ended:
		x.Fail("hang", "%s: setting up the connection does not end", desc)
	case e.err == nil && !ok:
		x.Fail("connected", "%s: the connection was completed", desc)
	case e.err != nil && ok:
		x.Fail("refused", "%s: the connection was refused: %v", desc, e.err)
	case ok && e.c.PeerRuntimeId() != id:
		x.Fail("id", "%s: the peer's id is taken to be %.40q", desc, e.c.PeerRuntimeId())
	}
	x.State(mcx.Hash(desc, dialler, e.err), false)
	x.Sample("%s: %v", desc, e.err)
}

func judgeTwo(x *mcx.X, desc string, a, b *end, id [2]string) {
	for _, n := range x.S.Nodes {
		if n.Crashed {
			x.Fail("crash", "%s: %s crashed: %s", desc, n.Name, n.CrashMsg)
			return
		}
	}
	if !a.ended {
		x.Fail("hang", "%s: the dialling end does not finish setting up", desc)
		return
	}
	if a.err == nil && !b.ended {
		x.Fail("hang", "%s: the accepting end does not finish setting up", desc)
		return
	}
	for k, e := range []*end{a, b} {
		if e.ended && e.err == nil {
			if id[0] == id[1] {
				x.Fail("self", "%s: connected to itself", desc)
			} else if e.c.PeerRuntimeId() != id[1-k] {
				x.Fail("id", "%s: end %d takes its peer for %q", desc, k, e.c.PeerRuntimeId())
			}
		}
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C20", Scenarios: c20, Seconds: 200,
		Rule:        "two real ends under every schedule, split and delay up to the deviation bound; every break point in both directions; every altered announcement",
		Assumptions: []string{"the transport delivers bytes in order without loss (TCP)"}})
}
