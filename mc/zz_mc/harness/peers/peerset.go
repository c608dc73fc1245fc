package peers

import (
	"fmt"
	"sort"
	"strings"

	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

const maxPeers = 2
const nodeIP = "10.0.0.1"

// room is a node with independent peers around it, and what the node should think of them.
type room struct {
	w     *world
	x     *mcx.X
	n     *kit.Node
	hs    []*kit.Host       // they dial the node
	ls    []*kit.Host       // they listen
	known []string          // connected peers
	addrs map[string]string // announced addresses of those
	desc  []string
	start int64
	tick  int64
	node  int // own address dialled so often
}

func addrOf(id string) string { return "addr-of-" + id + ":21720" }

func newRoom(w *world, x *mcx.X, o kit.FullOpt) *room {
	m := emptyRoom(w, x)
	for _, l := range m.ls {
		l.Listen()
	}
	x.S.MinSleep = 48 * ms
	mcrt.Sleep(10 * ms)
	m.enter(o)
	mcrt.Sleep(200 * ms)
	return m
}

// enter starts the node.
func (m *room) enter(o kit.FullOpt) {
	o.P, o.MaxPeers, o.Seek = m.w.u.P, maxPeers, 60*1e9
	m.start = mcrt.Now()
	m.n = kit.StartFull(m.x, "a", nodeIP, o)
}

func emptyRoom(w *world, x *mcx.X) *room {
	m := &room{w: w, x: x, addrs: map[string]string{}}
	for i := 1; i <= 3; i++ {
		h := kit.NewHost(x, w.u, fmt.Sprintf("10.0.1.%d", i), fmt.Sprintf("h%d", i))
		h.Addrs = map[string]string{}
		m.hs = append(m.hs, h)
	}
	for i := 1; i <= 2; i++ {
		h := kit.NewHost(x, w.u, fmt.Sprintf("10.0.2.%d", i), fmt.Sprintf("l%d", i))
		h.Addrs = map[string]string{}
		m.ls = append(m.ls, h)
	}
	m.hs[0].Addrs["l1"] = "10.0.2.1:21720"
	m.hs[1].Addrs["l2"] = "10.0.2.2:21720"
	return m
}

func (m *room) isKnown(id string) bool {
	for _, k := range m.known {
		if k == id {
			return true
		}
	}
	return false
}

func (m *room) join(id string) bool {
	if m.isKnown(id) || len(m.known) >= maxPeers {
		return false
	}
	m.known = append(m.known, id)
	return true
}

func (m *room) drop(id string) {
	var l []string
	for _, k := range m.known {
		if k != id {
			l = append(l, k)
		}
	}
	m.known = l
	delete(m.addrs, id)
}

func (m *room) host(id string) *kit.Host {
	for _, h := range append(append([]*kit.Host(nil), m.hs...), m.ls...) {
		if h.ID == id {
			return h
		}
	}
	return nil
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func show(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return "[" + strings.Join(l, " ") + "]"
}

func (m *room) fail(key, f string, a ...any) {
	m.x.Fail(key, "%s: %s", strings.Join(m.desc, ", "), fmt.Sprintf(f, a...))
}

// refusal judges a connection the node should have turned away.
func (m *room) refusal(r *kit.Raw) {
	if !r.Gone {
		m.fail("not refused", "a connection of %s is kept although %v are connected", r.ID, m.known)
		return
	}
	if !r.Up {
		return // it was not even set up
	}
	if len(r.Log) == 0 || r.Log[len(r.Log)-1] != "close" {
		m.fail("refused silently", "%s was refused without being told (%s %s)", r.ID, r.Err, r.Note)
	}
	if len(m.addrs) > 0 && !sameMap(r.Got, m.addrs) {
		m.fail("alternatives", "%s was refused and given %s instead of %s", r.ID, show(r.Got), show(m.addrs))
	}
}

// judge compares the connections with what they should be.
func (m *room) judge() {
	if d := m.n.Alive(); d != "" {
		m.fail("dead", "%s", d)
		return
	}
	tot := 0
	for _, h := range append(append([]*kit.Host(nil), m.hs...), m.ls...) {
		n := len(h.Live())
		tot += n
		want := 0
		if m.isKnown(h.ID) {
			want = 1
		}
		if n > want {
			m.fail("too many connections", "%s has %d connections, connected should be %v", h.ID, n, m.known)
		} else if n < want {
			last := &kit.Raw{}
			if len(h.All) > 0 {
				last = h.All[len(h.All)-1]
			}
			m.fail("not connected", "%s has no connection (%s %s %v), connected should be %v", h.ID, last.Err, last.Note, last.Log, m.known)
		}
		for _, r := range h.Live() {
			if r.Err != "" {
				m.fail("protocol", "%s: %s", h.ID, r.Err)
			}
			if r.Other != "rt-a" {
				m.fail("identity", "%s was told the id %q", h.ID, r.Other)
			}
		}
	}
	if n := m.x.S.OpenEnds(m.n.N); n != tot {
		m.fail("connections", "the node has %d connections open, its peers %d", n, tot)
	}
}

const settleTime = 1450 * ms

func (m *room) op(k int) bool {
	x := m.x
	switch {
	case k < 3: // h(k+1) connects or leaves
		h := m.hs[k]
		if l := h.Live(); len(l) > 0 {
			m.desc = append(m.desc, h.ID+" leaves")
			if k == 1 {
				l[0].Hangup()
			} else {
				l[0].Leave()
			}
			m.drop(h.ID)
			mcrt.Sleep(settleTime)
			break
		}
		m.desc = append(m.desc, h.ID+" connects")
		ok := m.join(h.ID)
		r := h.Dial(nodeIP)
		mcrt.Sleep(settleTime)
		if !ok {
			m.refusal(r)
		} else if !strings.Contains(strings.Join(r.Log, ","), "announce "+nodeIP+kit.Port) {
			m.fail("not announced", "%s was not told the node's address: %v", h.ID, r.Log)
		}
	case k == 3: // every connected peer announces its address
		if len(m.known) == 0 {
			return false
		}
		id := m.known[len(m.known)-1]
		m.desc = append(m.desc, id+" announces")
		a := addrOf(id)
		if m.addrs[id] == a {
			a = "another-" + a // peers may announce a new address
			for _, k := range m.known[:len(m.known)-1] {
				if m.addrs[k] != "" {
					a = m.addrs[k] // even one that another announced too
				}
			}
		}
		m.host(id).Live()[0].Do(func() { m.host(id).Live()[0].Announce(a) }, 5*sec)
		m.addrs[id] = a
		mcrt.Sleep(100 * ms)
	case k == 4: // request
		if len(m.known) == 0 {
			return false
		}
		id := m.known[0]
		m.desc = append(m.desc, id+" asks")
		r := m.host(id).Live()[0]
		n := r.GotN
		others := map[*kit.Raw]int{}
		for _, h := range append(append([]*kit.Host(nil), m.hs...), m.ls...) {
			for _, o := range h.Live() {
				if o != r {
					others[o] = o.GotN
				}
			}
		}
		r.Do(r.Request, 5*sec)
		mcrt.Sleep(250 * ms)
		for o, n := range others {
			if o.GotN != n {
				m.fail("addresses unasked", "%s asked for addresses and %s received them too", id, o.ID)
			}
		}
		if r.GotN != n+1 {
			m.fail("no addresses", "%s asked for addresses and received %d lists (%s %s)", id, r.GotN-n, r.Err, r.Note)
		} else if !sameMap(r.Got, m.addrs) {
			m.fail("addresses", "%s asked for addresses and received %s instead of %s", id, show(r.Got), show(m.addrs))
		}
	case k == 5: // a peer tells of others, of itself, of the node, and of nobody
		if len(m.known) == 0 {
			return false
		}
		id := m.known[0]
		m.desc = append(m.desc, id+" tells of l1")
		r := m.host(id).Live()[0]
		r.Addrs = map[string]string{"l1": "10.0.2.1:21720", "ghost": nodeIP + kit.Port, "rt-a": nodeIP + kit.Port, id: "10.0.1.1:21720", "": "no such address"}
		before := len(m.ls[0].All)
		r.Do(r.SendAddrs, 5*sec)
		r.Addrs = m.host(id).Addrs
		mcrt.Sleep(settleTime + 200*ms)
		m.dialled(m.ls[0], before)
	case k == 6: // a listening peer leaves
		done := false
		for _, h := range m.ls {
			if l := h.Live(); len(l) > 0 && !done {
				m.desc = append(m.desc, h.ID+" leaves")
				l[0].Hangup()
				m.drop(h.ID)
				done = true
				mcrt.Sleep(settleTime)
			}
		}
		if !done {
			return false
		}
	case k == 7: // somebody claims the id of a connected peer
		if len(m.known) == 0 {
			return false
		}
		id := m.known[0]
		m.desc = append(m.desc, "somebody connects as "+id)
		r := kit.NewRaw(x, m.w.u, "impostor", fmt.Sprintf("10.0.3.%d", len(m.desc)), id)
		r.Dial(nodeIP)
		mcrt.Sleep(settleTime)
		m.refusal(r)
	case k == 8: // the node looks for more peers
		m.tick++
		m.desc = append(m.desc, "a minute passes")
		x.S.MinSleep = 950 * ms
		mcrt.Sleep(m.start + m.tick*60*sec - 3*sec - mcrt.Now())
		x.S.MinSleep = 48 * ms
		count := func() (n int, who string) {
			for _, h := range append(append([]*kit.Host(nil), m.hs...), m.ls...) {
				for _, r := range h.Live() {
					for _, l := range r.Log {
						if l == "request" {
							n++
						}
					}
				}
			}
			return
		}
		logs := map[*kit.Raw]int{}
		for _, id := range m.known {
			for _, r := range m.host(id).Live() {
				logs[r] = len(r.Log)
			}
		}
		n0, _ := count()
		b := []int{len(m.ls[0].All), len(m.ls[1].All)}
		mcrt.Sleep(3*sec + 2500*ms)
		n1, _ := count()
		want := 0
		if len(m.known) > 0 && len(m.known) < maxPeers {
			want = 1
		}
		if n1-n0 < want {
			m.fail("not looking", "with %v connected (at most %d) the node asked %d peers for addresses", m.known, maxPeers, n1-n0)
		}
		for _, id := range append([]string(nil), m.known...) {
			h := m.host(id)
			for _, r := range h.Live() {
				if logs[r] < len(r.Log) && r.Log[len(r.Log)-1] == "request" {
					for i, l := range m.ls {
						if h.Addrs[l.ID] != "" {
							m.dialled(l, b[i])
						}
					}
				}
			}
		}
	}
	return true
}

// dialled judges whether the node dialled a listening peer it was just told of.
func (m *room) dialled(l *kit.Host, before int) {
	news := l.All[before:]
	if m.isKnown(l.ID) {
		return
	}
	if len(m.known) < maxPeers {
		if len(news) == 0 {
			m.fail("not dialled", "the node was told of %s and has room but did not dial it", l.ID)
		}
		m.join(l.ID)
		return
	}
	for _, r := range news {
		m.refusal(r)
	}
}

func c24(tier string) []mcx.Scenario {
	w := newWorld()
	deep := tier == "thorough"
	depth := 4
	if deep {
		depth = 6
	}
	scns := []mcx.Scenario{
		{Name: "histories", Body: func(x *mcx.X) {
			m := newRoom(w, x, kit.FullOpt{})
			for d := 0; d < depth; d++ {
				k := x.Pick(9)
				if !m.op(k) {
					return // as an earlier, shorter history
				}
				m.judge()
				if x.Failed() {
					return
				}
				x.State(mcx.Hash(fmt.Sprint(m.known, show(m.addrs)), d), false)
			}
			x.Sample("%s", strings.Join(m.desc, ", "))
		}},
		{Name: "histories-near-limit", Body: func(x *mcx.X) {
			m := newRoom(w, x, kit.FullOpt{})
			for _, k := range []int{0, 3, 1, 3} {
				m.op(k)
			}
			m.judge()
			for d := 0; d < depth; d++ {
				k := x.Pick(9)
				if !m.op(k) {
					return
				}
				m.judge()
				if x.Failed() {
					return
				}
				x.State(mcx.Hash(fmt.Sprint(m.known, show(m.addrs)), d), false)
			}
			x.Sample("%s", strings.Join(m.desc, ", "))
		}},
	}
	scns = append(scns, mcx.Scenario{Name: "seeds", Body: func(x *mcx.X) { w.seeds(x) }})
	scns = append(scns, mcx.Scenario{Name: "told-of-many", MaxSteps: 10_000_000, Body: func(x *mcx.X) { w.toldOfMany(x) }})
	scns = append(scns, mcx.Scenario{Name: "many-peers", MaxSteps: 40_000_000, Body: func(x *mcx.X) { w.manyPeers(x, deep) }})
	races := []struct {
		name string
		pre  []int
		f    func(m *room) map[string]string // returns the addresses announced
	}{
		{"three-for-two-places", nil, func(m *room) map[string]string {
			for _, h := range m.hs {
				h.Dial(nodeIP)
			}
			return nil
		}},
		{"same-id-twice", nil, func(m *room) map[string]string {
			m.hs[0].Dial(nodeIP)
			m.hs[0].Dial(nodeIP)
			m.hs[1].Dial(nodeIP)
			return nil
		}},
		{"announce-and-leave", []int{0, 3, 1}, func(m *room) map[string]string {
			r := m.hs[1].Live()[0]
			r.Do(func() { r.Announce(addrOf("h2")) }, 5*sec)
			r.Hangup()
			return map[string]string{"h1": addrOf("h1")}
		}},
		{"leave-and-return", []int{0, 3, 1}, func(m *room) map[string]string {
			m.hs[1].Live()[0].Leave()
			m.hs[1].Dial(nodeIP)
			m.hs[2].Dial(nodeIP)
			return map[string]string{"h1": addrOf("h1")}
		}},
		{"told-twice", []int{0}, func(m *room) map[string]string {
			r := m.hs[0].Live()[0]
			r.Addrs = map[string]string{"l1": "10.0.2.1:21720", "l2": "10.0.2.2:21720"}
			r.Do(r.SendAddrs, 5*sec)
			r.Do(r.SendAddrs, 5*sec)
			return nil
		}},
		{"dialling-each-other", []int{0}, func(m *room) map[string]string {
			r := m.hs[0].Live()[0]
			r.Addrs = map[string]string{"l1": "10.0.2.1:21720"}
			m.ls[0].Dial(nodeIP)
			r.Do(r.SendAddrs, 5*sec)
			return nil
		}},
		{"asking-while-leaving", []int{0, 3, 1, 3}, func(m *room) map[string]string {
			r := m.hs[0].Live()[0]
			x := m.hs[1].Live()[0]
			r.Do(r.Request, 5*sec)
			x.Do(func() { x.Announce("another" + addrOf("h2")) }, 5*sec)
			m.hs[2].Dial(nodeIP)
			x.Hangup()
			return map[string]string{"h1": addrOf("h1")}
		}},
	}
	for _, rc := range races {
		rc := rc
		bound := 1
		if deep {
			bound = 2
		}
		scns = append(scns, mcx.Scenario{Name: "race-" + rc.name, Bound: bound,
			Opt: func(s *mcrt.Sched) {
				s.Filter = busy
				s.NetDelay, s.TimeDev, s.RaceDetect = 60*ms, deep, true
			},
			Body: func(x *mcx.X) {
				m := newRoom(w, x, kit.FullOpt{})
				for _, k := range rc.pre {
					m.op(k)
				}
				m.desc = append(m.desc, rc.name)
				x.S.MinSleep = ms
				x.S.Explore(true)
				addrs := rc.f(m)
				mcrt.Sleep(400 * ms)
				x.S.Explore(false)
				x.S.MinSleep = 48 * ms
				mcrt.Sleep(2500 * ms)
				m.quiet(addrs)
				x.State(mcx.Hash(rc.name, fmt.Sprint(m.known)), false)
				x.Sample("%s: connected %v", rc.name, m.known)
			}})
	}
	// the loops behind the topics all poll; vary how those of a peer and of the factory are phased
	scns = append(scns, mcx.Scenario{Name: "leaving-at-every-phase", Bound: 1,
		Opt: func(s *mcrt.Sched) { s.Filter = busy },
		Body: func(x *mcx.X) {
			m := newRoom(w, x, kit.FullOpt{})
			m.op(0)
			m.op(3)
			lag, wait := int64(x.Pick(9)), int64(x.Pick(5))
			mcrt.Sleep(lag * 6 * ms)
			m.op(1)
			m.desc = append(m.desc, fmt.Sprintf("h2 connects %d ms later, announces its address %d ms later and hangs up", lag*6, wait*6))
			r := m.hs[1].Live()[0]
			x.S.MinSleep = ms
			mcrt.Sleep(wait*6*ms + 50*ms)
			x.S.Explore(true)
			r.Do(func() { r.Announce(addrOf("h2")) }, 5*sec)
			r.Hangup()
			mcrt.Sleep(60 * ms)
			x.S.Explore(false)
			x.S.MinSleep = 48 * ms
			mcrt.Sleep(1500 * ms)
			m.quiet(map[string]string{"h1": addrOf("h1")})
			x.State(mcx.Hash(lag, wait, fmt.Sprint(m.known)), false)
			x.Sample("%s: connected %v", strings.Join(m.desc, ", "), m.known)
		}})
	scns = append(scns, mcx.Scenario{Name: "nodes-dialling-each-other", Bound: 1,
		Opt: func(s *mcrt.Sched) { s.Filter = busy; s.NetDelay = 60 * ms },
		Body: func(x *mcx.X) {
			lag := []int64{0, 20, 60, 120}[x.Pick(4)] * ms
			x.S.MinSleep = 48 * ms
			n1 := kit.StartFull(x, "n1", "10.0.0.1", kit.FullOpt{P: w.u.P})
			n2 := kit.StartFull(x, "n2", "10.0.0.2", kit.FullOpt{P: w.u.P, Late: true, Seeds: []string{"10.0.0.1" + kit.Port, "10.0.0.2" + kit.Port}})
			h := kit.NewHost(x, w.u, "10.0.1.1", "h")
			r := h.Dial(nodeIP)
			mcrt.Sleep(500 * ms)
			r.Addrs = map[string]string{"rt-n2": "10.0.0.2" + kit.Port, "rt-n1": "10.0.0.1" + kit.Port, "ghost": "10.0.0.2" + kit.Port}
			x.S.MinSleep = ms
			x.S.Explore(true)
			n2.StartNet()
			mcrt.Sleep(lag)
			r.Do(r.SendAddrs, 5*sec)
			mcrt.Sleep(400 * ms)
			x.S.Explore(false)
			x.S.MinSleep = 48 * ms
			mcrt.Sleep(12 * sec)
			desc := fmt.Sprintf("two nodes dialling each other, one %d ms later", lag/ms)
			for i, n := range []*kit.Node{n1, n2} {
				if d := n.Alive(); d != "" {
					x.Fail("dead", "%s: %s", desc, d)
					return
				}
				c := 0
				for _, e := range x.S.Ends(n.N) {
					if !e.Closed() && e.Peer().Node != h.N {
						c++
					}
				}
				if c != 1 {
					x.Fail("connections", "%s: node %d has %d connections to the other", desc, i+1, c)
				}
			}
			x.State(mcx.Hash(desc), false)
			x.Sample("%s", desc)
		}})
	return scns
}

// seeds: a node started with seeds connects to all of them it can, whatever else is in the list, and again
// after it lost them.
func (w *world) seeds(x *mcx.X) {
	m := emptyRoom(w, x)
	names := []string{"l1", "l2", "nobody", "itself", "malformed"}
	addrs := []string{"10.0.2.1:21720", "10.0.2.2:21720", "10.0.9.9:21720", nodeIP + kit.Port, "nonsense"}
	var list, desc []string
	var want [2]bool
	for len(list) < 3 {
		k := x.Pick(len(names) + 1)
		if k == len(names) {
			break
		}
		list, desc = append(list, addrs[k]), append(desc, names[k])
		if k < 2 {
			want[k] = true
		}
	}
	if !want[0] && !want[1] {
		return // a node that reaches no seed gives up
	}
	late := int64(x.Pick(3)) * 2500 * ms
	m.desc = []string{fmt.Sprintf("seeds %v, up after %d ms", desc, late/ms)}
	x.S.MinSleep = 48 * ms
	if late == 0 {
		for _, l := range m.ls {
			l.Listen()
		}
	}
	mcrt.Sleep(10 * ms)
	m.enter(kit.FullOpt{Seeds: list})
	if late > 0 {
		mcrt.Sleep(late)
		m.ls[1].Listen()
		if want[0] {
			mcrt.Sleep(late)
			m.ls[0].Listen()
		}
	}
	mcrt.Sleep(3500 * ms)
	// a seed that was down when its turn came is not tried again while there are other peers
	if late > 0 && want[0] && want[1] {
		want[0] = len(m.ls[0].Live()) > 0
	}
	for i, l := range m.ls {
		if want[i] {
			m.join(l.ID)
		}
	}
	m.judge()
	m.op(0)
	m.judge()
	if x.Failed() {
		return
	}
	m.desc = append(m.desc, "all leave")
	for _, h := range append(append([]*kit.Host(nil), m.hs...), m.ls...) {
		for _, r := range h.Live() {
			r.Hangup()
			m.drop(h.ID)
		}
	}
	mcrt.Sleep(settleTime)
	m.judge()
	x.S.MinSleep = 950 * ms
	mcrt.Sleep(65 * sec)
	x.S.MinSleep = 48 * ms
	for i, l := range m.ls {
		for _, s := range list {
			if s == addrs[i] {
				m.join(l.ID)
			}
		}
	}
	m.judge()
	x.State(mcx.Hash(fmt.Sprint(m.desc)), false)
	x.Sample("%s", strings.Join(m.desc, ", "))
}

// toldOfMany: of a long list of addresses the node dials those that can be reached.
func (w *world) toldOfMany(x *mcx.X) {
	m := newRoom(w, x, kit.FullOpt{})
	m.op(0)
	m.judge()
	n := []int{3, 40, 300}[x.Pick(3)]
	at := []int{0, n / 2, n - 1}[x.Pick(3)]
	m.desc = append(m.desc, fmt.Sprintf("h1 tells of %d addresses, of which l1's is number %d", n, at+1))
	r := m.hs[0].Live()[0]
	r.Addrs = map[string]string{}
	for i := 0; i < n; i++ { // sent in the order of the ids
		id, a := fmt.Sprintf("k%04d", i), fmt.Sprintf("10.0.9.%d:%d", i%200, 20000+i)
		if i == at {
			id, a = id+"-l1", "10.0.2.1:21720"
		}
		r.Addrs[id] = a
	}
	r.Do(r.SendAddrs, 5*sec)
	mcrt.Sleep(settleTime + 5*sec)
	m.dialled(m.ls[0], 0)
	m.judge()
	x.State(mcx.Hash(n, at), false)
	x.Sample("%s", strings.Join(m.desc, ", "))
}

// manyPeers: a node that takes tens of peers keeps all of them apart.
func (w *world) manyPeers(x *mcx.X, deep bool) {
	n := []int{9, 40, 70}[x.Pick(2+b2i(deep))]
	dials := x.Pick(2) == 1 // whether it dials them, or they it
	x.S.MinSleep = 48 * ms
	var hs []*kit.Host
	addr := func(i int) string { return fmt.Sprintf("10.0.2.%d:21720", i+1) }
	for i := 0; i < n; i++ {
		hs = append(hs, kit.NewHost(x, w.u, fmt.Sprintf("10.0.2.%d", i+1), fmt.Sprintf("p%d", i)))
		hs[i].Listen()
	}
	mcrt.Sleep(10 * ms)
	a := kit.StartFull(x, "a", nodeIP, kit.FullOpt{P: w.u.P, MaxPeers: n, Seek: 3600 * 1e9})
	mcrt.Sleep(200 * ms)
	how := "connect"
	first := hs[0].Dial(nodeIP)
	mcrt.Sleep(settleTime)
	if dials {
		how = "are dialled, told of by the first"
		first.Addrs = map[string]string{}
		for i := 1; i < n; i++ {
			first.Addrs[hs[i].ID] = addr(i)
		}
		first.Do(first.SendAddrs, 5*sec)
	} else {
		for i := 1; i < n; i++ {
			hs[i].Dial(nodeIP)
			mcrt.Sleep(100 * ms)
		}
	}
	mcrt.Sleep(settleTime + int64(n)*500*ms)
	desc := fmt.Sprintf("%d peers %s", n, how)
	fail := func(key, f string, v ...any) { x.Fail(key, "%s: %s", desc, fmt.Sprintf(f, v...)) }
	known := func(step string, out int) bool {
		if d := a.Alive(); d != "" {
			fail("dead", "%s", d)
			return false
		}
		for i, h := range hs {
			if c := len(h.Live()); (i == out && c != 0) || (i != out && c != 1) {
				fail("connections", "%s: %s has %d connections", step, h.ID, c)
				return false
			}
		}
		return true
	}
	if !known("in the beginning", -1) {
		return
	}
	want := map[string]string{}
	for i, h := range hs {
		r := h.Live()[0]
		i := i
		if !r.Do(func() { r.Announce(addr(i)) }, 5*sec) {
			fail("stuck", "the node does not take the address of %s (%s)", h.ID, r.Err)
			return
		}
		want[h.ID] = addr(i)
	}
	mcrt.Sleep(settleTime)
	ask := func(h *kit.Host) {
		r := h.Live()[0]
		c := r.GotN
		r.Do(r.Request, 5*sec)
		mcrt.Sleep(settleTime)
		if r.GotN != c+1 || !sameMap(r.Got, want) {
			fail("addresses", "%s asked for addresses and received %d of %d lists, the last %s", h.ID, r.GotN-c, 1, show(r.Got))
		}
	}
	ask(hs[n-1])
	ask(hs[n/2])
	late := kit.NewHost(x, w.u, "10.0.3.1", "late")
	r := late.Dial(nodeIP)
	mcrt.Sleep(settleTime)
	if !r.Gone || len(r.Log) == 0 || r.Log[len(r.Log)-1] != "close" {
		fail("not refused", "one more is not refused, or not told (%s %v)", r.Note, r.Log)
	} else if !sameMap(r.Got, want) {
		fail("alternatives", "one more was refused and given %s", show(r.Got))
	}
	if x.Failed() || !known("after one was refused", -1) {
		return
	}
	hs[n/2].Live()[0].Leave()
	delete(want, hs[n/2].ID)
	mcrt.Sleep(settleTime)
	if !known("after one left", n/2) {
		return
	}
	ask(hs[0])
	late.Dial(nodeIP)
	mcrt.Sleep(settleTime)
	if len(late.Live()) != 1 {
		fail("not connected", "one left, and another is not let in")
	}
	known("after another came", n/2)
	x.State(mcx.Hash(desc), false)
	x.Sample("%s", desc)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// quiet judges the peer set after simultaneous operations, whoever won.
func (m *room) quiet(addrs map[string]string) {
	if d := m.n.Alive(); d != "" {
		m.fail("dead", "%s", d)
		return
	}
	m.known, m.addrs = nil, map[string]string{}
	tot := 0
	for _, h := range append(append([]*kit.Host(nil), m.hs...), m.ls...) {
		n := len(h.Live())
		tot += n
		if n > 1 {
			m.fail("connected twice", "%s has %d connections", h.ID, n)
		}
		if n > 0 {
			m.known = append(m.known, h.ID)
			if a := addrs[h.ID]; a != "" {
				m.addrs[h.ID] = a
			}
		}
		for _, r := range h.All {
			if r.Up && r.Gone && r.Err == "" && r.Note != "told to close" && r.Note != "gave up" && !r.Stopped() {
				m.fail("refused silently", "%s was refused without being told (%s)", r.ID, r.Note)
			}
		}
	}
	if tot > maxPeers {
		m.fail("too many connections", "%d peers are connected", tot)
	}
	if n := m.x.S.OpenEnds(m.n.N); n != tot {
		m.fail("connections", "the node has %d connections open, its peers %d", n, tot)
	}
	if tot == 0 {
		m.fail("nobody connected", "all connections were refused")
		return
	}
	m.op(4)
}

func init() {
	mcx.Register(&mcx.Check{ID: "C24", Scenarios: c24, Seconds: 200, Rule: "every sequence of operations up to the depth, from an empty and from a full peer set; every schedule of simultaneous ones up to the deviation bound"})
}
