package mcrt

import "fmt"

// Simulated TCP.
type NetErr int

const (
	NetOK NetErr = iota
	NetClosed
	NetTimeout
	NetRefused
	NetReset
	NetEOF
	NetInUse
)

type seg struct {
	data []byte
	at   int64
}

// half is one direction of a connection.
type half struct {
	segs     []seg
	size     int
	fin      bool // writer closed
	rdClosed bool // reader closed
	reset    bool
	so       SyncObj
	total    int64
	lastAt   int64
}

func (h *half) readable(now int64) bool {
	return len(h.segs) > 0 && h.segs[0].at <= now
}

// End is one side of a simulated connection.
type End struct {
	Node                  *Node
	in, out               *half
	closed                bool
	rdl, wdl              int64 // deadlines (0: none)
	LocalIP, RemoteIP     string
	LocalPort, RemotePort int
	peer                  *End
	Received              int64
}

type Listener struct {
	Node   *Node
	IP     string
	Port   int
	q      []*End
	closed bool
	dl     int64
}

type vnet struct {
	listeners map[string]*Listener
	ends      []*End
	nextPort  int
	delayed   []int64
	blocked   map[string]bool
	All       []*End
}

func newVnet() *vnet {
	return &vnet{listeners: map[string]*Listener{}, nextPort: 40000, blocked: map[string]bool{}}
}

func (v *vnet) pendingTimes() []int64 {
	if len(v.delayed) == 0 {
		return nil
	}
	now := S.now
	k := 0
	for _, t := range v.delayed {
		if t > now {
			v.delayed[k] = t
			k++
		}
	}
	v.delayed = v.delayed[:k]
	return v.delayed
}

func (v *vnet) closeNode(n *Node) {
	for k, l := range v.listeners {
		if l.Node == n {
			l.closed = true
			delete(v.listeners, k)
			for _, e := range l.q {
				e.doClose()
			}
		}
	}
	for _, e := range v.ends {
		if e.Node == n && !e.closed {
			e.doClose()
		}
	}
}

// OpenEnds counts connection ends of a node that were not closed.
func (s *Sched) OpenEnds(n *Node) int {
	c := 0
	for _, e := range s.net.ends {
		if e.Node == n && !e.closed {
			c++
		}
	}
	return c
}

// Ends lists all connection ends of a node.
func (s *Sched) Ends(n *Node) (out []*End) {
	for _, e := range s.net.ends {
		if e.Node == n {
			out = append(out, e)
		}
	}
	return
}

// Partition blocks (or unblocks) new connections between two IPs.
func (s *Sched) Partition(a, b string, on bool) {
	s.net.blocked[a+"|"+b] = on
	s.net.blocked[b+"|"+a] = on
}

func (e *End) Closed() bool { return e.closed }
func (e *End) Peer() *End   { return e.peer }

// Cut breaks the connection abruptly.
func (e *End) Cut() {
	e.in.reset, e.out.reset = true, true
}

// LocalName maps loopback names to the node's own address.
func localIP(n *Node, ip string) string {
	if ip == "" || ip == "127.0.0.1" || ip == "localhost" || ip == "0.0.0.0" || ip == "::1" || ip == "::" {
		return n.IP
	}
	return ip
}

func NetListen(ip string, port int) (*Listener, NetErr) {
	Point()
	n := CurNode()
	ip = localIP(n, ip)
	if port == 0 {
		S.net.nextPort++
		port = S.net.nextPort
	}
	k := fmt.Sprintf("%s:%d", ip, port)
	if S.net.listeners[k] != nil || ip != n.IP {
		return nil, NetInUse
	}
	l := &Listener{Node: n, IP: ip, Port: port}
	S.net.listeners[k] = l
	return l, NetOK
}

func NetDial(ip string, port int, dl int64) (*End, NetErr) {
	Point()
	n := CurNode()
	ip = localIP(n, ip)
	if S.net.blocked[n.IP+"|"+ip] {
		// no route: the SYN is never answered
		t := S.now + 20_000_000_000
		if dl > 0 && dl < t {
			t = dl
		}
		Sleep(t - S.now)
		return nil, NetTimeout
	}
	l := S.net.listeners[fmt.Sprintf("%s:%d", ip, port)]
	if l == nil || l.closed || l.Node.Crashed {
		return nil, NetRefused
	}
	S.net.nextPort++
	a2b, b2a := &half{}, &half{}
	a := &End{Node: n, in: b2a, out: a2b, LocalIP: n.IP, LocalPort: S.net.nextPort, RemoteIP: ip, RemotePort: port}
	b := &End{Node: l.Node, in: a2b, out: b2a, LocalIP: ip, LocalPort: port, RemoteIP: n.IP, RemotePort: S.net.nextPort}
	a.peer, b.peer = b, a
	S.net.ends = append(S.net.ends, a, b)
	l.q = append(l.q, b)
	return a, NetOK
}

func (l *Listener) Accept() (*End, NetErr) {
	Point()
	for {
		if l.closed {
			return nil, NetClosed
		}
		if len(l.q) > 0 {
			e := l.q[0]
			l.q = l.q[1:]
			if S.AcceptFails > 0 && e.Node.Name == S.AcceptAt {
				S.AcceptFails--
				e.doClose()
				return nil, NetReset
			}
			return e, NetOK
		}
		if l.dl != 0 && S.now >= l.dl {
			return nil, NetTimeout
		}
		w := int64(-1)
		if l.dl != 0 {
			w = l.dl
		}
		ParkUntil(func() bool { return l.closed || len(l.q) > 0 }, w)
	}
}

func (l *Listener) SetDeadline(t int64) { l.dl = t }

func (l *Listener) Close() NetErr {
	Point()
	if l.closed {
		return NetClosed
	}
	l.closed = true
	delete(S.net.listeners, fmt.Sprintf("%s:%d", l.IP, l.Port))
	return NetOK
}

func (e *End) SetReadDeadline(t int64)  { e.rdl = t }
func (e *End) SetWriteDeadline(t int64) { e.wdl = t }

func (e *End) Read(b []byte) (int, NetErr) {
	if Ended() {
		return 0, NetClosed
	}
	Point()
	if e.closed {
		return 0, NetClosed
	}
	if len(b) == 0 {
		return 0, NetOK
	}
	for {
		if e.closed {
			return 0, NetClosed
		}
		if e.rdl != 0 && S.now >= e.rdl {
			return 0, NetTimeout
		}
		if e.in.reset {
			return 0, NetReset
		}
		if e.in.readable(S.now) {
			break
		}
		if e.in.fin && len(e.in.segs) == 0 {
			return 0, NetEOF
		}
		w := int64(-1)
		if e.rdl != 0 {
			w = e.rdl
		}
		rdl := e.rdl
		ParkUntil(func() bool {
			return e.closed || e.in.reset || e.in.readable(S.now) || (e.in.fin && len(e.in.segs) == 0) || e.rdl != rdl
		}, w)
	}
	e.in.so.Acquire()
	// Gather what has arrived.
	n := 0
	now := S.now
	for _, sg := range e.in.segs {
		if sg.at > now || n >= len(b) {
			break
		}
		n += len(sg.data)
	}
	if n > len(b) {
		n = len(b)
	}
	if S.ShortReads && n > 1 && S.exploring {
		switch ChooseEnv(3) {
		case 1:
			n = 1
		case 2:
			n = n - 1
		}
	}
	got := 0
	for got < n {
		sg := &e.in.segs[0]
		k := copy(b[got:n], sg.data)
		got += k
		sg.data = sg.data[k:]
		if len(sg.data) == 0 {
			e.in.segs = e.in.segs[1:]
		}
	}
	e.in.size -= n
	e.Received += int64(n)
	return n, NetOK
}

func (e *End) Write(b []byte) (int, NetErr) {
	if Ended() {
		return 0, NetClosed
	}
	Point()
	done := 0
	for {
		if e.closed {
			return done, NetClosed
		}
		if e.wdl != 0 && S.now >= e.wdl {
			return done, NetTimeout
		}
		if e.out.reset {
			return done, NetReset
		}
		if e.out.rdClosed {
			e.out.reset = true // the peer answers with a reset; later operations fail
			return len(b), NetOK
		}
		room := S.NetCap - e.out.size
		if room > 0 || done == len(b) {
			k := len(b) - done
			if k > room {
				k = room
			}
			e.push(b[done : done+k])
			done += k
			if done == len(b) {
				return done, NetOK
			}
			continue
		}
		w := int64(-1)
		if e.wdl != 0 {
			w = e.wdl
		}
		ParkUntil(func() bool {
			return e.closed || e.out.reset || e.out.rdClosed || e.out.size < S.NetCap
		}, w)
	}
}

func (e *End) push(d []byte) {
	if len(d) == 0 {
		return
	}
	at := S.now
	if S.NetDelay > 0 && S.exploring && ChooseEnv(2) == 1 {
		at = S.now + S.NetDelay
	}
	if at < e.out.lastAt {
		at = e.out.lastAt
	}
	e.out.lastAt = at
	if at > S.now {
		S.net.delayed = append(S.net.delayed, at)
	}
	e.out.so.Release()
	e.out.segs = append(e.out.segs, seg{append([]byte(nil), d...), at})
	e.out.size += len(d)
	e.out.total += int64(len(d))
}

func (e *End) doClose() {
	e.closed = true
	e.out.fin = true
	e.in.rdClosed = true
}

func (e *End) Close() NetErr {
	if Ended() {
		return NetClosed
	}
	Point()
	if e.closed {
		return NetClosed
	}
	e.doClose()
	return NetOK
}

func (e *End) CloseWrite() NetErr {
	Point()
	e.out.fin = true
	return NetOK
}

// Unread returns the number of bytes waiting for this end.
func (e *End) Unread() int { return e.in.size }
