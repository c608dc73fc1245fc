package conc

import (
	"fmt"

	"github.com/levilutz/basiccoin/pkg/topic"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

const ms = int64(1_000_000)
const sec = 1000 * ms

// pub is one Pub call of a publisher.
type pub struct {
	who       int
	msgs      []int
	call, ret int
}

// tsys is a topic with logging publishers and subscribers.
type tsys struct {
	x    *mcx.X
	n    *mcrt.Node
	t    *topic.Topic[int]
	seq  int
	pubs []*pub
	subs []*sub
}

type sub struct {
	name      string
	ch        *topic.SubCh[int]
	q         topic.Sub[int]
	call, ret int // of the subscription
	closing   int // start of Close (0: never)
	closed    int // return of Close
	got       []int
	ended     bool
	reading   bool
}

func newT(x *mcx.X) *tsys {
	y := &tsys{x: x, n: x.S.NewNode("n", "10.0.0.1")}
	x.S.CallNode(y.n, "new", func() { y.t = topic.NewTopic[int]() })
	return y
}

func (y *tsys) tick() int { y.seq++; return y.seq }

func (y *tsys) goPub(who int, batches ...[]int) *bool {
	done := new(bool)
	y.x.S.GoNode(y.n, fmt.Sprintf("pub%d", who), func() {
		for _, b := range batches {
			y.pub(who, b...)
		}
		*done = true
	})
	return done
}

func (y *tsys) pub(who int, msgs ...int) {
	p := &pub{who: who, msgs: msgs, call: y.tick()}
	y.pubs = append(y.pubs, p)
	y.t.Pub(msgs...)
	p.ret = y.tick()
}

// subscribe creates a SubCh (in the calling thread) and a consumer thread reading it.
func (y *tsys) subscribe(name string, read bool) *sub {
	s := &sub{name: name, call: y.tick(), reading: read}
	y.subs = append(y.subs, s)
	s.ch = y.t.SubCh()
	s.ret = y.tick()
	if read {
		y.x.S.GoNode(y.n, "consumer-"+name, func() {
			for {
				m, ok := s.ch.C.Recv2()
				if !ok {
					break
				}
				s.got = append(s.got, m)
			}
			s.ended = true
		})
	}
	return s
}

func (y *tsys) subQ(name string) *sub {
	s := &sub{name: name, call: y.tick()}
	y.subs = append(y.subs, s)
	s.q = y.t.Sub()
	s.ret = y.tick()
	return s
}

func (y *tsys) goDo(name string, f func()) *bool {
	done := new(bool)
	y.x.S.GoNode(y.n, name, func() { f(); *done = true })
	return done
}

// waitAll lets the system run until all flags are set (or 30 virtual seconds pass).
func (y *tsys) waitAll(what string, fl ...*bool) bool {
	lim := mcrt.Now() + 30*sec
	mcrt.ParkUntil(func() bool {
		if y.n.Crashed {
			return true
		}
		for _, f := range fl {
			if !*f {
				return false
			}
		}
		return true
	}, lim)
	if y.n.Crashed {
		y.x.Fail("crash", "the process crashed: %s", y.n.CrashMsg)
		return false
	}
	for i, f := range fl {
		if !*f {
			y.x.Fail("hang", "operation %d (%s) did not finish within 30 s", i, what)
			return false
		}
	}
	return true
}

// skip lets time pass at once (as if the machine had been suspended).
func (y *tsys) skip(d int64) {
	y.x.S.Explore(false)
	y.x.S.AdvanceTo(mcrt.Now() + d)
	mcrt.Sleep(60 * ms)
}

func (y *tsys) settle(d int64) {
	y.x.S.Explore(false)
	mcrt.Sleep(d)
}

// judge checks what a subscriber that is still open received.
func (y *tsys) judge(s *sub) {
	pos := map[int]int{}
	for i, m := range s.got {
		if _, dup := pos[m]; dup {
			y.x.Fail("duplicate", "subscriber %s received message %d twice: %v", s.name, m, s.got)
			return
		}
		pos[m] = i
	}
	published := map[int]bool{}
	for _, p := range y.pubs {
		cnt := 0
		for _, m := range p.msgs {
			published[m] = true
			if _, ok := pos[m]; ok {
				cnt++
			}
		}
		must := p.call > s.ret && (s.closing == 0 || (p.ret != 0 && p.ret < s.closing))
		if s.closing != 0 {
			must = false // what was still queued at Close is discarded
		}
		mustNot := (p.ret != 0 && p.ret < s.call)
		if must && cnt != len(p.msgs) {
			y.x.Fail("lost", "subscriber %s (subscribed before) received %v, missing some of %v", s.name, s.got, p.msgs)
			return
		}
		if mustNot && cnt != 0 {
			y.x.Fail("early", "subscriber %s received %v published before it subscribed", s.name, p.msgs)
			return
		}
		if cnt != 0 && (cnt == len(p.msgs) || s.closing == 0) {
			if cnt != len(p.msgs) {
				y.x.Fail("split", "subscriber %s received only part of the publish %v: %v", s.name, p.msgs, s.got)
				return
			}
			for i, m := range p.msgs {
				if pos[m] != pos[p.msgs[0]]+i {
					y.x.Fail("order", "subscriber %s received publish %v not contiguously in order: %v", s.name, p.msgs, s.got)
					return
				}
			}
		}
	}
	for _, m := range s.got {
		if !published[m] {
			y.x.Fail("foreign", "subscriber %s received %d which nobody published: %v", s.name, m, s.got)
			return
		}
	}
	// publishing order (also between publishers whose publishes did not overlap)
	for _, a := range y.pubs {
		for _, b := range y.pubs {
			if a == b || a.ret == 0 || a.ret > b.call {
				continue
			}
			for _, ma := range a.msgs {
				for _, mb := range b.msgs {
					pa, ok1 := pos[ma]
					pb, ok2 := pos[mb]
					if ok1 && ok2 && pa > pb {
						y.x.Fail("order", "subscriber %s received %d before %d although %d was published first: %v", s.name, mb, ma, ma, s.got)
						return
					}
					if a.who == b.who && !ok1 && ok2 && a.call > s.ret && s.closing == 0 {
						y.x.Fail("lost", "subscriber %s skipped %d: %v", s.name, ma, s.got)
						return
					}
				}
			}
		}
	}
}

func (y *tsys) outcome() {
	var o []any
	for _, s := range y.subs {
		o = append(o, s.name, s.got, s.ended)
	}
	y.x.State(mcx.Hash(o...), false)
	y.x.Sample("received: %v", o)
}

func (y *tsys) judgeAll() {
	for _, s := range y.subs {
		if s.reading || s.q != nil {
			y.judge(s)
		}
	}
	y.outcome()
}

// closeAll closes the given channel subscriptions without exploration and checks the ends.
func (y *tsys) finalClose() {
	for _, s := range y.subs {
		s := s
		if s.ch == nil || s.closing != 0 {
			continue
		}
		d := y.goDo("final-close", func() { s.ch.Close() })
		if !y.waitAll("final close of "+s.name, d) {
			return
		}
		mcrt.Sleep(ms)
		if s.reading && !s.ended {
			y.x.Fail("no-end", "consumer of %s did not see the end of the channel after Close", s.name)
		}
	}
}

func opt(s *mcrt.Sched) {
	s.StmtPoints = true
	s.RaceDetect = true
	s.MaxSteps = 400000
	s.MinSleep = 5 * ms
}
func optTime(s *mcrt.Sched) { opt(s); s.TimeDev = true }

// toGC sleeps until just the moment the topic's cleanup ticker fires.
func (y *tsys) toGC() {
	y.x.S.AdvanceTo(mcrt.BaseTime + 15*sec - ms)
	mcrt.Sleep(ms)
}

func c16(tier string) []mcx.Scenario {
	b := 3
	if tier == "thorough" {
		b = 4
	}
	return []mcx.Scenario{
		{Name: "two-publishers-two-subscribers", Bound: b, Opt: opt, Body: func(x *mcx.X) {
			y := newT(x)
			y.subscribe("a", true)
			y.subQ("q")
			x.S.Explore(true)
			d1 := y.goPub(1, []int{1}, []int{2, 3})
			d2 := y.goPub(2, []int{11, 12})
			if !y.waitAll("publish", d1, d2) {
				return
			}
			y.settle(60 * ms)
			for {
				v, ok := y.subs[1].q.Pop()
				if !ok {
					break
				}
				y.subs[1].got = append(y.subs[1].got, v)
			}
			y.judgeAll()
			y.finalClose()
		}},
		{Name: "late-subscriber", Bound: b - 1, Opt: opt, Body: func(x *mcx.X) {
			y := newT(x)
			y.subscribe("a", true)
			x.S.Explore(true)
			d1 := y.goPub(1, []int{1, 2}, []int{3, 4})
			d2 := y.goDo("late", func() { y.subscribe("late", true); y.pub(2, 21) })
			if !y.waitAll("publish/subscribe", d1, d2) {
				return
			}
			y.settle(60 * ms)
			y.judgeAll()
			y.finalClose()
		}},
		{Name: "delivery-while-publishing", Bound: b, Opt: optTime, Body: func(x *mcx.X) {
			y := newT(x)
			y.subscribe("a", true)
			x.S.Explore(true)
			d1 := y.goPub(1, []int{1}, []int{2}, []int{3})
			if !y.waitAll("publish", d1) {
				return
			}
			mcrt.Sleep(30 * ms)
			y.settle(60 * ms)
			y.judgeAll()
			y.finalClose()
		}},
		{Name: "cleanup-with-closed-queue-subscription", Bound: b - 1, Opt: opt, Body: func(x *mcx.X) {
			y := newT(x)
			q0 := y.subQ("q0")
			y.subscribe("a", true)
			q1 := y.subQ("q1")
			y.toGC()
			x.S.Explore(true)
			d1 := y.goDo("closer", func() { q0.closing = y.tick(); q0.q.Close(); q0.closed = y.tick() })
			d2 := y.goPub(1, []int{1}, []int{2, 3})
			d3 := y.goDo("late", func() { y.subscribe("late", true) })
			if !y.waitAll("publish", d1, d2, d3) {
				return
			}
			y.settle(60 * ms)
			drain(y, q1)
			if v, ok := q0.q.Pop(); ok {
				x.Fail("closed-queue", "closed subscription returned %d", v)
			}
			y.judgeAll()
			// after another cleanup round everything still works
			y.skip(16 * sec)
			y.pub(3, 31, 32)
			mcrt.Sleep(60 * ms)
			drain(y, q1)
			y.judgeAll()
			y.finalClose()
		}},
		{Name: "close-one-channel-others-keep-receiving", Bound: b - 1, Opt: optTime, Body: func(x *mcx.X) {
			y := newT(x)
			a := y.subscribe("a", true)
			y.subscribe("b", true)
			q := y.subQ("q")
			x.S.Explore(true)
			d1 := y.goPub(1, []int{1}, []int{2, 3})
			d2 := y.goDo("closer", func() { a.closing = y.tick(); a.ch.Close(); a.closed = y.tick() })
			if !y.waitAll("publish/close", d1, d2) {
				return
			}
			y.settle(60 * ms)
			y.pub(3, 31)
			y.skip(16 * sec)
			y.pub(3, 32)
			mcrt.Sleep(60 * ms)
			drain(y, q)
			y.judgeAll()
			y.finalClose()
		}},
		{Name: "come-and-go", Opt: func(s *mcrt.Sched) { opt(s); s.StmtPoints = false }, Body: comeAndGo},
		{Name: "large-publishes", Bound: 1, Opt: func(s *mcrt.Sched) { opt(s); s.MaxSteps = 4000000 }, Body: func(x *mcx.X) {
			y := newT(x)
			n := []int{40, 70, 300}[x.Pick(3)]
			var m1, m2 []int
			for i := 0; i < n; i++ {
				m1, m2 = append(m1, 1000+i), append(m2, 5000+i)
			}
			q := y.subQ("q")
			x.S.Explore(true)
			d1 := y.goPub(1, m1)
			d2 := y.goPub(2, m2)
			if !y.waitAll("publish", d1, d2) {
				return
			}
			y.settle(60 * ms)
			drain(y, q)
			y.judgeAll()
		}},
		{Name: "slow-subscribers", Opt: func(s *mcrt.Sched) { s.MaxSteps = 4000000; s.MinSleep = 5 * ms }, Body: slow},
		{Name: "consumer-pops-concurrently", Bound: b, Opt: opt, Body: func(x *mcx.X) {
			y := newT(x)
			q := y.subQ("q")
			x.S.Explore(true)
			d1 := y.goPub(1, []int{1, 2}, []int{3})
			d2 := y.goDo("popper", func() {
				for i := 0; i < 4; i++ {
					if q.q.Size() > 0 {
						p, ok1 := q.q.Peek()
						v, ok := q.q.Pop()
						if !ok1 || !ok || p != v {
							x.Fail("peek", "single consumer: Size>0 but Peek=%d,%v Pop=%d,%v", p, ok1, v, ok)
						}
						if ok {
							q.got = append(q.got, v)
						}
					} else if v, ok := q.q.Pop(); ok {
						q.got = append(q.got, v)
					}
				}
			})
			if !y.waitAll("publish/pop", d1, d2) {
				return
			}
			y.settle(ms)
			drain(y, q)
			y.judgeAll()
		}},
	}
}

// comeAndGo: whichever subscriptions are closed between cleanups, all others keep receiving everything.
func comeAndGo(x *mcx.X) {
	y := newT(x)
	next := 1
	var open []*sub
	path := ""
	add := func(n int) {
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("s%d", len(y.subs))
			if len(y.subs)%3 == 2 {
				open = append(open, y.subscribe(name, true))
			} else {
				open = append(open, y.subQ(name))
			}
		}
		path += fmt.Sprintf("+%d ", n)
	}
	send := func() bool {
		y.pub(1, next, next+1)
		next += 2
		mcrt.Sleep(60 * ms)
		for _, s := range open {
			if s.q != nil {
				drain(y, s)
			}
			y.judge(s)
		}
		return !x.Failed()
	}
	add(1 + x.Pick(4))
	for round := 0; round < 2; round++ {
		var left []*sub
		for _, s := range open {
			if x.Pick(2) == 0 {
				left = append(left, s)
				continue
			}
			path += "-" + s.name + " "
			s.closing = y.tick()
			if s.q != nil {
				s.q.Close()
			} else {
				s.ch.Close()
			}
			s.closed = y.tick()
		}
		open = left
		if x.Pick(2) == 1 {
			path += "cleanup "
			y.skip(16 * sec)
		}
		add(1 + x.Pick(2))
		if !send() {
			return
		}
	}
	y.skip(16 * sec)
	if !send() {
		return
	}
	x.State(mcx.Hash(path), false)
	x.Sample("%s", path)
	y.finalClose()
}

// slow lets subscribers fall far behind (in messages and in time) before they read: nothing may
// be dropped, whatever the backlog, the batch sizes and the cleanup rounds in between.
func slow(x *mcx.X) {
	y := newT(x)
	n := []int{3, 70, 5000}[x.Pick(3)]
	batch := []int{1, 64, 1100}[x.Pick(3)]
	wait := []int64{60 * ms, 40 * sec, 1300 * sec}[x.Pick(3)]
	q := y.subQ("q")
	a := y.subscribe("a", false)
	halfRead := x.Pick(2) == 1
	var want []int
	send := func(m int) {
		buf := make([]int, 0, batch+1)
		for i := 0; i < m; {
			b := buf[:0] // the publisher uses its memory again
			for ; i < m && len(b) < batch; i++ {
				b = append(b, len(want))
				want = append(want, len(want))
			}
			y.t.Pub(b...)
		}
	}
	send(n)
	if halfRead {
		for i := 0; i < n/2; i++ {
			v, _ := q.q.Pop()
			q.got = append(q.got, v)
		}
	}
	mcrt.Sleep(wait)
	send(n/2 + 1)
	mcrt.Sleep(wait)
	drain(y, q)
	x.S.GoNode(y.n, "consumer-a", func() {
		for {
			m, ok := a.ch.C.Recv2()
			if !ok {
				break
			}
			a.got = append(a.got, m)
		}
		a.ended = true
	})
	mcrt.Sleep(sec)
	send(2)
	mcrt.Sleep(sec)
	drain(y, q)
	for _, s := range y.subs {
		if fmt.Sprint(s.got) != fmt.Sprint(want) {
			at := 0
			for at < len(s.got) && at < len(want) && s.got[at] == want[at] {
				at++
			}
			x.Fail("lost", "subscriber %s, which reads slowly, received %d of %d messages (first difference at message %d)", s.name, len(s.got), len(want), at)
			return
		}
	}
	x.State(mcx.Hash(n, batch, wait, halfRead), false)
	a.reading = true
	y.finalClose()
}

func drain(y *tsys, q *sub) {
	for {
		v, ok := q.q.Pop()
		if !ok {
			return
		}
		q.got = append(q.got, v)
	}
}

func c17(tier string) []mcx.Scenario {
	b := 2
	if tier == "thorough" {
		b = 3
	}
	type cfg struct {
		name    string
		queued  int   // messages queued before
		reading bool  // somebody reads the channel being closed
		wait    int64 // time before the close starts
		pubs    int
		time    bool
		bound   int
		gc      bool
	}
	var out []mcx.Scenario
	for _, c := range []cfg{
		{"idle-unread", 0, false, 0, 0, true, b, false},
		{"queued-unread", 3, false, 0, 1, false, b, false},
		{"blocked-delivery-unread", 2, false, 60 * ms, 1, false, b, false},
		{"queued-read", 3, true, 0, 1, false, b, false},
		{"after-delivery-read", 2, true, 60 * ms, 2, false, b, false},
		{"publish-while-closing", 1, true, 25 * ms, 2, true, b - 1, false},
		{"blocked-delivery-timed", 3, false, 60 * ms, 1, true, b - 1, false},
		{"with-cleanup", 1, true, 0, 1, false, b, true},
		{"long-queue-unread", 1500, false, 60 * ms, 1, false, 0, false},
		{"long-queue-read", 1500, true, 0, 1, false, 0, false},
	} {
		c := c
		o := opt
		if c.time {
			o = optTime
		}
		out = append(out, mcx.Scenario{Name: c.name, Bound: c.bound, Opt: o, Body: func(x *mcx.X) {
			y := newT(x)
			a := y.subscribe("a", c.reading)
			y.subscribe("other", true)
			for i := 0; i < c.queued; i++ {
				y.pub(0, 100+i)
			}
			if c.gc {
				y.toGC()
			} else if c.wait > 0 {
				mcrt.Sleep(c.wait)
			}
			x.S.Explore(true)
			var fl []*bool
			if c.pubs > 0 {
				fl = append(fl, y.goPub(1, []int{1, 2}))
			}
			if c.pubs > 1 {
				fl = append(fl, y.goPub(2, []int{3}))
			}
			fl = append(fl, y.goDo("closer", func() {
				a.closing = y.tick()
				a.ch.Close()
				a.closed = y.tick()
				// from now on every receive must see the end immediately
				done := false
				var v int
				ok := false
				x.S.GoNode(y.n, "after", func() { v, ok = a.ch.C.Recv2(); done = true })
				mcrt.ParkUntil(func() bool { return done }, mcrt.Now()+sec)
				if !done {
					x.Fail("no-end", "a receive after Close returned blocks")
				} else if ok {
					x.Fail("late", "message %d delivered after Close returned", v)
				}
			}))
			if !y.waitAll("close/publish", fl...) {
				return
			}
			y.settle(60 * ms)
			if y.n.Crashed {
				x.Fail("crash", "%s", y.n.CrashMsg)
				return
			}
			if c.reading && !a.ended {
				x.Fail("no-end", "the consumer did not see the end of the channel")
			}
			y.pub(4, 41, 42)
			y.skip(16 * sec)
			y.pub(4, 43)
			mcrt.Sleep(60 * ms)
			if y.n.Crashed {
				x.Fail("crash", "%s", y.n.CrashMsg)
				return
			}
			for _, s := range y.subs {
				if s.reading {
					y.judge(s)
				}
			}
			y.outcome()
			y.finalClose()
		}})
	}
	out = append(out, mcx.Scenario{Name: "queue-subscription", Bound: b, Opt: opt, Body: func(x *mcx.X) {
		y := newT(x)
		q := y.subQ("q")
		y.subscribe("other", true)
		y.pub(0, 100)
		x.S.Explore(true)
		d1 := y.goPub(1, []int{1, 2})
		d2 := y.goDo("closer", func() {
			q.closing = y.tick()
			q.q.Close()
			q.closed = y.tick()
			if v, ok := q.q.Pop(); ok {
				x.Fail("late", "closed subscription returned %d", v)
			}
			if v, ok := q.q.Peek(); ok {
				x.Fail("late", "closed subscription shows %d", v)
			}
			if n := q.q.Size(); n != 0 {
				x.Fail("late", "closed subscription has size %d", n)
			}
		})
		d3 := y.goDo("popper", func() {
			for i := 0; i < 3; i++ {
				if v, ok := q.q.Pop(); ok {
					q.got = append(q.got, v)
				}
			}
		})
		if !y.waitAll("close/publish/pop", d1, d2, d3) {
			return
		}
		y.skip(16 * sec)
		y.pub(3, 31)
		mcrt.Sleep(60 * ms)
		if v, ok := q.q.Pop(); ok {
			x.Fail("late", "closed subscription returned %d", v)
		}
		for _, s := range y.subs {
			if s != q {
				y.judge(s)
			}
		}
		y.outcome()
	}})
	out = append(out, mcx.Scenario{Name: "two-closers", Bound: b - 1, Opt: opt, Body: func(x *mcx.X) {
		y := newT(x)
		a := y.subscribe("a", true)
		c := y.subscribe("c", false)
		y.subscribe("other", true)
		y.pub(0, 100, 101)
		x.S.Explore(true)
		d1 := y.goDo("closer1", func() { a.closing = y.tick(); a.ch.Close(); a.closed = y.tick() })
		d2 := y.goDo("closer2", func() { c.closing = y.tick(); c.ch.Close(); c.closed = y.tick() })
		d3 := y.goPub(1, []int{1})
		if !y.waitAll("two closes", d1, d2, d3) {
			return
		}
		y.settle(60 * ms)
		y.pub(3, 31)
		mcrt.Sleep(60 * ms)
		y.judge(y.subs[2])
		if !a.ended {
			x.Fail("no-end", "the consumer did not see the end of the channel")
		}
		y.outcome()
	}})
	return out
}

func init() {
	as := []string{"sequentially consistent interleavings at statement granularity of pkg/topic, pkg/syncqueue, pkg/queue (plus a happens-before race check); map iteration in a fixed order; at most the stated number of scheduling deviations from round robin"}
	mcx.Register(&mcx.Check{ID: "C16", Scenarios: c16, Assumptions: as, Seconds: 200,
		Rule: "every schedule with at most the stated number of deviations (preemptions at any statement, other choice of the next thread, or time passing early) of each publisher/subscriber/cleanup scenario; a state is a distinct tuple of received sequences"})
	mcx.Register(&mcx.Check{ID: "C17", Scenarios: c17, Assumptions: as, Seconds: 200,
		Rule: "every schedule with at most the stated number of deviations of each closing scenario; a state is a distinct tuple of received sequences"})
}
