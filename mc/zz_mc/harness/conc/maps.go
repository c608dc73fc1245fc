package conc

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/levilutz/basiccoin/pkg/disksyncmap"
	"github.com/levilutz/basiccoin/pkg/syncmap"
	"github.com/levilutz/basiccoin/pkg/syncqueue"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// hop is one operation of a concurrent history.
type hop struct {
	name      string
	args      []int
	res       string
	call, ret int
	thread    int
}

func (h hop) String() string { return fmt.Sprintf("t%d:%s%v=%s", h.thread, h.name, h.args, h.res) }

// linearizable searches for a sequential order explaining the results.
func linearizable(ops []*hop, step func(st string, o *hop) (string, string)) bool {
	seen := map[string]bool{}
	var rec func(mask int, st string) bool
	rec = func(mask int, st string) bool {
		if mask == 1<<len(ops)-1 {
			return true
		}
		k := fmt.Sprint(mask, "|", st)
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := 1 << 30
		for i, o := range ops {
			if mask&(1<<i) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if mask&(1<<i) != 0 || o.call > minRet {
				continue
			}
			if ns, r := step(st, o); r == o.res {
				if rec(mask|1<<i, ns) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, "")
}

// queue model: state "closed" or comma separated items.
func qStep(st string, o *hop) (string, string) {
	closed := strings.HasPrefix(st, "!")
	var l []string
	if !closed && st != "" {
		l = strings.Split(st, ",")
	}
	j := func(l []string) string { return strings.Join(l, ",") }
	switch o.name {
	case "push":
		if closed {
			return st, "ok"
		}
		for _, a := range o.args {
			l = append(l, strconv.Itoa(a))
		}
		return j(l), "ok"
	case "pop":
		if len(l) == 0 {
			return st, "none"
		}
		return j(l[1:]), l[0]
	case "peek":
		if len(l) == 0 {
			return st, "none"
		}
		return st, l[0]
	case "size":
		return st, strconv.Itoa(len(l))
	case "close":
		return "!", "ok"
	case "closed":
		return st, fmt.Sprint(closed)
	}
	return st, "?"
}

func optRes(v int, ok bool) string {
	if !ok {
		return "none"
	}
	return strconv.Itoa(v)
}

type hsys struct {
	x   *mcx.X
	n   *mcrt.Node
	seq int
	ops []*hop
}

func (h *hsys) do(th int, name string, args []int, f func() string) {
	o := &hop{name: name, args: args, thread: th}
	h.seq++
	o.call = h.seq
	o.ret = 1 << 29
	h.ops = append(h.ops, o)
	r := f()
	o.res = r
	h.seq++
	o.ret = h.seq
}

func (h *hsys) run(threads ...func()) bool {
	done := 0
	for i, f := range threads {
		f := f
		h.x.S.GoNode(h.n, fmt.Sprintf("t%d", i), func() { f(); done++ })
	}
	mcrt.ParkUntil(func() bool { return done == len(threads) || h.n.Crashed }, mcrt.Now()+30*sec)
	h.x.S.Explore(false)
	if h.n.Crashed {
		h.x.Fail("crash", "process crashed: %s (history %v)", h.n.CrashMsg, h.ops)
		return false
	}
	if done != len(threads) {
		h.x.Fail("hang", "operations did not finish within 30 s: %v", h.ops)
		return false
	}
	return true
}

func qOp(h *hsys, q *syncqueue.SyncQueue[int], th, op, base int) {
	switch op {
	case 0:
		h.do(th, "push", []int{base, base + 1}, func() string { q.Push(base, base+1); return "ok" })
	case 1:
		h.do(th, "pop", nil, func() string { return optRes(q.Pop()) })
	case 2:
		h.do(th, "peek", nil, func() string { return optRes(q.Peek()) })
	case 3:
		h.do(th, "size", nil, func() string { return strconv.Itoa(q.Size()) })
	case 4:
		h.do(th, "close", nil, func() string { q.Close(); return "ok" })
	case 5:
		h.do(th, "push", []int{base}, func() string { q.Push(base); return "ok" })
	case 6:
		h.do(th, "closed", nil, func() string { return fmt.Sprint(q.Closed()) })
	}
}

func queueScn(name string, bound int, init []int, progs func(x *mcx.X) [][]int) mcx.Scenario {
	return mcx.Scenario{Name: name, Bound: bound, Opt: func(s *mcrt.Sched) { s.StmtPoints = true; s.RaceDetect = true }, Body: func(x *mcx.X) {
		h := &hsys{x: x, n: x.S.NewNode("n", "10.0.0.1")}
		pr := progs(x)
		var q *syncqueue.SyncQueue[int]
		x.S.CallNode(h.n, "new", func() { q = syncqueue.NewSyncQueue[int]() })
		if len(init) > 0 {
			h.do(9, "push", init, func() string { q.Push(init...); return "ok" })
		}
		x.S.Explore(true)
		var th []func()
		for i, p := range pr {
			i, p := i, p
			th = append(th, func() {
				for k, op := range p {
					qOp(h, q, i, op, 100*(i+1)+10*k)
				}
			})
		}
		if !h.run(th...) {
			return
		}
		for i := 0; i < 3; i++ {
			qOp(h, q, 9, 1, 0)
		}
		qOp(h, q, 9, 3, 0)
		qOp(h, q, 9, 6, 0)
		if !linearizable(h.ops, qStep) {
			x.Fail("queue-not-linearizable", "no sequential order explains %v", h.ops)
		}
		x.State(mcx.Hash(fmt.Sprint(h.ops)), false)
		x.Sample("%v", h.ops)
	}}
}

// Value types for the maps: a value whose prefixes parse as other values.
type mkey string

func (k mkey) String() string { return string(k) }

type mval struct{ A, B int }

func (v mval) String() string { return fmt.Sprintf("%d;%d", v.A, v.B) }
func parseVal(raw string) (v mval, err error) {
	f := strings.Split(raw, ";")
	if len(f) != 2 {
		return v, errors.New("bad value")
	}
	if v.A, err = strconv.Atoi(f[0]); err != nil {
		return
	}
	v.B, err = strconv.Atoi(f[1])
	return
}

type kv interface {
	Has(mkey) bool
	Get(mkey) mval
	Store(mkey, mval)
}

// map model: state "k=v,k=v" over write-once keys (a key is always stored with one value, as ids are).
func mStep(st string, o *hop) (string, string) {
	m := map[string]bool{}
	for _, s := range strings.Split(st, ",") {
		if s != "" {
			m[s] = true
		}
	}
	k := strconv.Itoa(o.args[0])
	switch o.name {
	case "store":
		m[k] = true
		var l []string
		for i := 0; i < 10; i++ {
			if m[strconv.Itoa(i)] {
				l = append(l, strconv.Itoa(i))
			}
		}
		return strings.Join(l, ","), "ok"
	case "has":
		return st, fmt.Sprint(m[k])
	case "get":
		if !m[k] {
			return st, "panic"
		}
		return st, valOf(o.args[0]).String()
	}
	return st, "?"
}

func valOf(k int) mval { return mval{k*1000 + 777, 123456} }

// keyOf: the first ones differ by little.
func keyOf(k int) mkey {
	if l := []mkey{"key0", "Key0", "key", "key00", "KEY0"}; k < len(l) {
		return l[k]
	}
	return mkey("key" + strconv.Itoa(k))
}

func mapOp(h *hsys, m kv, th, op, k int) {
	switch op {
	case 0:
		h.do(th, "store", []int{k}, func() string { m.Store(keyOf(k), valOf(k)); return "ok" })
	case 1:
		h.do(th, "has", []int{k}, func() string { return fmt.Sprint(m.Has(keyOf(k))) })
	case 2:
		h.do(th, "get", []int{k}, func() (r string) {
			defer func() {
				if e := recover(); e != nil {
					r = "panic"
				}
			}()
			return m.Get(keyOf(k)).String()
		})
	}
}

func mapScn(name string, bound int, disk bool, pre []int, progs func(x *mcx.X) [][][2]int) mcx.Scenario {
	return mcx.Scenario{Name: name, Bound: bound, Opt: func(s *mcrt.Sched) {
		s.StmtPoints = true
		s.RaceDetect = true
		s.TornReads = true
	}, Body: func(x *mcx.X) {
		h := &hsys{x: x, n: x.S.NewNode("n", "10.0.0.1")}
		pr := progs(x)
		mk := func() (m kv) {
			x.S.CallNode(h.n, "new", func() {
				if disk {
					m = disksyncmap.NewDiskSyncMap[mkey, mval]("/Data-1/m", parseVal)
				} else {
					m = syncmap.NewSyncMap[mkey, mval]()
				}
			})
			return
		}
		m := mk()
		if disk && len(pre) > 0 {
			// stored by an earlier process on the same directory
			x.S.CallNode(h.n, "pre", func() {
				for _, k := range pre {
					mapOp(h, m, 9, 0, k)
				}
			})
			m = mk()
		}
		x.S.Explore(true)
		var th []func()
		for i, p := range pr {
			i, p := i, p
			th = append(th, func() {
				for _, o := range p {
					mapOp(h, m, i, o[0], o[1])
				}
			})
		}
		if !h.run(th...) {
			return
		}
		x.S.CallNode(h.n, "end", func() {
			for k := 1; k <= 2; k++ {
				mapOp(h, m, 9, 1, k)
				mapOp(h, m, 9, 2, k)
			}
		})
		if disk { // and a later process reads the same
			m2 := mk()
			x.S.CallNode(h.n, "later", func() {
				for k := 1; k <= 2; k++ {
					mapOp(h, m2, 9, 2, k)
				}
			})
		}
		if !linearizable(h.ops, mStep) {
			x.Fail("map-not-linearizable", "no sequential order explains %v", h.ops)
		}
		x.State(mcx.Hash(fmt.Sprint(h.ops)), false)
		x.Sample("%v", h.ops)
	}}
}

// batches pushes the caller's slice, which the caller goes on using, onto two queues.
func batches(depth int) func(x *mcx.X) {
	return func(x *mcx.X) {
		n := x.S.NewNode("n", "10.0.0.1")
		q := make([]*syncqueue.SyncQueue[int], 2)
		ok, pv := x.S.CallNode(n, "batches", func() {
			for i := range q {
				q[i] = syncqueue.NewSyncQueue[int]()
			}
			batch := append(make([]int, 0, 8), 1, 2)
			var model [2][]int
			var path []string
			next := 10
			for d := 0; d < depth; d++ {
				o := x.Pick(8)
				k := o & 1
				switch o / 2 {
				case 0:
					path = append(path, fmt.Sprintf("push %v to %d", batch, k))
					q[k].Push(batch...)
					model[k] = append(append([]int(nil), model[k]...), batch...)
				case 1:
					next++
					path = append(path, fmt.Sprintf("push %d to %d", next, k))
					q[k].Push(next)
					model[k] = append(append([]int(nil), model[k]...), next)
				case 2:
					path = append(path, fmt.Sprintf("pop %d", k))
					v, ok := q[k].Pop()
					if len(model[k]) == 0 && ok || len(model[k]) > 0 && (!ok || v != model[k][0]) {
						x.Fail("batches", "after %v: got %d, %v; expected the first of %v", path, v, ok, model[k])
						return
					}
					if ok {
						model[k] = model[k][1:]
					}
				case 3:
					if k == 0 {
						batch[0] += 100
					} else {
						batch = append(batch[:1], batch[0]+1000)
					}
					path = append(path, fmt.Sprintf("the caller changes its slice to %v", batch))
				}
			}
			for k := range q {
				if q[k].Size() != len(model[k]) {
					x.Fail("batches", "after %v: size %d instead of %d", path, q[k].Size(), len(model[k]))
				}
				for _, w := range model[k] {
					if v, ok := q[k].Pop(); !ok || v != w {
						x.Fail("batches", "after %v: queue %d returned %d, %v instead of %d", path, k, v, ok, w)
						return
					}
				}
			}
			x.State(mcx.Hash(model[0], model[1]), false)
		})
		if !ok {
			x.Fail("crash", "%v", pv)
		}
	}
}

// longQueues: every sequence of phases of many pushes and pops.
func longQueues(depth int) func(x *mcx.X) {
	return func(x *mcx.X) {
		n := x.S.NewNode("n", "10.0.0.1")
		ok, pv := x.S.CallNode(n, "long", func() {
			q := syncqueue.NewSyncQueue[int]()
			first, next := 1, 1 // the queue should hold first, ..., next-1
			var path []string
			pop := func(k int) bool {
				for ; k > 0; k-- {
					w, some := q.Peek()
					v, ok := q.Pop()
					if ok != (first < next) || ok && v != first || some != ok || w != v {
						x.Fail("long", "after %v: got %d, %v (peeked %d, %v) instead of %d of %d", path, v, ok, w, some, first, next-1)
						return false
					}
					if ok {
						first++
					}
				}
				return true
			}
			for d := 0; d < depth; d++ {
				var l []int
				push := func(k int) {
					for ; k > 0; k-- {
						l = append(l, next)
						next++
					}
				}
				switch o := x.Pick(7); o {
				case 0, 1:
					push([]int{5, 400}[o])
					path = append(path, fmt.Sprintf("push %d one by one", len(l)))
					for _, v := range l {
						q.Push(v)
					}
				case 2, 3:
					push([]int{70, 1100}[o-2])
					path = append(path, fmt.Sprintf("push %d at once", len(l)))
					q.Push(l...)
				case 4, 5, 6:
					k := []int{1, 300, next - first + 1}[o-4]
					path = append(path, fmt.Sprintf("pop %d", k))
					if !pop(k) {
						return
					}
				}
				if q.Size() != next-first {
					x.Fail("long", "after %v: size %d instead of %d", path, q.Size(), next-first)
					return
				}
			}
			path = append(path, "pop everything")
			pop(next - first + 1)
			x.State(mcx.Hash(path), false)
		})
		if !ok {
			x.Fail("crash", "%v", pv)
		}
	}
}

// manyKeys: very many entries, then again by a later process.
func manyKeys(x *mcx.X) {
	n := x.S.NewNode("n", "10.0.0.1")
	disk := x.Pick(2) == 1
	count := []int{10, 70, 260, 600}[x.Pick(4)]
	ok, pv := x.S.CallNode(n, "keys", func() {
		mk := func() kv {
			if disk {
				return disksyncmap.NewDiskSyncMap[mkey, mval]("/Data-1/m", parseVal)
			}
			return syncmap.NewSyncMap[mkey, mval]()
		}
		check := func(m kv, when string, upto int) bool {
			for i := 0; i < count+3; i++ {
				if m.Has(keyOf(i)) != (i < upto) || i < upto && m.Get(keyOf(i)) != valOf(i) {
					x.Fail("many-keys", "%s: %d entries stored, key %d: present %v", when, upto, i, m.Has(keyOf(i)))
					return false
				}
			}
			return true
		}
		m := mk()
		for i := 0; i < count; i++ {
			m.Store(keyOf(i), valOf(i))
			if i%64 == 5 && !check(m, "while storing", i+1) {
				return
			}
		}
		for k := 0; k < 2; k++ {
			if !check(m, "after storing", count) {
				return
			}
		}
		if disk {
			check(mk(), "in a later process", count)
		}
		x.State(mcx.Hash(disk, count), false)
	})
	if !ok {
		x.Fail("crash", "%v", pv)
	}
}

func c18(tier string) []mcx.Scenario {
	b := 2
	nops := 5
	if tier == "thorough" {
		b, nops = 3, 7
	}
	out := []mcx.Scenario{
		// all pairs of one-operation and two-operation threads
		queueScn("queue-2x2", b, []int{1, 2}, func(x *mcx.X) [][]int {
			return [][]int{{x.Pick(nops), x.Pick(nops)}, {x.Pick(nops), x.Pick(nops)}}
		}),
		queueScn("queue-empty-2x2", b+1, nil, func(x *mcx.X) [][]int {
			return [][]int{{[]int{0, 5}[x.Pick(2)], x.Pick(nops)}, {[]int{1, 2, 3, 4}[x.Pick(4)], []int{1, 5}[x.Pick(2)]}}
		}),
		queueScn("queue-3x1", b, []int{1, 2, 3}, func(x *mcx.X) [][]int {
			return [][]int{{x.Pick(nops)}, {x.Pick(nops)}, {x.Pick(nops)}}
		}),
	}
	depth := 5
	if tier == "thorough" {
		depth = 7
	}
	out = append(out, mcx.Scenario{Name: "batches", Body: batches(depth)}, mcx.Scenario{Name: "long-queues", MaxSteps: 20_000_000, Body: longQueues(depth - 1)}, mcx.Scenario{Name: "many-keys", MaxSteps: 20_000_000, Body: manyKeys})
	for _, disk := range []bool{false, true} {
		nm, bm := "map", b+1
		if disk {
			nm, bm = "diskmap", b
		}
		out = append(out,
			mapScn(nm+"-store-read", bm, disk, nil, func(x *mcx.X) [][][2]int {
				r := x.Pick(2) + 1
				return [][][2]int{{{0, 1}, {x.Pick(2) + 1, 1}}, {{1, 1}, {r, 1}}, {{0, 2}}}
			}),
			mapScn(nm+"-two-writers", bm, disk, nil, func(x *mcx.X) [][][2]int {
				return [][][2]int{{{0, 1}, {2, 1}}, {{0, 1}, {2, 1}}, {{1 + x.Pick(2), 1}}}
			}),
		)
	}
	out = append(out,
		mapScn("diskmap-preloaded", b, true, []int{1}, func(x *mcx.X) [][][2]int {
			return [][][2]int{{{x.Pick(3), 1}}, {{x.Pick(3), 1}, {1 + x.Pick(2), 1}}, {{1 + x.Pick(2), 2}}}
		}))
	return out
}

func init() {
	mcx.Register(&mcx.Check{ID: "C18", Scenarios: c18, Seconds: 200,
		Assumptions: []string{"sync.Map is trusted to be linearizable and is one atomic step here", "a key of the shared maps is always stored with the same value (keys are content hashes)", "file writes become visible in two pieces; rename is atomic"},
		Rule:        "every combination of the listed operations on 2-3 threads and every schedule with at most the stated number of deviations; the call/return history is checked against a sequential queue or map; a state is a distinct history"})
}
