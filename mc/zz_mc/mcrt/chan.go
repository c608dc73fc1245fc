package mcrt

// Chan replaces the built-in channel.
type Chan[T any] struct {
	cap    int
	buf    []T
	closed bool
	// unbuffered rendezvous
	senders []*waiter[T]
	recvs   []*waiter[T]
	so      SyncObj
}

type waiter[T any] struct {
	val  T
	ok   bool
	done bool
	// for selects: shared token, case index
	tok *selTok
	idx int
}

type selTok struct {
	fired int
}

func MakeChan[T any](n int) *Chan[T] { return &Chan[T]{cap: n} }

func (c *Chan[T]) popRecv() *waiter[T] {
	for len(c.recvs) > 0 {
		w := c.recvs[0]
		c.recvs = c.recvs[1:]
		if w.tok.fired < 0 {
			return w
		}
	}
	return nil
}

func (c *Chan[T]) popSend() *waiter[T] {
	for len(c.senders) > 0 {
		w := c.senders[0]
		c.senders = c.senders[1:]
		if w.tok.fired < 0 {
			return w
		}
	}
	return nil
}

func (c *Chan[T]) hasRecv() bool {
	for len(c.recvs) > 0 && c.recvs[0].tok.fired >= 0 {
		c.recvs = c.recvs[1:]
	}
	return len(c.recvs) > 0
}

func (c *Chan[T]) hasSend() bool {
	for len(c.senders) > 0 && c.senders[0].tok.fired >= 0 {
		c.senders = c.senders[1:]
	}
	return len(c.senders) > 0
}

func (c *Chan[T]) canSend() bool {
	return c.closed || len(c.buf) < c.cap || c.hasRecv()
}

func (c *Chan[T]) canRecv() bool {
	return len(c.buf) > 0 || c.closed || c.hasSend()
}

// trySend performs a send that can proceed.
func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	c.so.Acquire()
	c.so.Release()
	if w := c.popRecv(); w != nil {
		w.val, w.ok, w.done = v, true, true
		w.tok.fired = w.idx
		return
	}
	c.buf = append(c.buf, v)
}

func (c *Chan[T]) doRecv() (v T, ok bool) {
	c.so.Acquire()
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			w.done = true
			w.tok.fired = w.idx
		}
		c.so.Release()
		return v, true
	}
	if w := c.popSend(); w != nil {
		w.done = true
		w.tok.fired = w.idx
		c.so.Release()
		return w.val, true
	}
	return v, false // closed
}

func (c *Chan[T]) Send(v T) {
	if c == nil {
		Block()
		return
	}
	Point()
	if c.canSend() {
		c.doSend(v)
		return
	}
	w := &waiter[T]{val: v, tok: &selTok{fired: -1}}
	c.so.Release()
	c.senders = append(c.senders, w)
	Park(func() bool { return w.done || c.closed })
	if !w.done {
		w.tok.fired = 0
		panic("send on closed channel")
	}
	c.so.Acquire()
}

func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

func (c *Chan[T]) Recv2() (T, bool) {
	if c == nil {
		Block()
	}
	Point()
	if c.canRecv() {
		return c.doRecv()
	}
	w := &waiter[T]{tok: &selTok{fired: -1}}
	c.recvs = append(c.recvs, w)
	Park(func() bool { return w.done || c.closed })
	c.so.Acquire()
	if w.done {
		return w.val, w.ok
	}
	w.tok.fired = 0
	var z T
	return z, false
}

func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	Point()
	if c.closed {
		panic("close of closed channel")
	}
	c.so.Release()
	c.closed = true
}

// TryPush is used by timers: a non-blocking send without a scheduling point.
func (c *Chan[T]) TryPush(v T) bool {
	if c.closed || !c.canSend() {
		return false
	}
	c.doSend(v)
	return true
}

func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// SelCase is one case of a select.
type SelCase interface {
	isReady() bool
	exec()
	enqueue(tok *selTok, idx int)
	finish()
	closedNow() bool
}

type RCase[T any] struct {
	c  *Chan[T]
	V  T
	Ok bool
	w  *waiter[T]
}

type SCase[T any] struct {
	c *Chan[T]
	v T
	w *waiter[T]
}

func (c *Chan[T]) RCase() *RCase[T]    { return &RCase[T]{c: c} }
func (c *Chan[T]) SCase(v T) *SCase[T] { return &SCase[T]{c: c, v: v} }
func (c *Chan[T]) ZeroV() (v T)        { return }
func (r *RCase[T]) isReady() bool      { return r.c != nil && r.c.canRecv() }
func (r *RCase[T]) exec()              { r.V, r.Ok = r.c.doRecv() }
func (r *RCase[T]) closedNow() bool    { return r.c != nil && r.c.closed }
func (r *RCase[T]) enqueue(t *selTok, i int) {
	if r.c == nil {
		return
	}
	r.w = &waiter[T]{tok: t, idx: i}
	r.c.recvs = append(r.c.recvs, r.w)
}
func (r *RCase[T]) finish() {
	r.c.so.Acquire()
	r.V, r.Ok = r.w.val, r.w.ok
}
func (r *SCase[T]) isReady() bool   { return r.c != nil && r.c.canSend() }
func (r *SCase[T]) exec()           { r.c.doSend(r.v) }
func (r *SCase[T]) closedNow() bool { return r.c != nil && r.c.closed }
func (r *SCase[T]) enqueue(t *selTok, i int) {
	if r.c == nil {
		return
	}
	r.c.so.Release()
	r.w = &waiter[T]{val: r.v, tok: t, idx: i}
	r.c.senders = append(r.c.senders, r.w)
}
func (r *SCase[T]) finish() { r.c.so.Acquire() }

// Select executes a select statement and returns the chosen case index (-1: default).
func Select(hasDefault bool, cases ...SelCase) int {
	Point()
	var ready [16]int
	rd := ready[:0]
	for i, c := range cases {
		if c.isReady() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		k := 0
		if len(rd) > 1 && S.exploring && (S.Filter == nil || S.Filter(S.cur)) {
			k = S.choose(len(rd), KSched)
		}
		cases[rd[k]].exec()
		return rd[k]
	}
	if hasDefault {
		return -1
	}
	if len(cases) == 0 {
		Block()
	}
	tok := &selTok{fired: -1}
	for i, c := range cases {
		c.enqueue(tok, i)
	}
	Park(func() bool {
		if tok.fired >= 0 {
			return true
		}
		for _, c := range cases {
			if c.closedNow() {
				return true
			}
		}
		return false
	})
	if tok.fired >= 0 {
		cases[tok.fired].finish()
		return tok.fired
	}
	tok.fired = 1 << 30
	for i, c := range cases {
		if c.closedNow() {
			c.exec()
			return i
		}
	}
	panic("mcrt: select woke without reason")
}
