// Package mcrt is a cooperative runtime for model checking Go code: it runs one
// goroutine ("thread") at a time, owns time, and records every nondeterministic
// decision so that executions can be replayed and enumerated.
package mcrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// Choice kinds.
const (
	KData  = 0 // harness input choice: enumerated in full, costs nothing
	KSched = 1 // scheduling deviation
	KEnv   = 2 // environment deviation (short read, delay, random pick, ...)
	KTime  = 3 // time advances although a thread could run
)

// A recorded decision.
type Choice struct {
	N    int
	C    int
	Kind uint8
	Hash uint64 // hash of the decision sequence before this one
}

// Fixed is one non-default decision of a prefix.
type Fixed struct {
	Pos int `json:"p"`
	Val int `json:"v"`
}

const BaseTime = int64(1_700_000_000) * 1_000_000_000

// Thread is one cooperatively scheduled goroutine.
type Thread struct {
	id      int
	name    string
	node    *Node
	wake    chan struct{}
	ready   func() bool // nil: runnable (unless parkedForever)
	forever bool
	wakeAt  int64 // -1: none
	done    bool
	killed  bool
	spins   int
	points  int
	vc      vclock
	isMain  bool
	quantum int   // loop iterations after which cost passes (0: use the scheduler's)
	iters   int   // iterations since
	cost    int64 // virtual ns
}

// Slow makes every n loop iterations of the thread take the given virtual time.
func (t *Thread) Slow(n int, cost int64) { t.quantum, t.cost = n, cost }

// Node is a simulated process: its own file system, http handlers, ip, and crash status.
type Node struct {
	Name        string
	IP          string
	Crashed     bool
	CrashMsg    string
	FS          *FS
	HTTP        any
	HTTPPorts   map[int]any
	Out         strings.Builder
	OutLimit    int
	Stdin       []byte
	Args        []string
	Panics      int // recovered-by-harness count of unrecovered panics
	Terminated  bool
	NoTime      bool
	MaxAlloc    int64
	MaxAllocPos string
	Data        map[string]any
}

type Sched struct {
	threads     []*Thread
	live        []*Thread
	cur         *Thread
	now         int64
	steps       int
	MaxSteps    int
	choices     []Choice
	chash       uint64
	fixed       []Fixed
	fixedHash   uint64
	fi          int
	exploring   bool
	Diverged    string
	aborted     string
	ended       bool
	Nodes       []*Node
	doneCh      chan struct{}
	nextSeq     uint64
	loops       int
	LoopQuantum int   // back-edges between forced yields
	LoopLimit   int   // back-edges without any blocking before "livelock"
	LoopCost    int64 // virtual ns added per forced yield
	prng        uint64
	// options
	TimeDev    bool // offer "advance time" as a deviation
	TimeDevMax int64
	MinSleep   int64 // shorter sleeps take this long (sleeping longer is always possible)
	StmtPoints bool  // statement level scheduling points in flagged packages
	RaceDetect bool
	Filter     func(t *Thread) bool // which threads may be deviated to
	MapDesc    bool
	NetDelay   int64 // >0: offer a delayed delivery of this many ns at each write
	ShortReads bool
	NetCap     int
	TornReads  bool // file writes become visible in two pieces
	BigAlloc   int64
	// so many incoming connections of the node AcceptAt end with an error of Accept
	AcceptFails int
	AcceptAt    string
	Races       []string
	Switches    int
	Trace       []string
	TraceOn     bool
	TraceAll    bool
	net         *vnet
	HTTPDown    func(client, server *Node, method, url string) bool
	HTTPAnswer  func(client, server *Node, method, url string) (int, string) // an answer (status not 0) in place of the server's
	HTTPCut     func(client, server *Node, method, url string) bool          // the answer breaks off halfway
	userVals    map[string]any
	AllocBytes  int64
	LastAlloc   string
	keyCount    uint64
	mainNode    *Node
}

// S is the scheduler of the running execution (nil outside executions).
var S *Sched

type killSignal struct{}

// NewSched prepares an execution.
func NewSched() *Sched {
	s := &Sched{
		now: BaseTime, MaxSteps: 2_000_000, LoopQuantum: 20000, LoopLimit: 40_000_000, LoopCost: 1_000_000,
		TimeDevMax: 200_000_000, MinSleep: 1_000_000,
		doneCh: make(chan struct{}), prng: 0x9E3779B97F4A7C15, BigAlloc: 64 << 20, NetCap: 1 << 22,
		userVals: map[string]any{},
	}
	s.net = newVnet()
	return s
}

// Outcome of an execution.
type Outcome struct {
	Choices  []Choice
	Steps    int
	Switches int
	Aborted  string // "", "deadlock: ...", "horizon", "livelock: ..."
	Panic    string // panic of the harness body itself
	Diverged string
	LastData int // position of the last harness input choice (-1: none)
}

var resets []func()

// OnReset registers a function restoring package level state before each execution.
func OnReset(f func()) { resets = append(resets, f) }

// OnProgReset is OnReset for the state of the programs under test.
func OnProgReset(f func()) { resets, progResets = append(resets, f), append(progResets, f) }

var progResets []func()

// FreshProgram restores the package level state a newly started process has. Only for harnesses
// in which no other process of the program is alive.
func FreshProgram() {
	for _, f := range progResets {
		f()
	}
}

// Execute runs body as the main thread under the given non-default decisions.
func (s *Sched) Execute(fixed []Fixed, hash uint64, body func()) Outcome {
	s.fixed = fixed
	s.fixedHash = hash
	S = s
	for _, r := range resets {
		r()
	}
	out := Outcome{}
	s.mainNode = s.NewNode("harness", "10.9.9.9")
	main := &Thread{id: 0, name: "main", node: s.mainNode, wake: make(chan struct{}, 1), wakeAt: -1, isMain: true}
	main.vc = vclock{1}
	s.threads = append(s.threads, main)
	s.live = append(s.live, main)
	s.cur = main
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if r != errAbort {
					out.Panic = fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
				}
			}
			main.done = true
			close(s.doneCh)
		}()
		body()
	}()
	<-s.doneCh
	s.ended = true
	// Kill every remaining thread.
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t.done {
			continue
		}
		t.killed = true
		s.cur = t
		ack := make(chan struct{})
		killAck = ack
		t.wake <- struct{}{}
		<-ack
	}
	out.Choices = s.choices
	out.LastData = -1
	for i := len(s.choices) - 1; i >= 0; i-- {
		if s.choices[i].Kind == KData {
			out.LastData = i
			break
		}
	}
	out.Steps = s.steps
	out.Switches = s.Switches
	out.Aborted = s.aborted
	out.Diverged = s.Diverged
	S = nil
	return out
}

var killAck chan struct{}

type abortT struct{}

var errAbort = &abortT{}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// NewNode adds a simulated process.
func (s *Sched) NewNode(name, ip string) *Node {
	n := &Node{Name: name, IP: ip, FS: NewFS(), HTTPPorts: map[int]any{}, OutLimit: 1 << 16, Data: map[string]any{}}
	s.Nodes = append(s.Nodes, n)
	return n
}

// CurNode returns the node of the running thread.
func CurNode() *Node {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.node
}

// Now returns virtual nanoseconds since the epoch.
func Now() int64 {
	if S == nil {
		return BaseTime
	}
	return S.now
}

// AdvanceTo moves the clock forward (harness only).
func (s *Sched) AdvanceTo(t int64) {
	if t > s.now {
		s.now = t
	}
}

// Go starts a new thread in the current node.
func Go(f func()) {
	if S == nil {
		go f()
		return
	}
	checkKilled()
	S.spawn(S.cur.node, callerName(2), f)
}

// GoNode starts a thread in the given node.
func (s *Sched) GoNode(n *Node, name string, f func()) *Thread {
	return s.spawn(n, name, f)
}

func callerName(skip int) string {
	pc, _, _, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	f := runtime.FuncForPC(pc)
	if f == nil {
		return "?"
	}
	nm := f.Name()
	if i := strings.LastIndex(nm, "/"); i >= 0 {
		nm = nm[i+1:]
	}
	return nm
}

func (s *Sched) spawn(n *Node, name string, f func()) *Thread {
	t := &Thread{id: len(s.threads), name: name, node: n, wake: make(chan struct{}, 1), wakeAt: -1}
	if s.RaceDetect {
		t.vc = s.cur.vc.copy()
		t.vc.grow(t.id + 1)
		t.vc[t.id] = 1
		s.cur.vc.tick(s.cur.id)
	}
	s.threads = append(s.threads, t)
	s.live = append(s.live, t)
	go func() {
		<-t.wake
		defer func() {
			// Runs on normal return, Goexit (kill) and panic.
			r := recover()
			t.done = true
			if t.killed || s.ended {
				killAck <- struct{}{}
				return
			}
			if r != nil {
				if r != errAbort {
					s.nodeCrash(t, fmt.Sprintf("%v", r), trimStack(debug.Stack()))
				}
			}
			s.removeLive(t)
			s.switchAway()
		}()
		if t.killed {
			return
		}
		f()
	}()
	return t
}

// An unrecovered panic ends the node's process.
func (s *Sched) nodeCrash(t *Thread, msg, stack string) {
	n := t.node
	n.Crashed = true
	if n.CrashMsg == "" {
		n.CrashMsg = msg + " [thread " + t.name + "]\n" + stack
	}
	s.KillNode(n)
}

// KillNode stops all threads of a node (as a process exit would) and closes its connections.
func (s *Sched) KillNode(n *Node) {
	for _, o := range s.live {
		if o.node == n && !o.done && o != s.cur {
			o.forever = true
			o.ready = nil
			o.wakeAt = -1
		}
	}
	s.net.closeNode(n)
	n.Terminated = true
}

func (s *Sched) removeLive(t *Thread) {
	for i, o := range s.live {
		if o == t {
			s.live = append(s.live[:i:i], s.live[i+1:]...)
			return
		}
	}
}

// checkKilled ends the calling goroutine if its execution is over.
func checkKilled() {
	if S == nil {
		return
	}
	if S.ended || S.cur.killed {
		runtime.Goexit()
	}
}

func (t *Thread) enabled(now int64) bool {
	if t.done || t.forever {
		return false
	}
	if t.ready == nil && t.wakeAt < 0 {
		return true
	}
	if t.wakeAt >= 0 && now >= t.wakeAt {
		return true
	}
	return t.ready != nil && t.ready()
}

// enabledList lists enabled threads: the current one first (if included), then round robin.
func (s *Sched) enabledList(buf []*Thread, includeCur bool) []*Thread {
	buf = buf[:0]
	if includeCur {
		buf = append(buf, s.cur)
	}
	curPos := -1
	for i, t := range s.live {
		if t.id >= s.cur.id {
			curPos = i
			break
		}
	}
	if curPos < 0 {
		curPos = 0
	}
	n := len(s.live)
	for k := 0; k < n; k++ {
		t := s.live[(curPos+k)%n]
		if t == s.cur {
			continue
		}
		if t.enabled(s.now) {
			buf = append(buf, t)
		}
	}
	return buf
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

// Replaying reports whether prescribed decisions are still to come: everything up to the current
// point has already been observed in another execution.
func (s *Sched) Replaying() bool { return s.fi < len(s.fixed) }

// choose makes one recorded decision among n options.
func (s *Sched) choose(n int, kind uint8) int {
	if n <= 1 {
		return 0
	}
	c := 0
	pos := len(s.choices)
	if s.fi < len(s.fixed) && s.fixed[s.fi].Pos == pos {
		c = s.fixed[s.fi].Val
		s.fi++
		if c >= n {
			s.Diverged = fmt.Sprintf("decision %d has %d options, wanted %d", pos, n, c)
			c = 0
		}
		if s.fi == len(s.fixed) && s.fixedHash != 0 && s.fixedHash != s.chash {
			s.Diverged = fmt.Sprintf("decision sequence before %d differs", pos)
		}
	}
	s.choices = append(s.choices, Choice{N: n, C: c, Kind: kind, Hash: s.chash})
	s.chash = mix(s.chash, uint64(n)<<32|uint64(kind)<<24|uint64(c))
	return c
}

// Choose is a harness input choice: all n values are enumerated.
func Choose(n int) int { return S.choose(n, KData) }

// ChooseEnv is an environment deviation: 0 is the default.
func ChooseEnv(n int) int {
	if S == nil || !S.exploring {
		return 0
	}
	return S.choose(n, KEnv)
}

// Explore switches recording of scheduling and environment deviations on or off.
func (s *Sched) Explore(on bool) { s.exploring = on }

// Point is a scheduling point before a visible operation.
func Point() {
	s := S
	if s == nil {
		return
	}
	checkKilled()
	s.steps++
	if s.steps > s.MaxSteps {
		s.abort("horizon: step limit reached")
	}
	t := s.cur
	t.spins = 0
	t.points++
	if t.points > 5000 && !t.isMain {
		t.points = 0
		s.slowYield(t, s.LoopCost)
	}
	if !s.exploring {
		return
	}
	s.maybePreempt()
}

// slowYield lets a busy thread consume time so that others can run.
func (s *Sched) slowYield(me *Thread, cost int64) {
	me.ready = nil
	me.wakeAt = s.now + cost
	t := s.pick()
	if t == nil {
		<-me.wake
		runtime.Goexit()
	}
	if t != me {
		s.switchTo(t)
		s.waitTurn(me)
	}
	me.wakeAt = -1
}

// StmtPoint is a statement level scheduling point.
func StmtPoint() {
	s := S
	if s == nil || !s.StmtPoints || !s.exploring {
		return
	}
	Point()
}

func (s *Sched) maybePreempt() {
	if len(s.live) < 2 {
		return
	}
	var arr [64]*Thread
	en := s.enabledList(arr[:0], true)
	if s.Filter != nil {
		if !s.Filter(s.cur) {
			return
		}
		k := 1
		for _, t := range en[1:] {
			if s.Filter(t) {
				en[k] = t
				k++
			}
		}
		en = en[:k]
	}
	n := len(en)
	extra := 0
	if s.TimeDev {
		// a descheduled thread may lose up to TimeDevMax
		if w := s.nextWakeOf(false); w >= 0 && w <= s.now+s.TimeDevMax {
			extra = 1
		}
	}
	if n+extra <= 1 {
		return
	}
	kind := uint8(KSched)
	c := s.choose(n+extra, kind)
	if c == 0 {
		return
	}
	me := s.cur
	if c == n {
		// time passes while we are descheduled: the thread with the next wake-up goes first
		w := s.nextWakeOf(false)
		s.now = w
		for _, t := range s.live {
			if t != me && !t.isMain && t.wakeAt >= 0 && t.wakeAt <= s.now && !t.done && !t.forever {
				s.switchTo(t)
				s.waitTurn(me)
				return
			}
		}
		return
	}
	s.switchTo(en[c])
	s.waitTurn(me)
}

// nextWake returns the earliest future wake-up, or -1.
func (s *Sched) nextWake() int64 { return s.nextWakeOf(true) }

func (s *Sched) nextWakeOf(main bool) int64 {
	best := int64(-1)
	for _, t := range s.live {
		if !main && t.isMain {
			continue // the harness's own time limits
		}
		if t.done || t.forever || t.wakeAt < 0 || t.wakeAt <= s.now {
			continue
		}
		if best < 0 || t.wakeAt < best {
			best = t.wakeAt
		}
	}
	for _, tm := range s.net.pendingTimes() {
		if tm > s.now && (best < 0 || tm < best) {
			best = tm
		}
	}
	return best
}

// switchTo hands control to t (the caller must then wait for its turn or end).
func (s *Sched) switchTo(t *Thread) {
	s.Switches++
	if s.TraceOn && (s.exploring || s.TraceAll) {
		Tracef("switch to %s/%s", t.node.Name, t.name)
	}
	s.cur = t
	t.wake <- struct{}{}
}

func (s *Sched) waitTurn(me *Thread) {
	<-me.wake
	if me.killed || s.ended {
		runtime.Goexit()
	}
	if me.isMain && s.aborted != "" {
		panic(errAbort)
	}
}

// switchAway picks the next thread when the current one cannot continue.
func (s *Sched) switchAway() {
	t := s.pick()
	if t == nil {
		return // main will be woken by abort
	}
	s.switchTo(t)
}

// pick chooses the next enabled thread, advancing time if needed; nil if aborted.
func (s *Sched) pick() *Thread {
	for {
		var arr [64]*Thread
		en := s.enabledList(arr[:0], false)
		// cur may itself be enabled again (it parked on a condition that became true)
		if !s.cur.done && s.cur.enabled(s.now) {
			en = append(en, s.cur)
		}
		if len(en) == 0 {
			w := s.nextWake()
			if w < 0 {
				s.deadlock()
				return nil
			}
			s.now = w
			s.steps++
			if s.steps > s.MaxSteps {
				s.abortFrom("horizon: step limit reached")
				return nil
			}
			continue
		}
		if len(en) == 1 || !s.exploring {
			return en[0]
		}
		cand := en
		if s.Filter != nil && s.Filter(en[0]) {
			cand = cand[:0:0]
			for _, t := range en {
				if s.Filter(t) {
					cand = append(cand, t)
				}
			}
		} else if s.Filter != nil {
			return en[0]
		}
		return cand[s.choose(len(cand), KSched)]
	}
}

func (s *Sched) deadlock() {
	var b []string
	for _, t := range s.live {
		if !t.done && !t.forever {
			b = append(b, t.node.Name+"/"+t.name)
		}
	}
	sort.Strings(b)
	s.abortFrom("deadlock: blocked forever: " + strings.Join(b, ", "))
}

// abortFrom stops the execution from inside the scheduler (any thread).
func (s *Sched) abortFrom(msg string) {
	if s.aborted == "" {
		s.aborted = msg
	}
	main := s.threads[0]
	if s.cur == main {
		panic(errAbort)
	}
	if main.done {
		return
	}
	main.forever = false
	main.ready = nil
	main.wakeAt = -1
	s.cur = main
	main.wake <- struct{}{}
}

// abort stops the execution; called by the running thread.
func (s *Sched) abort(msg string) {
	if s.aborted == "" {
		s.aborted = msg
	}
	me := s.cur
	if me.isMain {
		panic(errAbort)
	}
	main := s.threads[0]
	s.cur = main
	main.ready = nil
	main.wakeAt = -1
	main.wake <- struct{}{}
	<-me.wake
	runtime.Goexit()
}

// park blocks the current thread until ready() or the given time (-1: no time limit).
func (s *Sched) park(ready func() bool, wakeAt int64) {
	me := s.cur
	me.ready = ready
	me.wakeAt = wakeAt
	if ready == nil && wakeAt < 0 {
		me.forever = true
	}
	s.loops = 0
	me.spins = 0
	me.points = 0
	t := s.pick()
	if t == nil {
		// aborted: main was woken (or we are main and panicked)
		if me.isMain {
			panic(errAbort)
		}
		<-me.wake
		runtime.Goexit()
	}
	if t != me {
		s.switchTo(t)
		s.waitTurn(me)
	}
	me.ready = nil
	me.wakeAt = -1
	if s.aborted != "" && me.isMain {
		panic(errAbort)
	}
}

// Park blocks until ready() holds.
func Park(ready func() bool) {
	checkKilled()
	S.park(ready, -1)
}

// ParkUntil blocks until ready() holds or virtual time t.
func ParkUntil(ready func() bool, t int64) {
	checkKilled()
	S.park(ready, t)
}

// Block parks the thread forever.
func Block() {
	checkKilled()
	S.park(nil, -1)
}

// Sleep blocks for d virtual nanoseconds (at least a scheduling point).
func Sleep(d int64) {
	if S == nil {
		return
	}
	checkKilled()
	S.steps++
	if S.steps > S.MaxSteps {
		S.abort("horizon: step limit reached")
	}
	if d <= 0 {
		Yield()
		return
	}
	if d < S.MinSleep && !S.cur.isMain {
		d = S.MinSleep
	}
	S.park(nil2, S.now+d)
}

func nil2() bool { return false }

// Yield lets every other enabled thread run once before continuing.
func Yield() {
	s := S
	if s == nil {
		return
	}
	checkKilled()
	me := s.cur
	var arr [64]*Thread
	en := s.enabledList(arr[:0], false)
	if len(en) == 0 {
		return
	}
	// remain runnable, but let the next one go
	t := en[0]
	s.switchTo(t)
	s.waitTurn(me)
	if s.aborted != "" && me.isMain {
		panic(errAbort)
	}
}

// Loop is called on every loop iteration of instrumented code.
func Loop() {
	s := S
	if s == nil {
		return
	}
	if t := s.cur; t.quantum > 0 {
		if t.iters++; t.iters >= t.quantum {
			checkKilled()
			t.iters, t.points, s.loops = 0, 0, 0
			s.slowYield(t, t.cost)
		}
		return
	}
	s.loops++
	if s.loops >= s.LoopQuantum {
		s.loopSlow()
	}
}

func (s *Sched) loopSlow() {
	checkKilled()
	s.loops = 0
	me := s.cur
	me.spins++
	if s.LoopLimit > 0 && me.spins*s.LoopQuantum > s.LoopLimit {
		s.abort("livelock: " + s.cur.node.Name + "/" + s.cur.name + " loops without blocking")
	}
	// a busy thread consumes time and is eventually descheduled
	if !me.isMain {
		s.slowYield(me, s.LoopCost)
	}
}

// Rand64 is the deterministic randomness source.
func Rand64() uint64 {
	if S == nil {
		globalRand = globalRand*6364136223846793005 + 1442695040888963407
		return mix(globalRand, 1)
	}
	S.prng = S.prng*6364136223846793005 + 1442695040888963407
	return mix(S.prng, 1)
}

var globalRand uint64 = 42

// RandBytes fills b deterministically.
func RandBytes(b []byte) {
	for i := range b {
		b[i] = byte(Rand64() >> 17)
	}
}

// KeyCounter numbers generated keys within an execution.
func KeyCounter() uint64 {
	if S == nil {
		return Rand64()
	}
	S.keyCount++
	return S.keyCount
}

// SetKeyCounter positions the key sequence (harness).
func (s *Sched) SetKeyCounter(v uint64) { s.keyCount = v }

// Print records program output of the node.
func Print(txt string) {
	n := CurNode()
	if n == nil {
		return
	}
	if n.Out.Len() < n.OutLimit {
		n.Out.WriteString(txt)
	}
	if S.TraceOn {
		S.Trace = append(S.Trace, fmt.Sprintf("%d.%03d %s: %s", (S.now-BaseTime)/1e9, (S.now-BaseTime)/1e6%1000, n.Name, strings.TrimRight(txt, "\n")))
	}
}

// Tracef adds a line to the trace when tracing.
func Tracef(f string, a ...any) {
	if S != nil && S.TraceOn {
		S.Trace = append(S.Trace, fmt.Sprintf("%d.%03d -- ", (S.now-BaseTime)/1e9, (S.now-BaseTime)/1e6%1000)+fmt.Sprintf(f, a...))
	}
}

// Exit ends the node's process.
func Exit(code int) {
	checkKilled()
	s := S
	me := s.cur
	n := me.node
	n.Terminated = true
	n.Data["exit"] = code
	s.KillNode(n)
	if me.isMain {
		panic("os.Exit in main thread")
	}
	s.park(nil, -1)
}

// ThreadName of the current thread (for filters and traces).
func (t *Thread) Name() string { return t.name }
func (t *Thread) Node() *Node  { return t.node }
func (t *Thread) Done() bool   { return t.done }

// LiveThreads counts live (not finished, not killed) threads of a node.
func (s *Sched) LiveThreads(n *Node) (names []string) {
	for _, t := range s.live {
		if t.node == n && !t.done && !t.forever {
			names = append(names, t.name)
		}
	}
	return
}

// CallNode runs f as a thread of node n and waits until it finished (or the node is gone).
// It reports whether f completed and the panic value if f panicked (the node is not crashed).
func (s *Sched) CallNode(n *Node, name string, f func()) (ok bool, pv any) {
	done := false
	t := s.spawn(n, name, func() {
		defer func() {
			if s.ended {
				return
			}
			if r := recover(); r != nil {
				if r == errAbort {
					panic(r)
				}
				pv = r
				done = true
			}
		}()
		f()
		ok = true
		done = true
	})
	s.park(func() bool { return done || n.Terminated }, -1)
	s.joined(t, done)
	return
}

// CallNodeTimeout is CallNode with a virtual time limit.
func (s *Sched) CallNodeTimeout(n *Node, name string, d int64, f func()) (ok bool, pv any) {
	done := false
	t := s.spawn(n, name, func() {
		defer func() {
			if s.ended {
				return
			}
			if r := recover(); r != nil {
				if r == errAbort {
					panic(r)
				}
				pv = r
				done = true
			}
		}()
		f()
		ok = true
		done = true
	})
	s.park(func() bool { return done || n.Terminated }, s.now+d)
	s.joined(t, done)
	return
}

// joined: what a finished call did happened before what its caller does next.
func (s *Sched) joined(t *Thread, done bool) {
	if done && s.RaceDetect {
		s.cur.vc.join(t.vc)
	}
}

// NumChoices is the number of decisions made so far.
func (s *Sched) NumChoices() int { return len(s.choices) }
