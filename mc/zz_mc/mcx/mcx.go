// Package mcx enumerates executions of harness bodies under mcrt: every combination of harness
// input choices, and every schedule/environment deviation up to a bound.
package mcx

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

// Scenario is one closed system to explore.
type Scenario struct {
	Name  string
	Bound int                 // maximum number of scheduling/environment deviations
	Opt   func(s *mcrt.Sched) // options
	Body  func(x *X)
	// AllowAbort: the body itself interprets deadlocks and the like (via After).
	After    func(x *X, out mcrt.Outcome)
	MaxSteps int
}

// Check is everything explored for one property.
type Check struct {
	ID          string
	Scenarios   func(tier string) []Scenario
	Assumptions []string
	Rule        string
	Seconds     int // quick budget
}

var checks = map[string]*Check{}

func Register(c *Check) { checks[c.ID] = c }

// X is the handle of a running execution.
type X struct {
	S       *mcrt.Sched
	scn     *Scenario
	fails   []fail
	marks   []mark
	sample  []string
	counts  map[string]int
	Verbose bool
}

type fail struct {
	Key, Msg string
}

type mark struct {
	Pos  int
	Hash uint64
}

// Fail records a property violation; key identifies the kind of failure.
func (x *X) Fail(key, f string, a ...any) {
	if len(x.fails) < 20 {
		x.fails = append(x.fails, fail{key, fmt.Sprintf(f, a...)})
	}
}

func (x *X) Failed() bool { return len(x.fails) > 0 }

// State records an abstract state reached; executions branching later from a state already seen
// (in another execution) are not repeated when dedupe is true.
func (x *X) State(h uint64, dedupe bool) {
	p := -1
	if dedupe {
		p = x.S.NumChoices()
	}
	x.marks = append(x.marks, mark{p, h})
}

// Sample adds a readable description of this execution.
func (x *X) Sample(f string, a ...any) { x.sample = append(x.sample, fmt.Sprintf(f, a...)) }

// Count adds to a named statistic.
func (x *X) Count(k string, n int) {
	if x.counts == nil {
		x.counts = map[string]int{}
	}
	x.counts[k] += n
}

// Pick enumerates n harness choices.
func (x *X) Pick(n int) int { return mcrt.Choose(n) }

// Hash mixes values into a state hash.
func Hash(vs ...any) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range []byte(fmt.Sprint(vs...)) {
		h ^= uint64(b)
		h *= 1099511628211
	}
	return h
}

type item struct {
	S  int          `json:"s"`
	F  []mcrt.Fixed `json:"f,omitempty"`
	H  uint64       `json:"h,omitempty"`
	C  int          `json:"c,omitempty"`
	LF int          `json:"l,omitempty"` // >0: only enumerate leaf children from this index
	LE int          `json:"e,omitempty"` // with LF: only those before this index (0: all)
	St uint64       `json:"t,omitempty"` // state the item branches from (0: none)
	Pf string       `json:"-"`
}

type failRec struct {
	Scn   int
	Key   string
	Msg   string
	Fixed []mcrt.Fixed
}

type reply struct {
	Execs, Steps, Choices, Switches, Diverged int
	Covers                                    []uint64
	Kids                                      []item
	Left                                      []item
	Fails                                     []failRec
	Samples                                   []string
	Counts                                    map[string]int
	DivMsg                                    string
	MaxCost                                   int
	Trace                                     []string
	MaxSteps                                  int
}

type request struct {
	Items   []item
	SliceMs int
	Trace   bool
}

func runOne(sc *Scenario, fixed []mcrt.Fixed, hash uint64, trace bool) (*X, mcrt.Outcome) {
	s := mcrt.NewSched()
	if sc.MaxSteps > 0 {
		s.MaxSteps = sc.MaxSteps
	}
	s.TraceOn = trace
	if sc.Opt != nil {
		sc.Opt(s)
	}
	x := &X{S: s, scn: sc, Verbose: trace}
	out := s.Execute(fixed, hash, func() { sc.Body(x) })
	if sc.After != nil {
		sc.After(x, out)
	} else if out.Aborted != "" {
		k := out.Aborted
		if i := strings.Index(k, ":"); i > 0 {
			k = k[:i]
		}
		x.Fail(k, "%s", out.Aborted)
	}
	if out.Panic != "" {
		x.Fail("panic", "panic in harness thread: %s", out.Panic)
	}
	for _, r := range s.Races {
		x.Fail("race", "data race: %s", r)
	}
	return x, out
}

func kidsOf(scn int, bound int, it item, x *X, out mcrt.Outcome) (kids []item, leaves []item) {
	start := 0
	if n := len(it.F); n > 0 {
		start = it.F[n-1].Pos + 1
	}
	mi := 0
	st := uint64(0)
	for p := 0; p < len(out.Choices); p++ {
		for mi < len(x.marks) && x.marks[mi].Pos <= p {
			if x.marks[mi].Pos >= 0 {
				st = x.marks[mi].Hash
			}
			mi++
		}
		here := st
		if st != 0 { // identifies the state plus the decisions taken since
			st = (st ^ uint64(out.Choices[p].C+1)) * 1099511628211
		}
		if p < start {
			continue
		}
		ch := out.Choices[p]
		cost := it.C
		if ch.Kind != mcrt.KData {
			cost++
		}
		if cost > bound {
			continue
		}
		for v := 1; v < ch.N; v++ {
			f := make([]mcrt.Fixed, len(it.F)+1)
			copy(f, it.F)
			f[len(it.F)] = mcrt.Fixed{Pos: p, Val: v}
			k := item{S: scn, F: f, H: ch.Hash, C: cost, St: here}
			if cost == bound && ch.Kind != mcrt.KData && bound > 0 && !dataAfter(out, p) {
				leaves = append(leaves, k)
			} else {
				kids = append(kids, k)
			}
		}
	}
	return
}

// dataAfter: harness inputs chosen after a deviation still need enumeration.
func dataAfter(out mcrt.Outcome, p int) bool {
	return out.LastData > p
}

func worker(c *Check, tier string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	scns := c.Scenarios(tier)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	seen := map[uint64]bool{}
	nSamples := 0
	dec := json.NewDecoder(in)
	for {
		var rq request
		if err := dec.Decode(&rq); err != nil {
			return
		}
		rp := reply{Counts: map[string]int{}}
		deadline := time.Now().Add(time.Duration(rq.SliceMs) * time.Millisecond)
		note := func(scn int, it item, x *X, o mcrt.Outcome) {
			rp.Execs++
			rp.Steps += o.Steps
			rp.Counts["executions of "+scns[scn].Name]++
			rp.Choices += len(o.Choices)
			rp.Switches += o.Switches
			if o.Steps > rp.MaxSteps {
				rp.MaxSteps = o.Steps
			}
			if it.C > rp.MaxCost {
				rp.MaxCost = it.C
			}
			if o.Diverged != "" {
				rp.Diverged++
				rp.DivMsg = fmt.Sprintf("%s %v: %s", scns[scn].Name, it.F, o.Diverged)
				return
			}
			for _, m := range x.marks {
				h := m.Hash ^ uint64(scn)*0x9E3779B97F4A7C15
				if !seen[h] {
					seen[h] = true
					rp.Covers = append(rp.Covers, h)
				}
			}
			for _, f := range x.fails {
				if len(rp.Fails) < 50 {
					rp.Fails = append(rp.Fails, failRec{scn, f.Key, f.Msg, it.F})
				}
			}
			if nSamples < 12 {
				for _, s := range x.sample {
					rp.Samples = append(rp.Samples, scns[scn].Name+": "+s)
					nSamples++
				}
			}
			for k, v := range x.counts {
				rp.Counts[k] += v
			}
			if rq.Trace {
				rp.Trace = x.S.Trace
			}
		}
		for i, it := range rq.Items {
			if i > 0 && time.Now().After(deadline) {
				rp.Left = append(rp.Left, rq.Items[i:]...)
				break
			}
			sc := &scns[it.S]
			x, o := runOne(sc, it.F, it.H, rq.Trace)
			if it.LF == 0 {
				note(it.S, it, x, o)
			}
			if o.Diverged != "" || rq.Trace {
				continue
			}
			kids, leaves := kidsOf(it.S, sc.Bound, it, x, o)
			if it.LF == 0 {
				rp.Kids = append(rp.Kids, kids...)
			}
			start := 0
			if it.LF > 0 {
				start = it.LF - 1
			}
			end := len(leaves)
			if it.LE > 0 && it.LE < end {
				end = it.LE
			}
			for j := start; j < end; j++ {
				if j > start && j%4 == 0 && time.Now().After(deadline) {
					// hand back the rest in pieces that others can take
					size := (end - j + 7) / 8
					if size < 8 {
						size = 8
					}
					for from := j; from < end; from += size {
						l := it
						l.LF, l.LE = from+1, from+size
						if l.LE > end {
							l.LE = end
						}
						rp.Left = append(rp.Left, l)
					}
					break
				}
				lx, lo := runOne(sc, leaves[j].F, leaves[j].H, false)
				note(it.S, leaves[j], lx, lo)
			}
		}
		b, _ := json.Marshal(rp)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

type wproc struct {
	cmd  *exec.Cmd
	in   *json.Encoder
	w    interface{ Close() error }
	out  *json.Decoder
	errf *os.File
}

func startWorker(id, tier string) *wproc {
	cmd := exec.Command("/proc/self/exe", id, tier, "-worker")
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOTRACEBACK=single")
	w, _ := cmd.StdinPipe()
	r, _ := cmd.StdoutPipe()
	f, _ := os.CreateTemp("", "mcx-worker")
	os.Remove(f.Name())
	cmd.Stderr = f
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "mcx: cannot start worker:", err)
		os.Exit(2)
	}
	return &wproc{cmd: cmd, in: json.NewEncoder(w), w: w, out: json.NewDecoder(bufio.NewReaderSize(r, 1<<20)), errf: f}
}

func (w *wproc) stderr() string {
	b := make([]byte, 8000)
	n, _ := w.errf.ReadAt(b, 0)
	return string(b[:n])
}

func (w *wproc) kill() {
	w.cmd.Process.Kill()
	w.w.Close()
	w.cmd.Wait()
	w.errf.Close()
}

// ask sends a request; ok is false if the worker died or took too long.
func (w *wproc) ask(rq request, limit time.Duration) (rp reply, ok bool) {
	done := make(chan bool, 1)
	go func() {
		if w.in.Encode(rq) != nil {
			done <- false
			return
		}
		done <- w.out.Decode(&rp) == nil
	}()
	select {
	case ok = <-done:
		return rp, ok
	case <-time.After(limit):
		w.cmd.Process.Kill()
		<-done
		return rp, false
	}
}

type known struct {
	Key, What string
}

func loadKnown(id string) (out []known) {
	b, _ := os.ReadFile(os.Getenv("MC_KNOWN"))
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l[7:])
		if len(f) < 3 || f[0] != "property="+id || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		out = append(out, known{f[1][4:], strings.Join(f[2:], " ")})
	}
	return
}

// Main runs the check named on the command line: ID TIER [-worker] | ID replay FILE.
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check ID quick|thorough | ID replay FILE")
		os.Exit(2)
	}
	id, tier := os.Args[1], os.Args[2]
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	if len(os.Args) > 3 && os.Args[3] == "-worker" {
		worker(c, tier)
		return
	}
	if tier == "replay" {
		replay(c, os.Args[3])
		return
	}
	os.Exit(parent(c, tier))
}

type replayFile struct {
	Property string
	Tier     string
	Scenario string
	Key      string
	Message  string
	Fixed    []mcrt.Fixed
	Trace    []string
}

func replay(c *Check, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf replayFile
	json.Unmarshal(b, &rf)
	for _, sc := range c.Scenarios(rf.Tier) {
		sc := sc
		if sc.Name == rf.Scenario {
			x, o := runOne(&sc, rf.Fixed, 0, true)
			for _, l := range x.S.Trace {
				fmt.Println(l)
			}
			fmt.Println("diverged:", o.Diverged, "aborted:", o.Aborted, "steps:", o.Steps)
			for _, f := range x.fails {
				fmt.Println("FAIL", f.Key, f.Msg)
			}
			if len(x.fails) > 0 {
				os.Exit(1)
			}
			return
		}
	}
	fmt.Fprintln(os.Stderr, "scenario not found")
	os.Exit(2)
}

func parent(c *Check, tier string) int {
	t0 := time.Now()
	budget := time.Duration(c.Seconds) * time.Second
	if c.Seconds == 0 {
		budget = 240 * time.Second
	}
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if v := os.Getenv("MC_SECONDS"); v != "" {
		n := 0
		fmt.Sscan(v, &n)
		budget = time.Duration(n) * time.Second
	}
	scns := c.Scenarios(tier)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	buckets := map[int][]item{}
	for i := range scns {
		buckets[0] = append(buckets[0], item{S: i})
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	busy := 0
	stop := false
	timedOut := false
	tot := reply{Counts: map[string]int{}}
	covers := map[uint64]bool{}
	owners := map[uint64]string{}
	fails := map[string]failRec{}
	pruned := 0
	perScn := map[int]int{}
	var samples []string
	kn := loadKnown(c.ID)
	isKnown := func(k string) bool {
		for _, x := range kn {
			if x.Key == k {
				return true
			}
		}
		return false
	}
	pathOf := func(it item) string {
		// the prefix up to (not including) the last decision identifies the branching state's owner
		return fmt.Sprint(it.S, it.F[:len(it.F)-1])
	}
	take := func() []item {
		lo := -1
		for k, v := range buckets {
			if len(v) > 0 && (lo < 0 || k < lo) {
				lo = k
			}
		}
		if lo < 0 {
			return nil
		}
		b := buckets[lo]
		n := len(b) / (nw * 2)
		if n < 1 {
			n = 1
		}
		if n > 64 {
			n = 64
		}
		out := append([]item(nil), b[:n]...)
		buckets[lo] = b[n:]
		return out
	}
	deaths := 0
	limit, limit1 := 120*time.Second, 60*time.Second
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := startWorker(c.ID, tier)
			defer func() { w.kill() }()
			for {
				mu.Lock()
				var its []item
				for {
					if stop {
						mu.Unlock()
						return
					}
					if time.Since(t0) > budget {
						timedOut = true
						stop = true
						cond.Broadcast()
						mu.Unlock()
						return
					}
					its = take()
					if its != nil {
						break
					}
					if busy == 0 {
						stop = true
						cond.Broadcast()
						mu.Unlock()
						return
					}
					cond.Wait()
				}
				busy++
				mu.Unlock()
				rp, ok := w.ask(request{Items: its, SliceMs: 150}, limit)
				if !ok {
					msg := w.stderr()
					w.kill()
					w = startWorker(c.ID, tier)
					// find the item that kills the worker
					var bad *item
					for k := range its {
						one := its[k]
						r1, ok1 := w.ask(request{Items: []item{one}, SliceMs: 1}, limit1)
						if !ok1 {
							msg = w.stderr()
							w.kill()
							w = startWorker(c.ID, tier)
							if _, ok2 := w.ask(request{Items: []item{one}, SliceMs: 1}, limit1); !ok2 {
								bad = &its[k]
								w.kill()
								w = startWorker(c.ID, tier)
								break
							}
						} else {
							mu.Lock()
							merge(&tot, &r1, covers, buckets, fails, &samples, owners, pathOf, &pruned)
							mu.Unlock()
						}
					}
					mu.Lock()
					deaths++
					if bad != nil {
						fails["process-death"] = failRec{bad.S, "process-death", "the process running the code died or hung: " + msg, bad.F}
						stop = true
					}
					if deaths > 20 {
						stop = true
						timedOut = true
					}
					busy--
					cond.Broadcast()
					mu.Unlock()
					continue
				}
				mu.Lock()
				for _, it := range its {
					perScn[it.S]++
				}
				merge(&tot, &rp, covers, buckets, fails, &samples, owners, pathOf, &pruned)
				for k := range fails {
					if !isKnown(k) {
						stop = true
					}
				}
				busy--
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	// wake waiting workers when the budget ends
	go func() {
		time.Sleep(budget)
		mu.Lock()
		if !stop {
			timedOut = true
			stop = true
		}
		cond.Broadcast()
		mu.Unlock()
	}()
	wg.Wait()
	pending := 0
	pendingCost := -1
	for k, b := range buckets {
		pending += len(b)
		if len(b) > 0 && (pendingCost < 0 || k < pendingCost) {
			pendingCost = k
		}
	}
	// Judge failures.
	code := 0
	var keys []string
	for k := range fails {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	violations := 0
	for _, k := range keys {
		f := fails[k]
		if k != "process-death" {
			w := startWorker(c.ID, tier)
			okAll := true
			var tr []string
			for n := 0; n < 5 && okAll; n++ {
				rp, ok := w.ask(request{Items: []item{{S: f.Scn, F: f.Fixed}}, Trace: true}, limit)
				if !ok {
					break
				}
				found := false
				for _, g := range rp.Fails {
					if g.Key == k {
						found = true
					}
				}
				okAll = found
				tr = rp.Trace
			}
			w.kill()
			if !okAll {
				fmt.Printf("note: failure %q of scenario %s did not repeat on re-execution; not reported: %v %s\n", k, scns[f.Scn].Name, f.Fixed, f.Msg)
				tot.Diverged++
				continue
			}
			if isKnown(k) {
				for _, x := range kn {
					if x.Key == k {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, x.What)
					}
				}
				continue
			}
			writeViolation(c, tier, scns, f, tr)
		} else {
			writeViolation(c, tier, scns, f, nil)
		}
		violations++
		code = 1
	}
	ex := !timedOut && pending == 0 && tot.Diverged == 0 && code == 0
	if tot.Diverged > 0 {
		fmt.Printf("note: %d executions diverged from their recorded prefix (%s)\n", tot.Diverged, tot.DivMsg)
	}
	bounds := map[string]int{}
	var names []string
	for i, s := range scns {
		bounds[s.Name] = s.Bound
		_ = i
		names = append(names, s.Name)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	var sm []any
	for _, s := range samples {
		sm = append(sm, s)
	}
	if len(sm) == 0 {
		for i := range scns {
			if i < 5 {
				sm = append(sm, fmt.Sprintf("scenario %s, default schedule", scns[i].Name))
			}
		}
	}
	cov := map[string]any{
		"states":                           len(covers),
		"transitions":                      tot.Steps,
		"traces_validated_against_impl":    tot.Execs,
		"samples":                          sm,
		"exhaustive":                       ex,
		"executions":                       tot.Execs,
		"decisions":                        tot.Choices,
		"context_switches":                 tot.Switches,
		"longest_execution_steps":          tot.MaxSteps,
		"scenarios":                        len(scns),
		"deviation_bounds":                 bounds,
		"duplicate_state_branches_skipped": pruned,
		"counts":                           tot.Counts,
		"rule":                             c.Rule,
		"technique":                        "stateless model checking of the implementation itself (every execution runs the code of /repo; there is no separate model to validate)",
	}
	if !ex {
		cov["unexplored_prefixes"] = pending
		cov["lowest_unexplored_deviation_count"] = pendingCost
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": c.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if p := os.Getenv("MC_EVIDENCE"); p != "" {
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, append(b, '\n'), 0644)
	}
	fmt.Printf("%s %s: %d executions, %d steps, %d states, %d scenarios, exhaustive=%v, %.1fs\n", c.ID, tier, tot.Execs, tot.Steps, len(covers), len(scns), ex, time.Since(t0).Seconds())
	if os.Getenv("MC_VERBOSE") != "" {
		for i, n := range perScn {
			fmt.Printf("  %s: %d items\n", scns[i].Name, n)
		}
		fmt.Println("  counts", tot.Counts, "pending", pending, "at cost", pendingCost, "maxsteps", tot.MaxSteps)
		for _, s := range samples {
			fmt.Println("  sample", s)
		}
	}
	_ = names
	return code
}

func merge(tot, rp *reply, covers map[uint64]bool, buckets map[int][]item, fails map[string]failRec, samples *[]string, owners map[uint64]string, pathOf func(item) string, pruned *int) {
	tot.Execs += rp.Execs
	tot.Steps += rp.Steps
	tot.Choices += rp.Choices
	tot.Switches += rp.Switches
	tot.Diverged += rp.Diverged
	if rp.DivMsg != "" {
		tot.DivMsg = rp.DivMsg
	}
	if rp.MaxSteps > tot.MaxSteps {
		tot.MaxSteps = rp.MaxSteps
	}
	for _, h := range rp.Covers {
		covers[h] = true
	}
	for k, v := range rp.Counts {
		tot.Counts[k] += v
	}
	for _, k := range rp.Kids {
		if k.St != 0 && k.C == 0 {
			pf := pathOf(k)
			key := k.St ^ uint64(k.S)*0x9E3779B97F4A7C15
			if o, ok := owners[key]; ok && o != pf {
				*pruned++
				continue
			}
			owners[key] = pf
		}
		buckets[k.C] = append(buckets[k.C], k)
	}
	for _, l := range rp.Left {
		c := l.C
		if l.LF > 0 {
			c++
		}
		buckets[c] = append(buckets[c], l)
	}
	for _, f := range rp.Fails {
		if old, ok := fails[f.Key]; !ok || len(f.Fixed) < len(old.Fixed) {
			fails[f.Key] = f
		}
	}
	if len(*samples) < 12 {
		*samples = append(*samples, rp.Samples...)
	}
}

func writeViolation(c *Check, tier string, scns []Scenario, f failRec, tr []string) {
	dir := os.Getenv("MC_REPLAYS")
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", c.ID, strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, f.Key)))
	if len(tr) > 2000 {
		tr = tr[len(tr)-2000:]
	}
	b, _ := json.MarshalIndent(replayFile{c.ID, tier, scns[f.Scn].Name, f.Key, f.Msg, f.Fixed, tr}, "", " ")
	os.WriteFile(p, append(b, '\n'), 0644)
	fmt.Printf("scenario %s: [%s] %s\n", scns[f.Scn].Name, f.Key, f.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
}
