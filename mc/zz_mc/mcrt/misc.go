package mcrt

import (
	"fmt"
	"runtime"
	"sort"
	"unsafe"
)

// Ended reports whether the execution is over (used by operations that run in deferred calls).
func Ended() bool { return S == nil || S.ended || (S.cur != nil && S.cur.killed) }

// Fatal is an error that ends the process and cannot be recovered.
func Fatal(msg string) {
	if Ended() {
		return
	}
	s := S
	me := s.cur
	n := me.node
	n.Crashed = true
	if n.CrashMsg == "" {
		n.CrashMsg = "fatal error: " + msg + " [thread " + me.name + "]"
	}
	s.KillNode(n)
	if me.isMain {
		panic("fatal error in main thread: " + msg)
	}
	s.park(nil, -1)
}

func NumThreads() int {
	if S == nil {
		return 1
	}
	c := 0
	for _, t := range S.live {
		if !t.done && !t.forever {
			c++
		}
	}
	return c
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

const maxAlloc = 1 << 47

// ML guards a non-constant make size: sizes the real runtime rejects panic, sizes that would
// exhaust memory end the simulated process.
func ML[N integer](es int64, n N, pos string) int {
	if n < 0 || uint64(n) > 1<<62 {
		panic(rtErr("makeslice: len out of range"))
	}
	tot := uint64(n)
	if es > 1 {
		if tot > maxAlloc/uint64(es) {
			panic(rtErr("makeslice: len out of range"))
		}
		tot *= uint64(es)
	}
	if tot > maxAlloc {
		panic(rtErr("makeslice: len out of range"))
	}
	if S != nil {
		noteAlloc(int64(tot), pos)
	}
	return int(n)
}

// MM guards a map size hint (the real runtime ignores negative or absurd hints).
func MM[N integer](es int64, n N, pos string) int {
	if n < 0 || uint64(n) > 1<<62 {
		return 0
	}
	if uint64(n) > maxAlloc/uint64(es) {
		return 0
	}
	if S != nil {
		noteAlloc(int64(uint64(n)*uint64(es)), pos)
	}
	return int(n)
}

func noteAlloc(n int64, pos string) {
	if n < 1<<16 {
		return
	}
	if NI := CurNode(); NI != nil {
		if n > NI.MaxAlloc {
			NI.MaxAlloc = n
			NI.MaxAllocPos = pos
		}
	}
	if n > S.BigAlloc {
		Fatal(fmt.Sprintf("out of memory: allocation of %d bytes at %s", n, pos))
	}
}

type rtErr string

func (e rtErr) Error() string { return "runtime error: " + string(e) }
func (e rtErr) RuntimeError() {}

var _ runtime.Error = rtErr("")

// Zero clears a package level variable.
func Zero[T any](p *T) { var z T; *p = z }

type MapEnt[K comparable, V any] struct {
	m map[K]V
	k K
}
type MapList[K comparable, V any] []MapEnt[K, V]

func (e MapEnt[K, V]) Get() (K, V, bool) { v, ok := e.m[e.k]; return e.k, v, ok }
func (MapList[K, V]) ZK() (k K)          { return }
func (MapList[K, V]) ZV() (v V)          { return }

// MapEnts lists the entries of m for iteration in a fixed order.
func MapEnts[M ~map[K]V, K comparable, V any](m M) MapList[K, V] {
	out := make(MapList[K, V], 0, len(m))
	for _, k := range MapKeys(m) {
		out = append(out, MapEnt[K, V]{m, k})
	}
	return out
}

// MapKeys returns the keys of m in a fixed order.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		sortKeys(keys)
		if S != nil && S.MapDesc {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	es := int(unsafe.Sizeof(keys[0]))
	if isPlain(any(keys[0])) {
		// plain arrays and integers: compare memory
		base := unsafe.Pointer(&keys[0])
		at := func(i int) string { return unsafe.String((*byte)(unsafe.Add(base, i*es)), es) }
		sort.Slice(keys, func(i, j int) bool { return at(i) < at(j) })
		return
	}
	strs := make(map[K]string, len(keys))
	for _, k := range keys {
		strs[k] = keyString(k)
	}
	sort.Slice(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
}

// SplitWrites reports whether file writes should be visible in two pieces.
func SplitWrites() bool { return S != nil && S.TornReads }
