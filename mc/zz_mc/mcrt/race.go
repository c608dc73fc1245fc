package mcrt

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

// Happens-before race detection over instrumented memory accesses (flagged packages only).
// A clock counts the steps of each thread, by id.
type vclock []int32

func (v vclock) copy() vclock { return append(make(vclock, 0, len(v)+4), v...) }

func (v vclock) get(i int) int {
	if i < len(v) {
		return int(v[i])
	}
	return 0
}

func (v *vclock) grow(n int) {
	for len(*v) < n {
		*v = append(*v, 0)
	}
}

func (v *vclock) tick(i int) {
	v.grow(i + 1)
	(*v)[i]++
}

func (v *vclock) join(o vclock) {
	v.grow(len(o))
	w := *v
	for i, x := range o {
		if x > w[i] {
			w[i] = x
		}
	}
}

// SyncObj carries the clock of a synchronisation object.
type SyncObj struct{ vc vclock }

// Release publishes the current thread's history on o.
func (o *SyncObj) Release() {
	s := S
	if s == nil || !s.RaceDetect {
		return
	}
	o.vc.join(s.cur.vc)
	s.cur.vc.tick(s.cur.id)
}

// Acquire makes o's history known to the current thread.
func (o *SyncObj) Acquire() {
	s := S
	if s == nil || !s.RaceDetect {
		return
	}
	if o.vc != nil {
		s.cur.vc.join(o.vc)
	}
}

type accessRec struct {
	wT, wC int
	wPos   uintptr
	rT, rC int         // the only reader since the last write, or
	reads  map[int]int // all of them
	rPos   uintptr
}

type raceKey struct{ p unsafe.Pointer }

var raceTab map[unsafe.Pointer]*accessRec

func init() { OnReset(func() { raceTab = nil }) }

// where names the statement at pc.
func where(pc uintptr) string {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	file := f.File
	if i := strings.LastIndex(file, "/"); i >= 0 {
		file = file[i+1:]
	}
	return fmt.Sprintf("%s:%d", file, f.Line)
}

func access(p unsafe.Pointer, write bool) {
	s := S
	if s == nil || !s.RaceDetect || p == nil || s.cur == nil || s.ended {
		return
	}
	if raceTab == nil {
		raceTab = map[unsafe.Pointer]*accessRec{}
	}
	r := raceTab[p]
	if r == nil {
		r = &accessRec{wT: -1, rT: -1}
		raceTab[p] = r
	}
	me := s.cur
	var pc [1]uintptr
	runtime.Callers(3, pc[:])
	report := func(kind string, other uintptr) {
		if len(s.Races) < 5 {
			s.Races = append(s.Races, fmt.Sprintf("%s at %s and %s", kind, where(pc[0]), where(other)))
		}
	}
	if r.wT >= 0 && r.wT != me.id && me.vc.get(r.wT) < r.wC {
		if write {
			report("write/write race", r.wPos)
		} else {
			report("read/write race", r.wPos)
		}
	}
	now := me.vc.get(me.id)
	if !write {
		switch {
		case r.reads != nil:
			r.reads[me.id] = now
		case r.rT < 0 || r.rT == me.id:
			r.rT, r.rC = me.id, now
		default:
			r.reads = map[int]int{r.rT: r.rC, me.id: now}
		}
		r.rPos = pc[0]
		return
	}
	if r.reads == nil && r.rT >= 0 && r.rT != me.id && me.vc.get(r.rT) < r.rC {
		report("read/write race", r.rPos)
	}
	for t, c := range r.reads {
		if t != me.id && me.vc.get(t) < c {
			report("read/write race", r.rPos)
			break
		}
	}
	r.wT, r.wC, r.wPos = me.id, now, pc[0]
	r.rT, r.reads = -1, nil
}

// RD and WR record a read or write of the variable at p; MR and MW of a map's contents.
func RD[T any](p *T) { access(unsafe.Pointer(p), false) }
func WR[T any](p *T) { access(unsafe.Pointer(p), true) }

type mapHeader struct{ p unsafe.Pointer }

func mapPtr[M any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}
func MR[M any](m M) { access(mapPtr(m), false) }
func MW[M any](m M) { access(mapPtr(m), true) }
