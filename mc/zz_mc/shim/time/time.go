package time

import (
	rt "time"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

type Timer struct {
	C     *mcrt.Chan[rt.Time]
	at    int64
	f     func()
	gen   int
	armed bool
}

type Ticker struct {
	C    *mcrt.Chan[rt.Time]
	stop bool
	gen  int
}

func Now() rt.Time { return rt.Unix(0, mcrt.Now()) }

func Since(t rt.Time) rt.Duration { return Now().Sub(t) }
func Until(t rt.Time) rt.Duration { return t.Sub(Now()) }
func Sleep(d rt.Duration)         { mcrt.Sleep(int64(d)) }

func (t *Timer) start(d rt.Duration) {
	t.gen++
	g := t.gen
	t.armed = true
	at := mcrt.Now() + int64(d)
	mcrt.Go(func() {
		mcrt.ParkUntil(func() bool { return t.gen != g }, at)
		if t.gen != g {
			return
		}
		t.armed = false
		if t.f != nil {
			t.f()
			return
		}
		t.C.TryPush(Now())
	})
}

func NewTimer(d rt.Duration) *Timer {
	t := &Timer{C: mcrt.MakeChan[rt.Time](1)}
	t.start(d)
	return t
}

func AfterFunc(d rt.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d rt.Duration) *mcrt.Chan[rt.Time] { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	was := t.armed
	t.armed = false
	t.gen++
	return was
}

func (t *Timer) Reset(d rt.Duration) bool {
	was := t.armed
	t.start(d)
	return was
}

func NewTicker(d rt.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: mcrt.MakeChan[rt.Time](1)}
	t.run(d)
	return t
}

func (t *Ticker) run(d rt.Duration) {
	t.gen++
	g := t.gen
	next := mcrt.Now() + int64(d)
	mcrt.Go(func() {
		for {
			mcrt.ParkUntil(func() bool { return t.gen != g }, next)
			if t.gen != g {
				return
			}
			t.C.TryPush(Now())
			next += int64(d)
		}
	})
}

func (t *Ticker) Stop()               { t.gen++ }
func (t *Ticker) Reset(d rt.Duration) { t.run(d) }
func Tick(d rt.Duration) *mcrt.Chan[rt.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
