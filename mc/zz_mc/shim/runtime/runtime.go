package runtime

import (
	rr "runtime"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

func Gosched()           { mcrt.Yield() }
func GC()                {}
func Goexit()            { rr.Goexit() }
func NumGoroutine() int  { return mcrt.NumThreads() }
func GOMAXPROCS(int) int { return 8 }
func NumCPU() int        { return 8 }
