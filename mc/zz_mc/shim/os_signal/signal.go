package signal

import (
	"os"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

func Notify(c *mcrt.Chan[os.Signal], sig ...os.Signal) {}
func Stop(c *mcrt.Chan[os.Signal])                     {}
func Ignore(sig ...os.Signal)                          {}
func Reset(sig ...os.Signal)                           {}
