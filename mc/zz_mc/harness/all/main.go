// The checker binary: every harness in one program.
package main

import (
	_ "github.com/levilutz/basiccoin/zz_mc/harness/conc"
	_ "github.com/levilutz/basiccoin/zz_mc/harness/ledger"
	_ "github.com/levilutz/basiccoin/zz_mc/harness/peers"
	_ "github.com/levilutz/basiccoin/zz_mc/harness/programs"
	_ "github.com/levilutz/basiccoin/zz_mc/harness/wire"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

func main() { mcx.Main() }
