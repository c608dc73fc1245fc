package kit

import (
	"fmt"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

const Port = ":21720"

// FullOpt configures a whole node.
type FullOpt struct {
	P        core.Params
	Seeds    []string
	NoListen bool
	Miners   bool
	Dir      *string
	MaxPeers int
	Seek     time.Duration
	Auto     bool // discover the local address from the first peer
	Late     bool // do not start the network yet (StartNet does)
}

// Peers is the network side of a full node.
type Peers struct {
	pf    *peerfactory.PeerFactory
	ended *bool
}

// StartFull brings up chain, inventory and peer factory the way the node program does.
func StartFull(x *mcx.X, name, ip string, o FullOpt) *Node {
	return StartFullOn(x, x.S.NewNode(name, ip), o)
}

// StartFullOn is StartFull in an existing process.
func StartFullOn(x *mcx.X, mn *mcrt.Node, o FullOpt) *Node {
	n := &Node{X: x, N: mn, P: o.P}
	if o.MaxPeers == 0 {
		o.MaxPeers = 5
	}
	if o.Seek == 0 {
		o.Seek = 5 * time.Second
	}
	fp := peerfactory.Params{Listen: !o.NoListen, LocalAddr: mn.IP + Port, MinPeers: 3, MaxPeers: o.MaxPeers,
		RuntimeId: "rt-" + mn.Name, SeekNewPeersFreq: o.Seek}
	if o.Auto {
		fp.LocalAddr = ""
	}
	var c *chain.Chain
	ok, pv := x.S.CallNode(mn, "start", func() {
		n.Bus = bus.NewBus()
		n.subHead = n.Bus.ValidatedHead.Sub()
		n.subTx = n.Bus.ValidatedTx.Sub()
		n.subMine = n.Bus.MinerTarget.Sub()
		n.Inv = inv.NewInv(o.P, o.Dir)
		c = chain.NewChain(n.Bus, n.Inv, o.Miners, o.Dir)
		n.Net = &Peers{pf: peerfactory.NewPeerFactory(fp, n.Bus, n.Inv), ended: new(bool)}
		if len(o.Seeds) > 0 {
			n.Net.pf.SetSeeds(o.Seeds)
		}
	})
	if !ok {
		n.Dead = fmt.Sprintf("the node failed to start: %v", pv)
		return n
	}
	n.chain = c
	n.stopped = new(bool)
	st := n.stopped
	x.S.GoNode(mn, "chain", func() { c.Loop(); *st = true })
	mcrt.Sleep(30 * Ms)
	if !o.Late {
		n.StartNet()
	}
	n.Drain()
	return n
}

// StartNet starts the peer factory.
func (n *Node) StartNet() {
	st := n.Net.ended
	n.X.S.GoNode(n.N, "factory", func() { n.Net.pf.Loop(); *st = true })
}

// Alive reports what stopped, if anything did.
func (n *Node) Alive() string {
	n.Drain()
	if n.Dead == "" && n.Net != nil && *n.Net.ended {
		n.Dead = "the peer factory's loop ended"
	}
	return n.Dead
}
