package ledger

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// purseWorld is a chain on which keys 1 and 2 have money.
type purseWorld struct {
	u          *kit.Uni
	a1, a2, a3 *kit.Blk
	t1, pend   core.Tx
}

func newPurseWorld() *purseWorld { return newOldPurseWorld(0) }

// newOldPurseWorld: as long ago as that.
func newOldPurseWorld(ago uint64) *purseWorld {
	p := kit.SmallParams()
	p.BlockReward, p.MaxBlockVSize, p.MaxTxVSize = 1_000_000, 100_000, 16384
	w := &purseWorld{u: kit.NewUni(p)}
	u := w.u
	if ago > 0 {
		u.Earlier(ago)
	}
	w.a1 = u.Block("A1", nil, nil, kit.Key(1))
	w.a2 = u.Block("A2", w.a1, nil, kit.Key(2))
	w.t1 = u.Tx("t1", 0, []kit.In{{w.a1.Txs[0], 0, 1}}, []kit.Out{{300_000, 1}, {200_000, 2}, {400_000, 5}, {50_000, 1}})
	w.a3 = u.Block("A3", w.a2, []core.Tx{w.t1}, kit.Key(1))
	w.pend = u.Tx("pend", 0, []kit.In{{w.a2.Txs[0], 0, 2}}, []kit.Out{{500_000, 5}, {400_000, 2}})
	return w
}

// user is someone running wallet commands against a node.
type user struct {
	*hist
	w     *kit.Wallet
	pw    *purseWorld
	keys  []H
	reqs  []string // requests that reached the network
	down  int      // the request that fails (from 1 on), 0 for none
	nowhr bool     // the node cannot be reached
	how   int      // how it fails: 0 not sent, 1-5 answered in the node's place, 6 the answer breaks off
}

const devWallet = "/home/u/.config/basiccoin/wallet-dev.json"

func newUser(x *mcx.X, state, keys int) *user {
	pw := newPurseWorld()
	ops := [][]op{{}, {headOp("A1-A3", pw.a1, pw.a2, pw.a3)}, {headOp("A1-A3", pw.a1, pw.a2, pw.a3), txOp("pend", pw.pend)}}[state]
	return newUserOf(x, pw, ops, [][]int{{}, {1, 2}, {2}, {8, 1, 9, 2}}[keys])
}

func newUserOf(x *mcx.X, pw *purseWorld, ops []op, keys []int) *user {
	a := &user{hist: newHist(x, pw.u, true, nil, "wallet"), pw: pw}
	for _, o := range ops {
		a.do(o)
	}
	srv := rest.NewServer(rest.NewParams(webPort, false, true, "", true), a.n.Bus, a.n.Inv)
	x.S.GoNode(a.n.N, "rest", srv.Start)
	mcrt.Sleep(5 * kit.Ms)
	a.w = kit.NewWallet(x, "u", "10.0.0.9")
	var fk []kit.FileKey
	for _, k := range keys {
		fk = append(fk, kit.KeyOf(k))
		a.keys = append(a.keys, kit.Pkh(k))
	}
	a.w.N.FS.PutFile(devWallet, kit.WalletFile(true, fmt.Sprintf("http://10.0.0.1:%d", webPort), fk...))
	x.S.HTTPDown = func(c, s *mcrt.Node, method, url string) bool {
		a.reqs = append(a.reqs, method+" "+url)
		return a.nowhr || a.how == 0 && len(a.reqs) == a.down
	}
	x.S.HTTPAnswer = func(c, s *mcrt.Node, method, url string) (int, string) {
		if len(a.reqs) != a.down {
			return 0, ""
		}
		switch a.how {
		case 1:
			return 500, "error: no"
		case 2:
			return 404, "404 page not found"
		case 3:
			return 422, "{}"
		case 4:
			return 200, ""
		case 5:
			return 200, "v0.0.1"
		}
		return 0, ""
	}
	x.S.HTTPCut = func(c, s *mcrt.Node, method, url string) bool {
		return len(a.reqs) == a.down && a.how == 6 && method == "GET"
	}
	a.path = append(a.path, fmt.Sprintf("%d keys", len(a.keys)))
	return a
}

// cmdline is one wallet command with its confirmation.
type cmdline struct {
	args  []string
	stdin string
}

func (c cmdline) String() string {
	s := strings.Join(c.args, " ")
	if c.stdin != "" {
		s += fmt.Sprintf(" < %q", c.stdin)
	}
	return s
}

var colour = regexp.MustCompile("\x1b\\[[0-9]*m")

func decHash(s string) (h H, ok bool) {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 32 {
		return h, false
	}
	return core.NewHashTFromBytes(b), true
}

func hashes(args []string) (l []H, ok bool) {
	for _, s := range args {
		h, ok := decHash(s)
		if !ok {
			return nil, false
		}
		l = append(l, h)
	}
	return l, true
}

func distinct(l []H) (o []H) {
	m := map[H]bool{}
	for _, h := range l {
		if !m[h] {
			m[h] = true
			o = append(o, h)
		}
	}
	return
}

var digits = regexp.MustCompile(`^[0-9]+$`)

// run runs one command and judges what it printed, sent and changed.
func (a *user) runCmd(c cmdline) {
	if a.n.Dead != "" {
		return
	}
	a.path = append(a.path, "bcwallet dev "+c.String())
	pre := a.w.N.FS.Clone()
	a.reqs = nil
	nv, nh := len(a.n.VTxs), len(a.n.Heads)
	free, all := a.outputs()
	r := a.w.Run(c.stdin, append([]string{"dev"}, c.args...)...)
	a.n.Drain()
	if a.dead() {
		return
	}
	if a.n.N.Panics > 0 {
		a.fail("wallet", "the node's handler crashed")
		a.n.N.Panics = 0
	}
	out := colour.ReplaceAllString(r.Out, "")
	bad := func(f string, v ...any) { a.fail("wallet", "%s (output %q %s)", fmt.Sprintf(f, v...), out, r.Failed) }
	if r.Failed == "no end" {
		bad("the command never ends")
		return
	}
	posts := 0
	for _, q := range a.reqs {
		if strings.HasPrefix(q, "POST") {
			posts++
		}
	}
	cmd, args := c.args[0], c.args[1:]
	if !a.w.N.FS.Equal(pre) && !(cmd == "generate" && r.Success) {
		bad("the command changed the user's files")
	}
	if len(a.n.Heads) != nh {
		bad("the command changed the node's head")
	}
	sent := a.n.VTxs[nv:]
	if !r.Success || (cmd != "send" && cmd != "consolidate") {
		if len(sent) > 0 || posts > 0 && a.down == 0 {
			bad("the command sent %d transactions in %d posts though it %s", len(sent), posts, map[bool]string{true: "is no payment", false: "reports no success"}[r.Success])
		}
	}
	a.x.Count("commands_judged", 1)
	if len(args) > 0 && args[0] == "help" {
		if r.Success && cmd != "version" {
			bad("asking for help reports success")
		}
		return
	}
	// must tells whether the command has to succeed (1), has to fail (-1) or may do either (0).
	must := 0
	defer func() {
		if must > 0 && !r.Success {
			bad("the command is right but reports no success")
		}
		if must < 0 && r.Success {
			bad("the command cannot be carried out but reports success")
		}
	}()
	cut := a.nowhr || a.down > 0 && len(a.reqs) >= a.down
	if cut && a.how != 6 {
		must = -1
	}
	switch cmd {
	case "version":
		must = 1
		if r.Success && !strings.Contains(out, "v0.0.0-dev\n") {
			bad("wrong version printed")
		}
		return
	case "get-config-path":
		must = 1
		if r.Success && !strings.Contains(out, devWallet) {
			bad("wrong path printed")
		}
		return
	case "help":
		return
	case "generate":
		must = 1
		return
	}
	if cut && !r.Success {
		return
	}
	l := a.ledger()
	switch cmd {
	case "balance", "utxos":
		ids, ok := hashes(args)
		if !ok || (len(args) == 0 && len(a.keys) == 0) {
			must = -1
			return
		}
		if len(args) == 0 {
			ids = a.keys
		}
		must = 1
		if !r.Success {
			return
		}
		ids = distinct(ids)
		want := []string{}
		if cmd == "balance" {
			bal, tot := l.Balances(), new(big.Int)
			for _, h := range ids {
				b := bal[h]
				if b == nil {
					b = new(big.Int)
				}
				want = append(want, fmt.Sprintf("%s\t%s", h, b))
				tot.Add(tot, b)
			}
			want = append(want, fmt.Sprintf("total\t%s", tot))
		} else {
			for u, p := range all {
				for _, h := range ids {
					if h == p {
						want = append(want, fmt.Sprintf("%s[%d]\t%d", u.TxId, u.Ind, u.Value))
					}
				}
			}
		}
		a.lines(out, want, bad)
	case "rich-list":
		n := uint64(10)
		if len(args) > 0 {
			v, err := strconv.ParseUint(args[0], 10, 64)
			if err != nil || !digits.MatchString(args[0]) {
				must = -1
				return
			}
			n = v
		}
		bal := l.Balances()
		if len(bal) == 0 || n == 0 {
			return
		}
		must = 1
		if !r.Success {
			return
		}
		got := map[H]uint64{}
		last := uint64(1<<64 - 1)
		for _, s := range strings.Split(out, "\n") {
			if p := strings.Split(s, "\t"); len(p) == 2 {
				h, ok := decHash(p[0])
				v, err := strconv.ParseUint(p[1], 10, 64)
				if _, twice := got[h]; !ok || err != nil || twice {
					bad("line %q in the rich list", s)
					return
				}
				got[h] = v
				if v > last {
					bad("the rich list is not in order")
				}
				last = v
			}
		}
		if e := a.u.RichErr(got, bal, n); e != "" {
			bad("rich list: %s", e)
		}
	case "tx-confirms", "tx-block":
		ids, ok := hashes(args)
		if !ok || len(args) == 0 {
			must = -1
			return
		}
		must = 1
		if !r.Success {
			return
		}
		var known []H
		for _, h := range distinct(ids) {
			if _, ok := a.known.Tx[h]; ok {
				known = append(known, h)
			}
		}
		ex := a.u.Ref.Expect(l, a.owners, known, a.pending(l))
		got := map[H]string{}
		ls := strings.Split(out, "\n")
		for i := 0; i < len(ls); i++ {
			p := strings.SplitN(ls[i], "\t", 2)
			if h, ok := decHash(p[0]); ok {
				v := ""
				if len(p) == 2 {
					v = p[1]
				} else if i+1 < len(ls) {
					i++
					v = strings.TrimPrefix(ls[i], "\t")
				}
				if w, twice := got[h]; twice && w != v {
					bad("%s is answered twice, with %s and %s", h, w, v)
				}
				got[h] = v
			}
		}
		for _, h := range distinct(ids) {
			w := "not known"
			if cmd == "tx-confirms" {
				if n, ok := ex.Confirms[h]; ok {
					w = fmt.Sprint(n)
				}
			} else {
				w = "not included"
				if b, ok := ex.Included[h]; ok {
					w = b.String()
				}
			}
			if got[h] != w {
				bad("%s is answered with %q instead of %q", h, got[h], w)
			}
			delete(got, h)
		}
		if len(got) > 0 {
			bad("answers about %v nobody asked for", got)
		}
	case "get-tx":
		show(a, c, out, args, a.known.Tx, r.Success, &must, bad)
	case "get-merkle":
		show(a, c, out, args, a.known.Mk, r.Success, &must, bad)
	case "get-block":
		show(a, c, out, args, a.known.Bl, r.Success, &must, bad)
	case "send", "consolidate":
		a.paid(c, r.Success, out, sent, posts, free, &must, bad)
	default:
		must = -1
	}
}

// ledger is the replayed chain of the node's head.
func (a *user) ledger() *kit.Ledger { return a.u.Ref.Ledger(a.head) }

// outputs returns the wallet's outputs not spent by anything pending, and all unspent outputs.
func (a *user) outputs() (free, all map[core.Utxo]H) {
	l := a.ledger()
	ex := a.u.Ref.Expect(l, append(append([]H(nil), a.owners...), a.keys...), nil, a.pending(l))
	return onlyUtxo(ex.Free, a.keys), ex.Utxos
}

// lines compares the lines holding a tab with the wanted ones, in any order.
func (a *user) lines(out string, want []string, bad func(string, ...any)) {
	got := []string{}
	for _, s := range strings.Split(out, "\n") {
		if strings.Contains(s, "\t") {
			got = append(got, s)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		bad("printed %q instead of %q", got, want)
	}
}

// show judges a listing of entities.
func show[V interface{ Hash() H }](a *user, c cmdline, out string, args []string, held map[H]V, success bool, must *int, bad func(string, ...any)) {
	ids, ok := hashes(args)
	if !ok || len(args) == 0 {
		*must = -1
		return
	}
	want := only(held, ids)
	if len(want) == 0 {
		return // the node answers that it has none
	}
	*must = 1
	if !success {
		return
	}
	got := map[H]bool{}
	for rest := out; ; {
		i := strings.Index(rest, ":\n{")
		if i < 64 {
			break
		}
		h, ok := decHash(rest[i-64 : i])
		dec := json.NewDecoder(strings.NewReader(rest[i+2:]))
		var v V
		err := dec.Decode(&v)
		if w, k := want[h]; !ok || err != nil || got[h] || !k || fmt.Sprintf("%+v", v) != fmt.Sprintf("%+v", w) {
			bad("%s is shown as %+v (%v) instead of %+v", h, v, err, w)
			return
		}
		got[h] = true
		rest = rest[i+2+int(dec.InputOffset()):]
	}
	for _, h := range distinct(ids) {
		if _, ok := want[h]; ok != got[h] {
			bad("%s is shown: %v, held: %v", h, got[h], ok)
		}
		if _, ok := want[h]; !ok && !strings.Contains(out, h.String()+"\tnot known") {
			bad("%s is not reported as not known", h)
		}
	}
}

// fits tells whether the largest outputs that surely fit into one transaction pay the sum.
func fits(size uint64, free map[core.Utxo]H, outs int, sum *big.Int) bool {
	if len(free) <= 20 {
		return true
	}
	var vs []uint64
	for u := range free {
		vs = append(vs, u.Value)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] > vs[j] })
	got := new(big.Int)
	for i := 0; i < len(vs) && i < int(size-100-40*uint64(outs))/230; i++ {
		got.Add(got, new(big.Int).SetUint64(vs[i]))
	}
	return got.Cmp(new(big.Int).Add(sum, big.NewInt(20000))) >= 0
}

// paid judges a payment.
func (a *user) paid(c cmdline, success bool, out string, sent []H, posts int, free map[core.Utxo]H, must *int, bad func(string, ...any)) {
	send := c.args[0] == "send"
	dests, sum := map[H]*big.Int{}, new(big.Int)
	if send {
		if len(c.args) < 2 {
			*must = -1
			return
		}
		for _, s := range c.args[1:] {
			p := strings.Split(s, ":")
			var h H
			ok := len(p) == 2 && digits.MatchString(p[1])
			v := new(big.Int)
			if ok {
				v.SetString(p[1], 10)
				h, ok = decHash(p[0])
			}
			if !ok {
				*must = -1
				return
			}
			if dests[h] == nil {
				dests[h] = new(big.Int)
			}
			dests[h].Add(dests[h], v)
			sum.Add(sum, v)
		}
	}
	have := new(big.Int)
	own := map[H]bool{}
	for _, k := range a.keys {
		own[k] = true
	}
	for u := range free {
		have.Add(have, new(big.Int).SetUint64(u.Value))
	}
	answer, _, line := strings.Cut(c.stdin, "\n")
	yes := line && (answer == "y" || answer == "Y")
	no := !line || answer == "" || strings.ContainsAny(answer[:1], "nN")
	switch {
	case no, sum.Cmp(have) >= 0 || !send && len(free) < 2:
		*must = -1
	case yes && a.down == 0 && !a.nowhr && new(big.Int).Add(sum, big.NewInt(3000)).Cmp(have) <= 0:
		if !send || fits(a.pw.u.P.MaxTxVSize, free, len(dests)+1, sum) {
			*must = 1
		}
	}
	if !success {
		return
	}
	if len(sent) != 1 || posts != 1 {
		bad("success is reported but %d transactions were accepted in %d posts", len(sent), posts)
		return
	}
	var tx core.Tx
	a.x.S.CallNode(a.n.N, "read", func() { tx = kit.CloneTx(a.n.Inv.GetTx(sent[0])) })
	if e := a.known.TxErr(tx); e != "" {
		bad("the transaction sent is invalid: %s", e)
		return
	}
	if !strings.Contains(out, sent[0].String()) {
		bad("the id %s of the transaction sent is not shown", sent[0])
	}
	paid, back := map[H]*big.Int{}, new(big.Int)
	for _, o := range tx.Outputs {
		if paid[o.PublicKeyHash] == nil {
			paid[o.PublicKeyHash] = new(big.Int)
		}
		paid[o.PublicKeyHash].Add(paid[o.PublicKeyHash], new(big.Int).SetUint64(o.Value))
	}
	for h, v := range paid {
		w := dests[h]
		if w == nil {
			w = new(big.Int)
		}
		d := new(big.Int).Sub(v, w)
		if d.Sign() < 0 || d.Sign() > 0 && !own[h] {
			bad("%s is paid %d instead of %d", h, v, w)
			return
		}
		back.Add(back, d)
	}
	for h, w := range dests {
		if paid[h] == nil && w.Sign() > 0 {
			bad("%s is not paid the %d it should get", h, w)
			return
		}
	}
	if l := a.ledger(); tx.MinBlock > l.Height+1 {
		bad("the transaction sent cannot be included before height %d, the head's is %d", tx.MinBlock, l.Height)
	}
	in := kit.InSum(tx)
	for _, i := range tx.Inputs {
		if _, ok := free[i.Utxo]; !ok {
			bad("the transaction spends %v, which is not a free output of the wallet", i.Utxo)
		}
	}
	fee := new(big.Int).Sub(in, kit.OutSum(tx))
	if fee.Cmp(new(big.Int).SetUint64(tx.VSize()+uint64(8*len(tx.Inputs)))) > 0 || fee.Cmp(new(big.Int).SetUint64(tx.VSize())) < 0 {
		bad("a fee of %d is paid for a size of %d", fee, tx.VSize())
	}
	want := []string{fmt.Sprintf("inputs: %d\n", in), fmt.Sprintf("outputs: %d\n", kit.OutSum(tx)), fmt.Sprintf("fees: %d :", fee)}
	if send {
		want = []string{fmt.Sprintf("outputs: %d\n", sum), fmt.Sprintf("fees: %d :", fee), fmt.Sprintf("total debit: %d\n", new(big.Int).Add(sum, fee))}
	}
	for _, s := range want {
		if !strings.Contains(out, s) {
			bad("the user was not told %q", s)
		}
	}
	a.u.Ref.Tx[sent[0]] = tx
	a.known.Tx[sent[0]] = tx
}

// commands lists the command lines tried.
func (a *user) commands() (l []cmdline) {
	cmd := func(args ...string) { l = append(l, cmdline{args: args}) }
	k := func(i int) string { return kit.Pkh(i).String() }
	none := k(99)
	for _, c := range []string{"version", "get-config-path", "help", "generat", "", "Send", "dev", "generate", "import", "connect", "tx-confirms", "tx-block",
		"get-tx", "get-merkle", "get-block", "send", "balance", "utxos", "rich-list", "consolidate"} {
		cmd(c)
		cmd(c, "help")
	}
	for _, c := range []string{"balance", "utxos"} {
		cmd(c, k(1))
		cmd(c, k(2), k(1))
		cmd(c, k(1), k(1))
		cmd(c, k(5), none, k(5), k(2))
		cmd(c, none)
		cmd(c, strings.ToUpper(k(1)))
		cmd(c, strings.ToUpper(k(1)), k(1))
		cmd(c, k(1)[:63])
		cmd(c, k(1)+"0")
		cmd(c, k(1), "x")
		cmd(c, "")
		cmd(c, k(1)+","+k(2))
		cmd(c, k(1)+"&publicKeyHash="+k(2))
	}
	for _, n := range []string{"0", "1", "2", "3", "100", "-1", "x", "", "1.5", "18446744073709551615", "18446744073709551616", "1 "} {
		cmd("rich-list", n)
	}
	ids := func(c string, in []H) {
		var s []string
		for _, h := range in {
			s = append(s, h.String())
		}
		for i := range s {
			cmd(c, s[i])
			cmd(c, s[i], s[(i+1)%len(s)])
			cmd(c, s[i], s[i])
			cmd(c, none, s[i])
		}
		cmd(append([]string{c}, s...)...)
		cmd(c, none)
		cmd(c, none, none)
		cmd(c, s[0][:63])
		cmd(c, s[0], "x")
		cmd(c, s[0]+"&"+strings.Split(c, "-")[1]+"Id="+s[1])
		cmd(c, "")
	}
	for _, c := range []string{"tx-confirms", "tx-block", "get-tx"} {
		ids(c, []H{a.pw.a1.Txs[0].Hash(), a.pw.t1.Hash(), a.pw.pend.Hash(), a.pw.a3.Txs[0].Hash()})
	}
	ids("get-merkle", []H{a.pw.a1.B.MerkleRoot, a.pw.a3.B.MerkleRoot})
	ids("get-block", []H{a.pw.a1.ID, a.pw.a2.ID, a.pw.a3.ID})
	answers := []string{"y\n", "Y\n", "n\n", "N\n", "\n", "", "y", "no\n", "yes\n", "n\ny\n", "y\nn\n", " y\n", "y\r\n"}
	for _, in := range answers {
		l = append(l, cmdline{[]string{"consolidate"}, in}, cmdline{[]string{"send", k(5) + ":100"}, in}, cmdline{[]string{"send", k(5) + ":100", k(6) + ":7"}, in})
	}
	l = append(l, cmdline{[]string{"consolidate", "x"}, "y\n"})
	have := new(big.Int)
	free, _ := a.outputs()
	for u := range free {
		have.Add(have, new(big.Int).SetUint64(u.Value))
	}
	near := []string{}
	for _, d := range []int64{-3000, -2000, -1000, -700, -600, -500, -400, -300, -200, -100, -1, 0, 1} {
		if v := new(big.Int).Add(have, big.NewInt(d)); v.Sign() >= 0 {
			near = append(near, k(5)+":"+v.String())
		}
	}
	sends := [][]string{
		{k(5) + ":100", k(5) + ":50"}, {k(5) + ":100", k(6) + ":7", k(5) + ":1"}, {k(5) + ":100", k(5) + ":0"}, {k(5) + ":0", k(5) + ":100"},
		{k(5) + ":100", strings.ToUpper(k(5)) + ":50"}, {k(1) + ":1000"}, {k(1) + ":1000", k(2) + ":2000", k(1) + ":5"}, {k(5) + ":0"}, {k(5) + ":0", k(6) + ":0"},
		{k(5) + ":1000000"}, {k(5) + ":1300000", k(6) + ":5"}, {k(5) + ":00100"},
		{k(5) + ":18446744073709551615"}, {k(5) + ":18446744073709551615", k(6) + ":2"}, {k(5) + ":18446744073709551615", k(5) + ":2"},
		{k(5) + ":18446744073709551000", k(6) + ":600", k(7) + ":100"}, {k(5) + ":9223372036854775808", k(5) + ":9223372036854775808"},
		{k(5) + ":9223372036854775808", k(6) + ":9223372036854775808"}, {k(5) + ":9223372036854775808", k(6) + ":9223372036854775808", k(7) + ":100"}, {k(5) + ":18446744073709551616"},
		{k(5) + ":-1"}, {k(5) + ":+1"}, {k(5) + ":1.5"}, {k(5) + ":1e3"}, {k(5) + ":0x10"}, {k(5) + ":1_0"}, {k(5) + ": 1"}, {k(5) + ":"}, {k(5)}, {":"}, {":5"}, {""}, {k(5) + ":1:2"},
		{k(5) + "=5"}, {k(5)[:62] + ":5"}, {k(5) + "00:5"}, {"z" + k(5)[1:] + ":5"}, {k(5) + ":100", "x"}, {"x", k(5) + ":100"}, {k(5) + ":100", k(6) + ":x"}, {k(5), "100"}, {"100:" + k(5)},
	}
	for _, n := range near {
		sends = append(sends, []string{n})
	}
	for _, s := range sends {
		l = append(l, cmdline{append([]string{"send"}, s...), "y\n"})
	}
	return
}

func c31(tier string) []mcx.Scenario {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	one := func(x *mcx.X, kinds int, prep func(a *user, n int)) {
		a := newUser(x, x.Pick(3), x.Pick(4))
		if a.n.Dead != "" {
			return
		}
		l := a.commands()
		c := l[x.Pick(len(l))]
		prep(a, x.Pick(kinds))
		a.runCmd(c)
		x.State(mcx.Hash(fmt.Sprint(a.path)), false)
	}
	return []mcx.Scenario{
		{Name: "commands", Body: func(x *mcx.X) {
			x.S.MapDesc = x.Pick(2) == 1
			a := newUser(x, x.Pick(3), x.Pick(4))
			if a.n.Dead != "" {
				return
			}
			l := a.commands()
			a.runCmd(l[x.Pick(len(l))])
			x.State(mcx.Hash(fmt.Sprint(a.path)), false)
		}},
		{Name: "node-unreachable", Body: func(x *mcx.X) {
			one(x, 3, func(a *user, n int) {
				// request 1 is the version check
				switch n {
				case 0:
					a.nowhr = true
				default:
					a.down = n + 1
				}
			})
		}},
		{Name: "node-refuses", Body: func(x *mcx.X) {
			one(x, 36, func(a *user, n int) {
				a.down, a.how = 1+n/6, 1+n%6
				a.path = append(a.path, fmt.Sprintf("request %d %s", a.down, []string{"answered 500", "answered 404", "answered 422", "answered with nothing", "answered v0.0.1", "answered in half"}[a.how-1]))
			})
		}},
		{Name: "in-large-numbers", Body: func(x *mcx.X) {
			p := kit.SmallParams()
			p.BlockReward, p.MaxBlockVSize, p.MaxTxVSize = 1_000_000, 100_000, 16384
			pw := &purseWorld{u: kit.NewUni(p)}
			u := pw.u
			pw.a1 = u.Block("A1", nil, nil, kit.Key(1))
			var outs []kit.Out
			var keys []int
			for i := 0; i < 200; i++ {
				outs = append(outs, kit.Out{V: uint64(1000 + i*37%1000), K: 10 + i%140})
				if i < 140 {
					keys = append(keys, 10+i)
				}
			}
			outs[190].V, outs[5].V = 0, 0
			pw.t1 = u.Tx("fan", 0, []kit.In{{pw.a1.Txs[0], 0, 1}}, outs)
			pw.a2 = u.Block("A2", pw.a1, []core.Tx{pw.t1})
			ops := []op{headOp("A1-A2", pw.a1, pw.a2)}
			ids := []string{pw.a1.Txs[0].Hash().String(), pw.t1.Hash().String()}
			if x.Pick(2) == 1 { // some outputs have pending spends
				for i := 0; i < 20; i++ {
					t := u.Tx(fmt.Sprint("p", i), 0, []kit.In{{pw.t1, i, 10 + i}}, []kit.Out{{uint64(500 + i), 5}})
					ops = append(ops, txOp(fmt.Sprint("p", i), t))
					ids = append(ids, t.Hash().String())
				}
			}
			for i := 0; i < 60; i++ {
				ids = append(ids, kit.Pkh(300+i).String())
			}
			a := newUserOf(x, pw, ops, keys)
			var ks, dests []string
			for i := 0; i < 140; i++ {
				ks = append(ks, kit.Pkh(10+i).String())
				if i < 75 {
					dests = append(dests, fmt.Sprintf("%s:%d", kit.Pkh(200+i).String(), 10+i))
				}
			}
			with := func(c string, l []string) cmdline { return cmdline{args: append([]string{c}, l...)} }
			cmds := []cmdline{{args: []string{"balance"}}, {args: []string{"utxos"}}, with("balance", ks), with("utxos", ks), with("balance", ks[20:]),
				with("tx-confirms", ids), with("tx-block", ids), with("get-tx", ids), {args: []string{"rich-list"}}, {args: []string{"rich-list", "60"}}, {args: []string{"rich-list", "150"}},
				{append([]string{"send"}, dests...), "y\n"}, {append([]string{"send"}, append(dests, dests...)...), "y\n"}, {[]string{"send", kit.Pkh(5).String() + ":70000"}, "y\n"},
				{[]string{"send", kit.Pkh(5).String() + ":105000"}, "y\n"}, {[]string{"send", kit.Pkh(5).String() + ":140000"}, "y\n"}, {[]string{"consolidate"}, "y\n"}}
			for i := 0; i < 2 && a.n.Dead == ""; i++ {
				a.runCmd(cmds[x.Pick(len(cmds))])
			}
			x.State(mcx.Hash(fmt.Sprint(a.path)), false)
		}},
		{Name: "long-chain", Body: func(x *mcx.X) {
			pw := newOldPurseWorld(200_000)
			top := []*kit.Blk{pw.a1, pw.a2, pw.a3}
			n := []int{7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 31, 39, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300}[x.Pick(25)]
			for i := 4; i <= n; i++ {
				top = append(top, pw.u.Block(fmt.Sprint("A", i), top[len(top)-1], nil, kit.Key(3)))
			}
			a := newUserOf(x, pw, []op{headOp(fmt.Sprint("A1-A", n), top...)}, []int{1, 2})
			if a.head != top[n-1].ID {
				a.fail("wallet", "setup: the chain is not adopted")
				return
			}
			cmds := []cmdline{{[]string{"send", kit.Pkh(5).String() + ":100000"}, "y\n"}, {[]string{"consolidate"}, "y\n"}, {args: []string{"balance", kit.Pkh(3).String()}},
				{args: []string{"tx-confirms", pw.a1.Txs[0].Hash().String(), pw.t1.Hash().String(), top[n-1].Txs[0].Hash().String()}},
				{args: []string{"tx-block", pw.a1.Txs[0].Hash().String(), pw.t1.Hash().String(), top[n-1].Txs[0].Hash().String()}},
				{args: []string{"get-block", pw.a1.ID.String(), top[n-1].ID.String()}}, {args: []string{"utxos", kit.Pkh(3).String()}}}
			a.runCmd(cmds[x.Pick(len(cmds))])
			if a.n.Dead == "" {
				a.do(op{name: "mine", mine: true})
				a.runCmd(cmdline{args: []string{"balance"}})
			}
			x.State(mcx.Hash(fmt.Sprint(a.path)), false)
		}},
		{Name: "histories", Body: func(x *mcx.X) {
			a := newUser(x, 1, []int{1, 3}[x.Pick(2)])
			if a.n.Dead != "" {
				return
			}
			k := func(i int) string { return kit.Pkh(i).String() }
			for i := 0; i < depth; i++ {
				switch j := x.Pick(7); j {
				case 0:
					a.runCmd(cmdline{[]string{"send", k(5) + ":100000"}, "y\n"})
				case 1:
					a.runCmd(cmdline{[]string{"send", k(5) + ":900000", k(2) + ":4", k(5) + ":300000"}, "y\n"})
				case 2:
					a.runCmd(cmdline{[]string{"send", k(2) + ":600000"}, "n\n"})
				case 3:
					a.runCmd(cmdline{[]string{"consolidate"}, "y\n"})
				case 4, 5:
					a.do(op{name: "mine", mine: true})
				case 6:
					a.runCmd(cmdline{[]string{"send", k(5) + ":5"}, "y\n"})
				}
				if a.n.Dead != "" {
					return
				}
				for _, c := range [][]string{{"balance"}, {"utxos"}, {"rich-list"}, {"tx-confirms", a.pw.t1.Hash().String()}} {
					a.runCmd(cmdline{args: c})
				}
				for _, id := range a.u.TxIDs() {
					if _, ok := a.known.Tx[id]; ok && i == depth-1 {
						a.runCmd(cmdline{args: []string{"tx-confirms", id.String()}})
						a.runCmd(cmdline{args: []string{"get-tx", id.String()}})
					}
				}
				x.State(mcx.Hash(fmt.Sprint(a.path)), i == 0)
			}
		}},
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C31", Scenarios: c31, Rule: "every catalogued command line with every confirmation in every prepared state of wallet and node, and every sequence of payments and blocks up to the stated depth",
		Assumptions: []string{"one wallet process at a time", "a request fails before it reaches the node, is refused, is answered, or (queries) is answered in part"}})
}
