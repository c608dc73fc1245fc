package ledger

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/rest/client"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
	vhttp "github.com/levilutz/basiccoin/zz_mc/shim/net_http"
)

const webPort = 8080

// web is a client program on another machine, talking to the node's HTTP server.
type web struct {
	h  *hist
	w  *mcrt.Node
	c  *client.WalletClient
	up bool
}

func newWeb(h *hist) *web {
	wb := &web{h: h}
	srv := rest.NewServer(rest.NewParams(webPort, false, true, "", true), h.n.Bus, h.n.Inv)
	h.x.S.GoNode(h.n.N, "rest", srv.Start)
	mcrt.Sleep(5 * kit.Ms)
	wb.w = h.x.S.NewNode("w", "10.0.0.9")
	wb.do("connecting", func() error {
		c, err := client.NewWalletClient(fmt.Sprintf("http://10.0.0.1:%d", webPort), "v0.0.0-dev")
		wb.c = c
		return err
	}, func(err error) {
		if err != nil {
			h.fail("web", "cannot connect: %v", err)
		}
	})
	wb.up = wb.c != nil
	return wb
}

// do runs one request of the client program.
func (wb *web) do(what string, f func() error, judge func(err error)) {
	if wb.h.n.Dead != "" {
		return
	}
	var err error
	ok, pv := wb.h.x.S.CallNodeTimeout(wb.w, "request", 20*kit.Sec, func() { err = f() })
	wb.h.n.Drain()
	if !ok {
		if pv == nil {
			pv = "no answer"
		}
		wb.h.fail("web", "%s: %v", what, pv)
		wb.h.n.Dead = "no answer"
		return
	}
	if wb.h.dead() {
		return
	}
	if wb.h.n.N.Panics > 0 {
		wb.h.fail("web", "%s: the handler crashed", what)
		wb.h.n.N.Panics = 0
		return
	}
	wb.h.x.Count("requests", 1)
	judge(err)
}

// raw issues one request as given.
func (wb *web) raw(method, url string, body []byte, judge func(code int, body string)) {
	code, got := 0, ""
	wb.do(method+" "+url, func() (err error) {
		code, got, err = vhttp.Call(wb.h.n.N, webPort, method, url, nil, body)
		return
	}, func(err error) {
		if err != nil {
			wb.h.fail("web", "%s %s %.60q: no response (%v)", method, url, body, err)
			return
		}
		judge(code, got)
	})
}

type idList struct {
	name string
	ids  []H
}

// lists picks query lists out of the given ids: all, each alone, reversed with duplicates, with an unknown one.
func lists(ids []H, none H) (out []idList) {
	out = append(out, idList{"all", ids}, idList{"all and an unknown one", append([]H{none}, ids...)})
	var d []H
	for i := len(ids) - 1; i >= 0; i-- {
		d = append(d, ids[i], ids[i])
	}
	out = append(out, idList{"each twice", d})
	if len(ids) > 60 {
		var late []H
		for i := 0; i < 300; i++ {
			late = append(late, none)
		}
		out = append(out, idList{"all, after 300 unknown ones", append(late, ids...)})
	}
	for i := range ids {
		if n := len(ids); n > 60 && i != 0 && i != n/2 && i != n-1 {
			continue
		}
		out = append(out, idList{fmt.Sprintf("number %d", i), ids[i : i+1]}, idList{fmt.Sprintf("number %d twice", i), []H{ids[i], none, ids[i]}})
	}
	return
}

func only[V any](m map[H]V, ids []H) map[H]V {
	o := map[H]V{}
	for _, i := range ids {
		if v, ok := m[i]; ok {
			o[i] = v
		}
	}
	return o
}

func onlyUtxo(m map[core.Utxo]H, ids []H) map[core.Utxo]H {
	o := map[core.Utxo]H{}
	for u, p := range m {
		for _, i := range ids {
			if p == i {
				o[u] = p
			}
		}
	}
	return o
}

// queries asks everything over HTTP and compares with the replayed chain.
func (wb *web) queries() {
	h := wb.h
	if h.n.Dead != "" || !wb.up {
		return
	}
	none := kit.DH([]byte("nobody knows this"))
	var known []H
	for _, id := range h.u.TxIDs() {
		if _, ok := h.known.Tx[id]; ok {
			known = append(known, id)
		}
	}
	l := h.u.Ref.Ledger(h.head)
	want := h.u.Ref.Expect(l, append([]H{none}, h.owners...), known, h.pending(l))
	bad := func(what string, err error, got, exp any) {
		if err != nil {
			h.fail("web", "%s: %v", what, err)
		} else if !reflect.DeepEqual(got, exp) {
			h.fail("web", "%s: answered %v instead of %v", what, got, exp)
		}
	}
	var hh uint64
	wb.do("height", func() (err error) { hh, err = wb.c.GetHeadHeight(); return }, func(err error) { bad("height", err, hh, want.Height) })
	for i, p := range append([]H{none}, h.owners...) {
		p := p
		if n := len(h.owners); n > 60 && i > 2 && i < n-2 {
			continue
		}
		var b uint64
		what := fmt.Sprintf("balance of owner %d", i)
		wb.do(what, func() (err error) { b, err = wb.c.GetBalance(p); return }, func(err error) { bad(what, err, b, want.Bal[p]) })
	}
	for _, ls := range lists(h.owners, none) {
		ls := ls
		var b map[H]uint64
		what := "balances of " + ls.name
		wb.do(what, func() (err error) { b, err = wb.c.GetManyBalances(append([]H(nil), ls.ids...)); return },
			func(err error) { bad(what, err, b, only(want.Bal, ls.ids)) })
		for _, ex := range []bool{false, true} {
			ex := ex
			var u map[core.Utxo]H
			what := fmt.Sprintf("unspent outputs of %s, without pending spends: %v", ls.name, ex)
			w := onlyUtxo(want.Utxos, ls.ids)
			if ex {
				w = onlyUtxo(want.Free, ls.ids)
			}
			wb.do(what, func() (err error) { u, err = wb.c.GetManyUtxos(append([]H(nil), ls.ids...), ex); return },
				func(err error) { bad(what, err, u, w) })
		}
	}
	for _, ls := range lists(h.u.TxIDs(), none) {
		ls := ls
		var c map[H]uint64
		wb.do("confirms", func() (err error) { c, err = wb.c.GetTxConfirms(append([]H(nil), ls.ids...)); return },
			func(err error) { bad("confirmations of "+ls.name, err, c, only(want.Confirms, ls.ids)) })
		var b map[H]H
		wb.do("including blocks", func() (err error) { b, err = wb.c.GetTxIncludedBlock(append([]H(nil), ls.ids...)); return },
			func(err error) { bad("including blocks of "+ls.name, err, b, only(want.Included, ls.ids)) })
		data(wb, "transactions", ls, h.known.Tx, wb.c.GetTx)
	}
	var mk, bl []H
	for _, k := range h.u.Blks {
		for _, m := range k.Merkles {
			mk = append(mk, m.Hash())
		}
		bl = append(bl, k.ID)
	}
	for _, ls := range lists(mk, none)[:5] {
		data(wb, "merkle nodes", ls, h.known.Mk, wb.c.GetMerkle)
	}
	for _, ls := range lists(bl, none)[:7] {
		data(wb, "blocks", ls, h.known.Bl, wb.c.GetBlock)
	}
	bal := l.Balances()
	n := uint64(len(bal))
	for _, k := range []uint64{0, 1, 2, n / 2, n - 1, n, n + 1, 10, 1 << 31, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		k := k
		if k > n && k == n-1 {
			continue
		}
		var r map[H]uint64
		wb.do("rich list", func() (err error) { r, err = wb.c.GetRichList(k); return }, func(err error) {
			if err != nil {
				h.fail("web", "rich list of length %d: %v", k, err)
			} else if d := h.u.RichErr(r, bal, k); d != "" {
				h.fail("web", "rich list of length %d: %s", k, d)
			}
		})
	}
	wb.raw("GET", "/wallet/richlist", nil, func(code int, body string) {
		if code != 200 {
			h.fail("web", "rich list without length: %d %s", code, body)
		}
	})
	for _, v := range []string{"false", "", "true", "TRUE", "True"} {
		v := v
		url := "/wallet/utxos?excludeMempool=" + v
		for _, o := range h.owners {
			url += "&publicKeyHash=" + o.String()
		}
		wb.raw("GET", url, nil, func(code int, body string) {
			w := want.Utxos
			if strings.EqualFold(v, "true") {
				w = want.Free
			}
			w = onlyUtxo(w, h.owners)
			if code != 200 || strings.Count(body, `"pkh"`) != len(w) {
				h.fail("web", "unspent outputs with excludeMempool=%s: %d with %d entries instead of %d", v, code, strings.Count(body, `"pkh"`), len(w))
			}
		})
	}
}

// data queries entities by id: exactly those held are returned, and it is an error when none is.
func data[V interface{ Hash() H }](wb *web, what string, ls idList, held map[H]V, f func([]H) (map[H]V, error)) {
	want := only(held, ls.ids)
	var got map[H]V
	wb.do(what, func() (err error) { got, err = f(append([]H(nil), ls.ids...)); return }, func(err error) {
		if len(want) == 0 {
			if err == nil && len(got) > 0 {
				wb.h.fail("web", "%s %s: %d returned though none is held", what, ls.name, len(got))
			}
			return
		}
		if err != nil {
			wb.h.fail("web", "%s %s: %v", what, ls.name, err)
			return
		}
		if len(got) != len(want) {
			wb.h.fail("web", "%s %s: %d returned instead of %d", what, ls.name, len(got), len(want))
		}
		for id, v := range got {
			if w, ok := want[id]; !ok || fmt.Sprintf("%+v", v) != fmt.Sprintf("%+v", w) {
				wb.h.fail("web", "%s %s: %s is returned as %+v instead of %+v", what, ls.name, id, v, w)
			}
		}
	})
}

// malformed queries and bodies: client errors, and nothing changes.
func (wb *web) malformed() {
	h := wb.h
	if h.n.Dead != "" || !wb.up {
		return
	}
	deep := h.n.Deep()
	a, b, c := h.n.Known(h.u)
	nh, nt, ng := len(h.n.Heads), len(h.n.VTxs), len(h.n.Targets)
	expect := func(method, url string, body []byte, ok func(code int) bool) {
		wb.raw(method, url, body, func(code int, got string) {
			if !ok(code) {
				h.fail("web", "%s %s %.200q is answered with %d %.80q", method, url, body, code, got)
			}
		})
	}
	client4 := func(c int) bool { return c >= 400 && c < 500 }
	not := func(c int) bool { return c == 405 }
	id := h.owners[0].String()
	for _, e := range []struct{ path, par string }{
		{"balance", "publicKeyHash"}, {"utxos", "publicKeyHash"}, {"tx", "txId"}, {"tx/confirms", "txId"},
		{"tx/block", "txId"}, {"merkle", "merkleId"}, {"block", "blockId"},
	} {
		p := "/wallet/" + e.path
		for _, q := range []string{"", "?", "?" + e.par, "?" + e.par + "=", "?" + e.par + "=" + id[:63], "?" + e.par + "=" + id + "0",
			"?" + e.par + "=" + id[:62], "?" + e.par + "=g" + id[1:], "?" + e.par + "=0x" + id[2:], "?" + e.par + "=%20" + id[1:],
			"?" + e.par + "=" + id + "&" + e.par + "=", "?" + e.par + "=" + id + "&" + e.par + "=zz", "?" + e.par + "=" + id + "," + id,
			"?" + strings.ToLower(e.par) + "=" + id, "?other=" + id, "?" + e.par + "=" + id[:31] + "%C3%A9" + id[33:]} {
			expect("GET", p+q, nil, client4)
		}
		for _, m := range []string{"PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "get"} {
			expect(m, p+"?"+e.par+"="+id, nil, not)
		}
		if e.path != "tx" {
			expect("POST", p+"?"+e.par+"="+id, nil, not)
		}
	}
	for _, v := range []string{"", "-1", "1.5", "abc", "18446744073709551616", "0x10", "%201", "1e3", "1_0"} {
		expect("GET", "/wallet/richlist?maxLen="+v, nil, client4)
	}
	expect("POST", "/wallet/richlist", nil, not)
	expect("POST", "/wallet/head/height", nil, not)
	for _, p := range []string{"/", "/wallet", "/wallet/", "/wallet/nothing", "/wallet/tx/nothing", "/balance", "/admin/terminate"} {
		expect("GET", p, nil, client4)
		expect("POST", p, nil, client4)
	}
	if body := wb.sampleBody(); body != nil {
		for i := 0; i < len(body); i += 1 + len(body)/40 {
			expect("POST", "/wallet/tx", body[:i], client4)
		}
		for _, r := range [][2]string{
			{`"isCoinbase":false`, `"isCoinbase":"no"`}, {`"isCoinbase":false`, `"isCoinbase":true`}, {`"minBlock":`, `"minBlock":-`}, {`"minBlock":`, `"minBlock":99999999999999999999`},
			{`"minBlock":`, `"minBlock":1.5`}, {`"value":`, `"value":-`}, {`"value":`, `"value":99999999999999999999`}, {`"value":`, `"value":1`},
			{`"txId":"`, `"txId":"0`}, {`"txId":"`, `"txId":"zz`}, {`"publicKeyHash":"`, `"publicKeyHash":"0`}, {`"publicKey":"`, `"publicKey":"*`},
			{`"publicKey":"`, `"publicKey":"AAAA`}, {`"signature":"`, `"signature":"*`}, {`"signature":"`, `"signature":"AAAA`}, {`"ind":`, `"ind":-`},
			{`"ind":`, `"ind":9`}, {`"ind":`, `"ind":18446744073709551616`}, {`"inputs":[`, `"inputs":[null,`}, {`"outputs":[`, `"outputs":[null,`}, {`"inputs":[`, `"inputs":[{},`},
			{`"inputs":[`, `"inputs":[[],`}, {`"inputs":`, `"inputs":null,"x":`}, {`"outputs":`, `"outputs":null,"x":`}, {`"outputs":`, `"outputs":{},"x":`},
		} {
			if s := strings.Replace(string(body), r[0], r[1], 1); s != string(body) {
				expect("POST", "/wallet/tx", []byte(s), client4)
			}
		}
		expect("POST", "/wallet/tx", append(append([]byte{}, body...), body...), client4)
	}
	for _, s := range []string{"", "null", "{}", "[]", "0", `"tx"`, "true", `{"inputs":[]}`, `{"inputs":[{"utxo":{"value":18446744073709551615}}]}`,
		`{"inputs":[{"utxo":{"value":5},"publicKey":null,"signature":null}],"outputs":[]}`, "{", "\x00", `{"isCoinbase":true,"minBlock":1,"inputs":[],"outputs":[]}`,
		strings.Repeat("[", 20000)} {
		expect("POST", "/wallet/tx", []byte(s), client4)
	}
	if h.n.Dead != "" || h.dead() {
		return
	}
	a2, b2, c2 := h.n.Known(h.u)
	if h.n.Deep() != deep || !reflect.DeepEqual(a, a2) || !reflect.DeepEqual(b, b2) || !reflect.DeepEqual(c, c2) ||
		nh != len(h.n.Heads) || nt != len(h.n.VTxs) || ng != len(h.n.Targets) {
		h.fail("web", "malformed requests changed the node's state")
	}
}

// sampleBody is the encoding of a valid transaction the node does not hold, if there is one.
func (wb *web) sampleBody() []byte {
	for _, id := range wb.h.u.TxIDs() {
		t := wb.h.u.Ref.Tx[id]
		if _, ok := wb.h.known.Tx[id]; !ok && !t.IsCoinbase && wb.h.known.TxErr(t) == "" {
			b, _ := json.Marshal(t)
			return b
		}
	}
	return nil
}

// posts offers every transaction of the universe over HTTP.
func (wb *web) posts(extra []core.Tx) {
	h := wb.h
	if h.n.Dead != "" || !wb.up {
		return
	}
	var txs []core.Tx
	for _, id := range h.u.TxIDs() {
		txs = append(txs, h.u.Ref.Tx[id])
	}
	wb.post(append(txs, extra...))
}

func (wb *web) post(txs []core.Tx) {
	h := wb.h
	if h.n.Dead != "" || !wb.up {
		return
	}
	for _, t := range txs {
		t := t
		why := h.known.TxErr(t)
		if why == "" && t.IsCoinbase {
			why = "nothing to gain from including it"
		}
		_, had := h.known.Tx[t.Hash()]
		var got H
		now := unix()
		wb.do("posting a transaction", func() (err error) { got, err = wb.c.PostTx(kit.CloneTx(t)); return }, func(err error) {
			h.sync(now)
			delete(h.lost, t.Hash())
			_, has := h.known.Tx[t.Hash()]
			switch {
			case why == "" && err != nil:
				h.fail("web", "valid transaction %s was reported as %v", h.u.Name(t.Hash()), err)
			case why == "" && got != t.Hash():
				h.fail("web", "transaction %s was reported accepted as %s", h.u.Name(t.Hash()), got)
			case why == "" && !has:
				h.fail("web", "transaction %s was reported accepted but is not held", h.u.Name(t.Hash()))
			case why != "" && err == nil && !had:
				h.fail("web", "invalid transaction %s (%s) was reported accepted", h.u.Name(t.Hash()), why)
			}
		})
		if h.n.Dead != "" {
			return
		}
	}
}

func c25(tier string) []mcx.Scenario {
	f := theForks()
	depth := 4
	if tier == "thorough" {
		depth = 6
	}
	ops := []op{headOp("A1", f.a1), headOp("A2", f.a2), headOp("A1-A3", f.a1, f.a2, f.a3), headOp("A1-X2-X4", f.a1, f.x2, f.x3, f.x4), headOp("B1-B3", f.b1, f.b2, f.b3),
		headOp("B1-B4", f.b1, f.b2, f.b3, f.b4), txOp("t1", f.t1), txOp("t1x", f.t1x), txOp("t2", f.t2)}
	extra, _, _ := insane(f)
	dir := "/Data-1"
	one := func(name string, ops []op, depth int, disk *string, what func(wb *web), o ...string) mcx.Scenario {
		return mcx.Scenario{Name: name, Body: func(x *mcx.X) {
			h := newHist(x, f.u, true, disk, append([]string{"web"}, o...)...)
			wb := newWeb(h)
			h.run(ops, depth, func() { what(wb) })
		}}
	}
	return []mcx.Scenario{
		one("queries", ops, depth, nil, (*web).queries),
		one("queries-on-disk", ops[:5], 2, &dir, (*web).queries),
		one("malformed-requests", ops, 2, nil, func(wb *web) { wb.malformed(); wb.queries() }),
		{Name: "posted-transactions", Body: func(x *mcx.X) {
			h := newHist(x, f.u, true, nil, "web", "ledger", "template")
			wb := newWeb(h)
			h.run(ops, depth, nil)
			wb.posts(extra)
			wb.posts(nil)
			wb.queries()
			h.judge()
		}},
		encodings(),
		{Name: "in-large-numbers", Body: func(x *mcx.X) {
			g := theLarge()
			h := newHist(x, g.u, true, nil, "web", "ledger", "template")
			wb := newWeb(h)
			h.seq(g.pre...)
			h.run(g.ops[:6], depth-2, wb.queries)
			wb.post(append([]core.Tx{g.gather}, g.bad...))
			wb.queries()
			h.judge()
		}},
		{Name: "shorter-chains-with-more-work", Body: func(x *mcx.X) {
			s := theSide()
			h := newHist(x, s.u, true, nil, "web", "ledger")
			wb := newWeb(h)
			h.seq(s.pre...)
			h.run(s.ops, 3, wb.queries)
		}},
		{Name: "after-restarts", Body: func(x *mcx.X) { newHist(x, f.u, true, &dir, "web", "ledger").restarts(ops, 3) }},
		webRace(f, tier),
	}
}

// webRace: queries arriving while heads and transactions are adopted are answered as of a moment before or after.
func webRace(f *forks, tier string) mcx.Scenario {
	bound := 1
	if tier == "thorough" {
		bound = 2
	}
	quiet := func(t *mcrt.Thread) bool { return !strings.HasPrefix(t.Name(), "time.") }
	return mcx.Scenario{Name: "queries-during-adoption", Bound: bound,
		Opt: func(s *mcrt.Sched) { s.RaceDetect = true; s.Filter = quiet },
		Body: func(x *mcx.X) {
			h := newHist(x, f.u, true, nil, "web")
			wb := newWeb(h)
			h.seq(headOp("A1", f.a1), headOp("A2", f.a2), txOp("t2", f.t2))
			heads := []*kit.Blk{f.a2, f.a3}
			ev := kit.Event(f.a3)
			if x.Pick(2) == 1 {
				heads, ev = []*kit.Blk{f.a2, f.x4}, kit.Event(f.x2, f.x3, f.x4)
			}
			kind := x.Pick(5)
			type ans struct {
				b    map[H]uint64
				u    map[core.Utxo]H
				i    map[H]H
				t    map[H]core.Tx
				err  error
				done bool
			}
			var as [2]ans
			ids := h.u.TxIDs()
			x.S.Explore(true)
			for k := range as {
				k := k
				x.S.GoNode(wb.w, "client", func() {
					a := &as[k]
					switch kind {
					case 0:
						a.b, a.err = wb.c.GetManyBalances(h.owners)
					case 1:
						a.u, a.err = wb.c.GetManyUtxos(h.owners, false)
					case 2:
						a.i, a.err = wb.c.GetTxIncludedBlock(ids)
					case 3:
						a.b, a.err = wb.c.GetRichList(100)
					case 4:
						a.t, a.err = wb.c.GetTx(ids)
					}
					a.done = true
				})
			}
			x.S.CallNode(h.n.N, "offer", func() { h.n.Bus.CandidateHead.Pub(ev) })
			x.S.CallNode(h.n.N, "offer", func() { h.n.Bus.CandidateTx.Pub(bus.CandidateTxEvent{Tx: f.t3}) })
			mcrt.Sleep(100 * kit.Ms)
			x.S.Explore(false)
			mcrt.Sleep(kit.Sec)
			h.n.Drain()
			if h.dead() {
				return
			}
			for _, a := range as {
				if !a.done || a.err != nil {
					h.fail("web", "a query during an adoption was not answered: %v", a.err)
					continue
				}
				ok := false
				for _, k := range heads {
					l := h.u.Ref.Ledger(k.ID)
					w := h.u.Ref.Expect(l, h.owners, ids, nil)
					switch kind {
					case 0:
						ok = ok || reflect.DeepEqual(a.b, w.Bal)
					case 1:
						ok = ok || reflect.DeepEqual(a.u, w.Utxos)
					case 2:
						ok = ok || reflect.DeepEqual(a.i, w.Included)
					case 3:
						ok = ok || h.u.RichErr(a.b, l.Balances(), 100) == ""
					case 4:
						ok = true
						for id, t := range a.t {
							ok = ok && t.Hash() == id
						}
					}
				}
				if !ok {
					h.fail("web", "a query (kind %d) during the adoption of %s was answered with a mixture: %v%v%v", kind, heads[1].Name, a.b, a.u, a.i)
				}
			}
			x.State(mcx.Hash(kind, heads[1].Name, fmt.Sprint(as[0].b, as[1].b, len(as[0].u), len(as[1].u))), false)
		}}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C25", Scenarios: c25, Assumptions: ledgerAssume, Rule: ledgerRule})
}
