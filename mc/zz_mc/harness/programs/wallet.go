package programs

import (
	"encoding/json"
	"fmt"
	"net/http"
	"regexp"
	"sort"
	"strings"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
)

// standIn is a scripted node answering the wallet's requests.
type standIn struct {
	version string
	utxos   map[string]uint64 // by public key hash: value of its only unspent output
	posted  []core.Tx
	asked   [][]string
}

func (s *standIn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := strings.ReplaceAll(r.URL.Path, "//", "/")
	q := r.URL.Query()["publicKeyHash"]
	switch p {
	case "/version":
		fmt.Fprint(w, s.version)
	case "/wallet/head/height":
		fmt.Fprint(w, "5")
	case "/wallet/balance":
		s.asked = append(s.asked, q)
		m := map[string]uint64{}
		for i, h := range q {
			m[h] = uint64(i) + 1
		}
		json.NewEncoder(w).Encode(map[string]any{"balances": m})
	case "/wallet/utxos":
		s.asked = append(s.asked, q)
		type utxo struct {
			TxId  string `json:"txId"`
			Ind   uint64 `json:"ind"`
			Value uint64 `json:"value"`
			Pkh   string `json:"pkh"`
		}
		var l []any
		for _, h := range q {
			for i := 0; i < 2; i++ {
				l = append(l, map[string]any{"utxo": utxo{TxId: h, Ind: uint64(i), Value: 100000}, "pkh": h})
			}
		}
		json.NewEncoder(w).Encode(map[string]any{"utxos": l})
	case "/wallet/tx":
		var tx core.Tx
		if err := json.NewDecoder(r.Body).Decode(&tx); err != nil {
			w.WriteHeader(400)
			return
		}
		s.posted = append(s.posted, tx)
		fmt.Fprint(w, tx.Hash().String())
	default:
		w.WriteHeader(404)
	}
}

// prog is the wallet program on a user's machine.
type prog struct{ *kit.Wallet }

var hexes = regexp.MustCompile(`(?m)^[0-9a-f]{64}\b`)

var anyHex = regexp.MustCompile(`[0-9a-f]{64}`)

func fileOf(fs *mcrt.FS, dev bool) []byte {
	p := "/home/u/.config/basiccoin/wallet.json"
	if dev {
		p = "/home/u/.config/basiccoin/wallet-dev.json"
	}
	if f := fs.Get(p); f != nil {
		return f.Data
	}
	return nil
}

// keys lists the public key hashes in the wallet the program shows.
func (w *prog) keys(fs *mcrt.FS, dev []string) (l []string, err string) {
	old := w.N.FS
	w.N.FS = fs
	defer func() { w.N.FS = old }()
	mcrt.FreshProgram()
	r := w.Run("", append(dev, "balance")...)
	if r.Failed != "" {
		return nil, r.Failed
	}
	if strings.Contains(r.Out, "no publicKeyHashes in wallet") {
		return nil, ""
	}
	if !r.Success {
		return nil, strings.TrimSpace(r.Out)
	}
	l = hexes.FindAllString(r.Out, -1)
	sort.Strings(l)
	return
}

// spendable lists the public key hashes the wallet can sign for.
func (w *prog) spendable(fs *mcrt.FS, srv *standIn, dev []string) (l []string, err string) {
	old := w.N.FS
	w.N.FS = fs
	defer func() { w.N.FS = old }()
	srv.posted = nil
	mcrt.FreshProgram()
	r := w.Run("y\n", append(dev, "consolidate")...)
	if !r.Success || len(srv.posted) != 1 {
		return nil, fmt.Sprintf("%s %d transactions sent, output %.300q", r.Failed, len(srv.posted), r.Out)
	}
	tx := srv.posted[0]
	seen := map[string]bool{}
	for _, in := range tx.Inputs {
		h := in.Utxo.TxId.String() // the stand-in names outputs after their owners
		if kit.DH(in.PublicKey).String() != h || !kit.SigOK(in.PublicKey, core.TxHashPreSig(tx.MinBlock, tx.Outputs), in.Signature) {
			return nil, fmt.Sprintf("the input of owner %s is not signed with its key", h)
		}
		if !seen[h] {
			seen[h] = true
			l = append(l, h)
		}
	}
	sort.Strings(l)
	return
}

func union(a []string, b ...string) []string {
	m := map[string]bool{}
	for _, s := range append(append([]string(nil), a...), b...) {
		m[s] = true
	}
	l := []string{}
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

func same(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }
func within(a, b []string) bool {
	return len(union(a, b...)) == len(union(b))
}

// wop is one wallet command.
type wop struct {
	name string
	args []string
	adds []string // keys it imports
	gen  string   // generates a key with this prefix ("-": any)
	bad  bool     // must not succeed
	any  bool     // may or may not succeed
}

func (o wop) dev() []string {
	if o.args[0] == "dev" {
		return []string{"dev"}
	}
	return nil
}

func c28Ops(w *prog, fs *mcrt.FS, all bool) (ops []wop) {
	file := func(name string, b []byte) string {
		p := "/home/u/src/" + name
		fs.PutFile(p, b)
		return p
	}
	hs := func(is ...int) (l []string) {
		for _, i := range is {
			l = append(l, kit.Pkh(i).String())
		}
		return
	}
	k10, k11, k12, k13, k15 := kit.KeyOf(10), kit.KeyOf(11), kit.KeyOf(12), kit.KeyOf(13), kit.KeyOf(15)
	wrong := kit.FileKey{kit.KeyOf(14).Pkh, k13.Priv}
	two := kit.WalletFile(false, "http://10.0.0.3:8080", k10, k11)
	imp := func(n string, b []byte, adds ...int) {
		ops = append(ops, wop{name: "import " + n, args: []string{"import", file(n, b)}, adds: hs(adds...), bad: adds == nil})
	}
	ops = append(ops, wop{name: "generate", args: []string{"generate"}, gen: "-"})
	ops = append(ops, wop{name: "generate with prefix", args: []string{"generate", "3"}, gen: "3"})
	imp("one", kit.WalletFile(false, "http://10.0.0.3:8080", k10), 10)
	imp("two", two, 10, 11)
	imp("wrong-last", kit.WalletFile(false, "http://10.0.0.3:8080", k12, wrong))
	imp("truncated", two[:len(two)-40])
	ops = append(ops, wop{name: "connect", args: []string{"connect", "http://10.0.0.3:8080/"}})
	ops = append(ops, wop{name: "dev generate", args: []string{"dev", "generate"}, gen: "-"})
	ops = append(ops, wop{name: "dev import other", args: []string{"dev", "import", file("other", kit.WalletFile(false, "http://10.0.0.3:8080", k12))}, adds: hs(12)})
	if !all {
		return
	}
	imp("dup", kit.WalletFile(false, "http://10.0.0.3:8080", k15, k15, k10), 15, 10)
	imp("dev", kit.WalletFile(true, "http://10.0.0.3:8080", k11, k15), 11, 15)
	imp("wrong-first", kit.WalletFile(false, "http://10.0.0.3:8080", wrong, k12))
	imp("wrong-of-known", kit.WalletFile(false, "http://10.0.0.3:8080", kit.FileKey{k10.Pkh, k11.Priv}))
	imp("wrong-type", []byte(`{"dev":false,"nodeAddr":"","keys":["x"]}`))
	imp("null-key", []byte(`{"dev":false,"nodeAddr":"","keys":[null]}`))
	imp("no-priv", []byte(`{"dev":false,"nodeAddr":"","keys":[{"publicKeyHash":"`+k10.Pkh+`"}]}`))
	imp("empty-file", nil)
	imp("text", []byte("hello"))
	ops = append(ops, wop{name: "import nothing new", args: []string{"import", file("none", kit.WalletFile(false, "http://10.0.0.3:8080"))}, adds: []string{}})
	ops = append(ops, wop{name: "import missing", args: []string{"import", "/home/u/src/missing"}, bad: true})
	ops = append(ops, wop{name: "import directory", args: []string{"import", "/home/u/src"}, bad: true})
	ops = append(ops, wop{name: "import own", args: []string{"import", "/home/u/.config/basiccoin/wallet.json"}, adds: []string{}})
	ops = append(ops, wop{name: "import without argument", args: []string{"import"}, bad: true})
	ops = append(ops, wop{name: "connect nowhere", args: []string{"connect", "http://10.0.0.4:8080/"}, bad: true})
	ops = append(ops, wop{name: "connect other version", args: []string{"connect", "http://10.0.0.3:8081/"}, bad: true})
	ops = append(ops, wop{name: "version", args: []string{"version"}})
	ops = append(ops, wop{name: "get-config-path", args: []string{"get-config-path"}})
	ops = append(ops, wop{name: "unknown command", args: []string{"generat"}, bad: true})
	ops = append(ops, wop{name: "generate help", args: []string{"generate", "help"}, bad: true})
	ops = append(ops, wop{name: "import help", args: []string{"import", "help"}, bad: true})
	ops = append(ops, wop{name: "balance", args: []string{"balance"}, any: true})
	ops = append(ops, wop{name: "dev version", args: []string{"dev", "version"}})
	return
}

func c28(tier string) []mcx.Scenario {
	deep := tier == "thorough"
	body := func(all bool, depth int) func(x *mcx.X) {
		return func(x *mcx.X) {
			x.S.MinSleep = 48 * ms
			srv := x.S.NewNode("server", "10.0.0.3")
			st := &standIn{version: "v0.0.0"}
			sd := &standIn{version: "v0.0.0-dev"}
			srv.HTTPPorts = map[int]any{8080: http.Handler(st), 8081: http.Handler(sd)}
			home := x.S.NewNode("coin1", "coin1.levilutz.com")
			home.HTTPPorts = map[int]any{80: http.Handler(st)}
			w := &prog{kit.NewWallet(x, "user", "10.0.0.2")}
			w.N.HTTPPorts = map[int]any{8080: http.Handler(sd)}
			ops := c28Ops(w, w.N.FS, all)
			have := map[bool][]string{false: {}, true: {}}
			var done []string
			bad := func(key, f string, a ...any) {
				x.Fail(key, "after %s: %s", strings.Join(done, ", "), fmt.Sprintf(f, a...))
			}
			// check judges the keys found in the files; lo must be there, hi may be.
			check := func(fs *mcrt.FS, lo, hi map[bool][]string, what string) bool {
				for _, dev := range []bool{false, true} {
					var d []string
					s := st
					if dev {
						d, s = []string{"dev"}, sd
					}
					got, err := w.keys(fs.Clone(), d)
					if err != "" {
						bad("readable", "%s: the wallet (dev %v) cannot be used any more: %s", what, dev, err)
						return false
					}
					if !within(lo[dev], got) {
						bad("lost", "%s: the wallet (dev %v) has keys %v although %v were saved", what, dev, got, lo[dev])
						return false
					}
					if !within(got, hi[dev]) {
						bad("extra", "%s: the wallet (dev %v) has keys %v although only %v were added", what, dev, got, hi[dev])
						return false
					}
					if len(got) > 0 {
						can, err := w.spendable(fs.Clone(), s, d)
						if err != "" || !same(can, got) {
							bad("unusable", "%s: the wallet (dev %v) shows keys %v but can sign for %v: %s", what, dev, got, can, err)
							return false
						}
					}
				}
				return true
			}
			for i := 0; ; i++ {
				// The last command is examined with every crash and every full disk; the others just run.
				k := x.Pick(len(ops))
				last := i == depth-1 || x.Pick(2) == 1
				o := ops[k]
				done = append(done, o.name)
				dev := len(o.dev()) > 0
				before := map[bool][]string{false: have[false], true: have[true]}
				pre := w.N.FS.Clone()
				w.N.FS.Ops, w.N.FS.Log = nil, true
				mcrt.FreshProgram()
				r := w.Run("", o.args...)
				w.N.FS.Log = false
				log := w.N.FS.Ops
				w.N.FS.Ops = nil
				if r.Success == o.bad && !o.any {
					bad("result", "it reports success: %v (%s %.300q)", r.Success, r.Failed, r.Out)
					return
				}
				after := map[bool][]string{false: have[false], true: have[true]}
				added := func(out string) []string {
					if o.gen == "" {
						return o.adds
					}
					return hexes.FindAllString(out, -1)
				}
				if r.Success {
					add := added(r.Out)
					if o.gen != "" {
						if len(add) != 1 || within(add, have[dev]) {
							bad("generate", "generated %v", add)
							return
						}
						if o.gen != "-" && !strings.HasPrefix(add[0], o.gen) {
							bad("generate", "generated %v for the prefix %s", add, o.gen)
							return
						}
					}
					after[dev] = union(have[dev], add...)
				}
				if r.Success && o.gen == "" && within(o.adds, have[dev]) {
					// Nothing new: the wallet lists the same keys as often as before.
					count := func(f *mcrt.FS) string {
						l := anyHex.FindAllString(string(fileOf(f, dev)), -1)
						sort.Strings(l)
						return strings.Join(l, ",")
					}
					if have[dev] != nil && len(have[dev]) > 0 && count(pre) != count(w.N.FS) {
						bad("idempotent", "a command adding no key changes the keys listed in the wallet file")
						return
					}
				}
				have = after
				x.State(mcx.Hash(fmt.Sprint(have, w.N.FS.Get("/home/u/.config/basiccoin/wallet.json") != nil)), i == 0)
				if !last {
					continue
				}
				if !check(w.N.FS, after, after, "everything done") {
					return
				}
				// A crash after every prefix of the file operations, with the next write torn.
				for n := 0; n <= len(log); n++ {
					torn := []int{-1}
					if n < len(log) && log[n].Kind == "write" {
						l := len(log[n].Data)
						torn = append(torn, 0, 1, l/2, l-1)
						if deep || i == 0 {
							torn = torn[:1]
							for t := 0; t < l; t += 1 + l/64 {
								torn = append(torn, t)
							}
							torn = append(torn, l-1)
						}
					}
					for _, t := range torn {
						fs := pre.Clone()
						for _, op := range log[:n] {
							fs.Apply(op, -1)
						}
						if t >= 0 {
							fs.Apply(log[n], t)
						}
						x.Count("crashes", 1)
						if !check(fs, before, after, fmt.Sprintf("stopped before file operation %d of %d (torn %d)", n, len(log), t)) {
							return
						}
						// The next commands work and lose nothing either.
						old := w.N.FS
						w.N.FS = fs
						mcrt.FreshProgram()
						got, _ := w.keys(fs.Clone(), o.dev())
						mcrt.FreshProgram()
						g := w.Run("", append(o.dev(), "generate")...)
						w.N.FS = old
						if !g.Success {
							bad("stuck", "stopped before file operation %d of %d (torn %d): no key can be generated any more: %s %q", n, len(log), t, g.Failed, g.Out)
							return
						}
						lo := map[bool][]string{dev: union(got, hexes.FindAllString(g.Out, -1)...), !dev: before[!dev]}
						if !check(fs, lo, lo, fmt.Sprintf("stopped before file operation %d of %d (torn %d), then generate", n, len(log), t)) {
							return
						}
					}
				}
				// The disk fills up at every point.
				for n := 1; n <= 2*len(log)+1; n++ {
					w.N.FS = pre.Clone()
					w.N.FS.FailFrom = n
					mcrt.FreshProgram()
					r := w.Run("", o.args...)
					fs := w.N.FS.Clone()
					fs.FailFrom = 0
					full := w.N.FS.Grown >= n
					lo := before
					hi := map[bool][]string{dev: union(before[dev], added(r.Out)...), !dev: before[!dev]}
					if r.Success {
						lo = hi
					}
					x.Count("full_disks", 1)
					if !check(fs, lo, hi, fmt.Sprintf("the disk being full from growing operation %d on", n)) {
						return
					}
					if !full {
						break
					}
				}
				// Looking at a file fails once, at every point.
				for n := 1; ; n++ {
					w.N.FS = pre.Clone()
					w.N.FS.FailReadAt = n
					mcrt.FreshProgram()
					r := w.Run("", o.args...)
					hit := w.N.FS.Looked >= n
					fs := w.N.FS.Clone()
					lo := before
					hi := map[bool][]string{dev: union(before[dev], added(r.Out)...), !dev: before[!dev]}
					if r.Success {
						lo = hi
					}
					x.Count("failed_reads", 1)
					if !check(fs, lo, hi, fmt.Sprintf("looking operation %d having failed", n)) {
						return
					}
					if !hit {
						break
					}
				}
				return
			}
		}
	}
	many := func(x *mcx.X) {
		x.S.MinSleep = 48 * ms
		srv := x.S.NewNode("server", "10.0.0.3")
		st := &standIn{version: "v0.0.0"}
		srv.HTTPPorts = map[int]any{8080: http.Handler(st)}
		home := x.S.NewNode("coin1", "coin1.levilutz.com")
		home.HTTPPorts = map[int]any{80: http.Handler(st)}
		w := &prog{kit.NewWallet(x, "user", "10.0.0.2")}
		n := []int{15, 16, 17, 31, 33, 64, 65, 70, 100, 130, 257}[x.Pick(11)]
		from := func(name string, lo, hi int) string {
			var ks []kit.FileKey
			for i := lo; i < hi; i++ {
				ks = append(ks, kit.KeyOf(200+i))
			}
			p := "/home/u/src/" + name
			w.N.FS.PutFile(p, kit.WalletFile(false, "http://10.0.0.3:8080", ks...))
			return p
		}
		var cmds [][]string
		switch x.Pick(3) {
		case 0: // all at once, then a few more
			cmds = [][]string{{"import", from("all", 0, n)}, {"generate"}, {"import", from("more", n-1, n+2)}, {"import", from("again", 0, n)}}
		case 1: // in parts that overlap
			for i := 0; i < n; i += 9 {
				cmds = append(cmds, []string{"import", from(fmt.Sprint("part", i), i, i+10)})
			}
		case 2: // the same file twice, and a generated one before
			cmds = [][]string{{"generate"}, {"import", from("all", 0, n)}, {"import", from("all2", 0, n)}, {"connect", "http://10.0.0.3:8080/"}}
		}
		have := []string{}
		var done []string
		for _, c := range cmds {
			done = append(done, strings.Join(c, " "))
			bad := func(key, f string, a ...any) {
				x.Fail(key, "%d keys, after %s: %s", n, strings.Join(done, ", "), fmt.Sprintf(f, a...))
			}
			mcrt.FreshProgram()
			r := w.Run("", c...)
			if !r.Success {
				bad("result", "it fails: %s %.300q", r.Failed, r.Out)
				return
			}
			switch c[0] {
			case "generate":
				have = union(have, hexes.FindAllString(r.Out, -1)...)
			case "import":
				var names []string
				for _, h := range anyHex.FindAllString(string(w.N.FS.Get(c[1]).Data), -1) {
					names = append(names, h)
				}
				have = union(have, names...)
			}
			got, err := w.keys(w.N.FS.Clone(), nil)
			if err != "" || !same(got, have) {
				bad("lost", "the wallet has %d keys instead of %d (%s)", len(got), len(have), err)
				return
			}
			if len(have) <= 36 { // (all of their outputs fit into one transaction)
				can, err := w.spendable(w.N.FS.Clone(), st, nil)
				if err != "" || !same(can, have) {
					bad("unusable", "the wallet can sign for %d of %d keys: %s", len(can), len(have), err)
					return
				}
			}
			x.Count("commands with many keys", 1)
		}
		x.State(mcx.Hash(fmt.Sprint(n, cmds)), false)
	}
	d, d2 := 2, 4
	if deep {
		d, d2 = 3, 5
	}
	return []mcx.Scenario{
		{Name: "commands", MaxSteps: 4_000_000, Body: body(true, d)},
		{Name: "histories", MaxSteps: 4_000_000, Body: body(false, d2)},
		{Name: "many-keys", MaxSteps: 40_000_000, Body: many},
	}
}

func init() {
	mcx.Register(&mcx.Check{ID: "C28", Scenarios: c28, Rule: "every sequence of wallet commands up to the stated length, with a stop at every file operation (torn writes included) and a full disk at every operation of the last one",
		Assumptions: []string{"one wallet process at a time", "a stop keeps the file operations made so far, in order; only the write in progress is torn", "generated keys come from a fixed sequence"}})
}
