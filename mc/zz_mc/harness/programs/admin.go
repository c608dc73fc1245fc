// Harnesses running the real node and wallet programs in simulated processes.
package programs

import (
	"flag"
	"fmt"
	"io"
	"net/textproto"
	"os"
	"strings"

	bcnode "github.com/levilutz/basiccoin/cmd/bcnode"
	"github.com/levilutz/basiccoin/zz_mc/kit"
	"github.com/levilutz/basiccoin/zz_mc/mcrt"
	"github.com/levilutz/basiccoin/zz_mc/mcx"
	vhttp "github.com/levilutz/basiccoin/zz_mc/shim/net_http"
)

const ms, sec = kit.Ms, kit.Sec

// startNode runs the node program with the given command line.
func startNode(x *mcx.X, name, ip string, args ...string) *mcrt.Node {
	n := x.S.NewNode(name, ip)
	runNode(x, n, args...)
	return n
}

func runNode(x *mcx.X, n *mcrt.Node, args ...string) {
	n.Args = append([]string{"bcnode"}, args...)
	os.Args = n.Args
	flag.CommandLine = flag.NewFlagSet("bcnode", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	x.S.GoNode(n, "main", func() { bcnode.RunMain() })
	mcrt.Sleep(600 * ms)
}

type header struct{ name, val string }

type access struct {
	name string
	hs   []header
	ok   bool // carries exactly the password
}

const longPw = "Correct-horse battery/staple:0123456789abcdefghijklmnopqrstuvwxyz=ABCDEFGHIJKLMNOPQRSTUVWXYZ?"

// accesses lists ways of presenting (or not presenting) the password pw.
func accesses(pw string) (out []access) {
	add := func(name string, ok bool, hs ...header) { out = append(out, access{name, hs, ok}) }
	add("no header", pw == "")
	if pw == "" {
		add("some password", true, header{"Pw", "x"})
		add("empty password", true, header{"Pw", ""})
		return
	}
	add("the password", true, header{"Pw", pw})
	add("lower case name", true, header{"pw", pw})
	add("upper case name", true, header{"PW", pw})
	add("the password twice", true, header{"Pw", pw}, header{"Pw", pw})
	add("empty password", false, header{"Pw", ""})
	for i := 1; i < len(pw); i++ {
		add(fmt.Sprintf("first %d bytes", i), false, header{"Pw", pw[:i]})
		add(fmt.Sprintf("all but the first %d bytes", i), false, header{"Pw", pw[i:]})
	}
	for i := 8; i < len(pw); i += 8 {
		add(fmt.Sprintf("another end from byte %d", i), false, header{"Pw", pw[:i] + strings.Repeat("z", len(pw)-i)})
	}
	for i := range pw {
		b := []byte(pw)
		b[i] ^= 1
		add(fmt.Sprintf("byte %d changed", i), false, header{"Pw", string(b)})
	}
	add("longer", false, header{"Pw", pw + "x"})
	add("longer in front", false, header{"Pw", "x" + pw})
	add("twice over", false, header{"Pw", pw + pw})
	add("with a comma", false, header{"Pw", pw + ",x"})
	if u := strings.ToUpper(pw); u != pw {
		add("upper case", false, header{"Pw", u})
	}
	if u := strings.ToLower(pw); u != pw {
		add("lower case", false, header{"Pw", u})
	}
	add("wrong twice", false, header{"Pw", pw + "1"}, header{"Pw", pw + "2"})
	for _, n := range []string{"Password", "Authorization", "X-Pw", "Admin-Pw", "Cookie"} {
		add("under "+n, false, header{n, pw})
		add("under "+n+" as pair", false, header{n, "Pw=" + pw})
	}
	for _, n := range []string{"X-Forwarded-For", "X-Real-Ip", "Forwarded", "Origin", "Referer", "User-Agent", "X-Http-Method-Override", "Upgrade", "Via"} {
		for _, v := range []string{"127.0.0.1", "localhost", "POST", pw} {
			add("no password but "+n+" "+v, false, header{n, v})
		}
	}
	add("star", false, header{"Pw", "*"})
	add("quoted", false, header{"Pw", `"` + pw + `"`})
	add("nil", false, header{"Pw", "<nil>"})
	return
}

// request sends one request as a remote client; the status is 0 when the connection was dropped, -1 when refused.
func request(n *mcrt.Node, port int, method, url string, hs []header, body string) (int, string) {
	if n.HTTPPorts[port] == nil {
		return -1, ""
	}
	h := map[string][]string{}
	for _, e := range hs {
		k := textproto.CanonicalMIMEHeaderKey(e.name)
		h[k] = append(h[k], e.val)
	}
	code, got, err := vhttp.CallHdr(n, port, method, url, h, []byte(body))
	if err != nil {
		return 0, err.Error()
	}
	return code, got
}

func c26(tier string) []mcx.Scenario {
	type conf struct {
		admin, wallet bool
		pw            string
		pwFirst       bool
	}
	var confs []conf
	for _, pw := range []string{"secret", "Aé 9~", "x", "", "true", "Pw", longPw} {
		for i := 0; i < 4; i++ {
			confs = append(confs, conf{i&1 > 0, i&2 > 0, pw, len(pw)%2 == 0})
		}
	}
	methods := []string{"POST", "GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT", "post", "POSTX"}
	return []mcx.Scenario{{Name: "requests", Body: func(x *mcx.X) {
		c := confs[x.Pick(len(confs))]
		args := []string{"-dev", "-http", "8081"}
		if c.admin {
			args = append(args, "-http-admin")
		}
		if c.wallet {
			args = append(args, "-http-wallet")
		}
		if c.pw != "" {
			if c.pwFirst {
				args = append([]string{"-admin-pw", c.pw}, args...)
			} else {
				args = append(args, "-admin-pw="+c.pw)
			}
		}
		desc := strings.Join(args, " ")
		x.S.MinSleep = 48 * ms
		n := startNode(x, "n", "10.0.0.1", args...)
		if n.Crashed {
			x.Fail("start", "the node does not start with %s: %s", desc, n.CrashMsg)
			return
		}
		acs := accesses(c.pw)
		alive := func(what string) bool {
			mcrt.Sleep(100 * ms)
			if n.Crashed {
				x.Fail("effect", "%s: %s stopped the node (%s)", desc, what, n.CrashMsg)
				return false
			}
			return true
		}
		kind := x.Pick(3)
		switch kind {
		case 0: // everything that must have no effect
			for _, a := range acs {
				for _, m := range methods {
					for _, body := range []string{"", c.pw, "Pw=" + c.pw, `{"pw":"` + c.pw + `"}`} {
						if body != "" && a.name != "no header" {
							continue
						}
						if a.ok && m == "POST" {
							continue // has its effect
						}
						what := fmt.Sprintf("%s /admin/terminate with %s and body %q", m, a.name, body)
						code, _ := request(n, 8081, m, "/admin/terminate", a.hs, body)
						x.Count("requests", 1)
						want := 401
						switch {
						case !c.admin && !c.wallet:
							want = -1
						case !c.admin:
							want = 404
						case a.ok:
							want = 405
						}
						if code != want {
							x.Fail("status", "%s: %s is answered with %d instead of %d", desc, what, code, want)
						}
						if !alive(what) {
							return
						}
					}
				}
			}
			if c.pw != "" { // wherever the request comes from, and whatever name it uses for the server
				for _, from := range []string{"10.9.9.9", "127.0.0.1", "[::1]", "10.0.0.1", "192.168.0.1", "0.0.0.0"} {
					for _, host := range []string{"10.0.0.1:8081", "localhost", "localhost:8081", "127.0.0.1:8081", "", "admin", "example.com"} {
						for i, h := range []map[string][]string{{}, {"Pw": {""}}, {"Pw": {c.pw + "x"}}} {
							code, _, err := vhttp.CallFrom(n, 8081, "POST", "/admin/terminate", h, from, host)
							x.Count("requests", 1)
							want := 401
							if !c.admin {
								want = 404
							}
							if what := fmt.Sprintf("a POST %d without the password from %s to host %q", i, from, host); err == nil && code != want && (c.admin || c.wallet) {
								x.Fail("status", "%s: %s is answered with %d instead of %d", desc, what, code, want)
							} else if !alive(what) {
								return
							}
						}
					}
				}
			}
			for _, p := range []string{"/admin/terminate?Pw=" + strings.ReplaceAll(c.pw, " ", "+"), "/admin/terminate/", "/admin", "/admin/", "/Admin/terminate", "//admin/terminate",
				"/wallet/../admin/terminate", "/admin//terminate", "/admin/./terminate", "/admin%2fterminate", "/%61dmin/terminate", "/terminate", "/wallet/terminate"} {
				for _, m := range methods[:4] {
					code, _ := request(n, 8081, m, p, nil, "")
					x.Count("requests", 1)
					if code >= 200 && code < 300 && c.pw != "" {
						x.Fail("status", "%s: %s %s without password is answered with %d", desc, m, p, code)
					}
					if c.pw != "" || !c.admin || m != "POST" {
						if !alive(m + " " + p) {
							return
						}
					} else {
						mcrt.Sleep(100 * ms)
						if n.Crashed {
							return
						}
					}
				}
			}
		case 1: // wallet endpoints exist only when enabled, and need no password
			for _, p := range []string{"/wallet/head/height", "/wallet/richlist", "/wallet/balance", "/wallet/utxos", "/wallet/tx", "/wallet/tx/confirms", "/wallet/tx/block", "/wallet/merkle", "/wallet/block"} {
				for _, a := range []access{acs[0], acs[len(acs)-1]} {
					code, got := request(n, 8081, "GET", p, a.hs, "")
					x.Count("requests", 1)
					ok := code == 200 || code == 400
					if !c.wallet {
						ok = code == 404
						if !c.admin {
							ok = code == -1
						}
					}
					if !ok {
						x.Fail("wallet", "%s: GET %s is answered with %d %.60q", desc, p, code, got)
					}
				}
				if !c.wallet {
					code, got := request(n, 8081, "POST", p, nil, "{}")
					if code != 404 && code != -1 {
						x.Fail("wallet", "%s: POST %s is answered with %d %.60q", desc, p, code, got)
					}
				}
			}
			code, _ := request(n, 8081, "GET", "/version", nil, "")
			if (c.admin || c.wallet) && code != 200 {
				x.Fail("version", "%s: GET /version is answered with %d", desc, code)
			}
			for _, port := range []int{80, 8080} {
				if n.HTTPPorts[port] != nil {
					x.Fail("port", "%s: the node serves on port %d", desc, port)
				}
			}
			if !alive("asking the wallet endpoints") {
				return
			}
		case 2: // the right password terminates the node, also after refused attempts
			var good []access
			for _, a := range acs {
				if a.ok {
					good = append(good, a)
				}
			}
			a := good[x.Pick(len(good))]
			if x.Pick(2) == 1 {
				request(n, 8081, "POST", "/admin/terminate", []header{{"Pw", c.pw + "?"}}, "")
				request(n, 8081, "GET", "/admin/terminate", a.hs, "")
				if c.pw == "" && c.admin {
					return
				}
				if !alive("two refused requests") {
					return
				}
			}
			code, got := request(n, 8081, "POST", "/admin/terminate", a.hs, "")
			mcrt.Sleep(500 * ms)
			if c.admin {
				if !n.Crashed || !strings.Contains(n.CrashMsg, "terminated") {
					x.Fail("terminate", "%s: terminating with %s did not take effect (%d %.60q, %s)", desc, a.name, code, got, n.CrashMsg)
				}
				if code != 200 && code != 0 {
					x.Fail("status", "%s: terminating with %s is answered with %d", desc, a.name, code)
				}
			} else if n.Crashed {
				x.Fail("effect", "%s: a request stopped the node although administration is disabled", desc)
			}
			x.Count("requests", 1)
		}
		x.State(mcx.Hash(desc, kind), false)
		x.Sample("%s (%d)", desc, kind)
	}}, {Name: "simultaneous-requests", Bound: 2 + btoi(tier == "thorough"),
		Opt: func(s *mcrt.Sched) {
			s.Filter = func(t *mcrt.Thread) bool {
				return !strings.HasPrefix(t.Name(), "topic.") && !strings.HasPrefix(t.Name(), "time.")
			}
		},
		Body: func(x *mcx.X) {
			x.S.MinSleep = 48 * ms
			n := startNode(x, "n", "10.0.0.1", "-dev", "-http", "8081", "-http-admin", "-http-wallet", "-admin-pw", "secret")
			reqs := []struct {
				m, p string
				hs   []header
				want int
			}{{"POST", "/admin/terminate", []header{{"Pw", "wrong"}}, 401}, {"GET", "/admin/terminate", []header{{"Pw", "secret"}}, 405},
				{"POST", "/admin/terminate", nil, 401}, {"GET", "/wallet/head/height", []header{{"Pw", "secret"}}, 200}}
			codes := make([]int, len(reqs))
			x.S.Explore(true)
			for i, r := range reqs {
				i, r := i, r
				x.S.GoNode(n, "request", func() { codes[i], _ = request(n, 8081, r.m, r.p, r.hs, "") })
			}
			mcrt.Sleep(10 * ms)
			x.S.Explore(false)
			mcrt.Sleep(sec)
			if n.Crashed {
				x.Fail("effect", "simultaneous requests, none of them allowed to, stopped the node: %s", n.CrashMsg)
			}
			for i, r := range reqs {
				if codes[i] != r.want {
					x.Fail("status", "simultaneous %s %s with %v is answered with %d instead of %d", r.m, r.p, r.hs, codes[i], r.want)
				}
			}
			x.State(mcx.Hash(fmt.Sprint(codes)), false)
		}}}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	mcx.Register(&mcx.Check{ID: "C26", Scenarios: c26, Rule: "every combination of enabled endpoint groups, passwords, request methods, header forms and values",
		Assumptions: []string{"net/http's request parsing is trusted: header names arrive canonicalised; requests reach the real mux and handlers"}})
}
