package http

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	rn "net"
	rh "net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

// Each simulated process has its own default mux.
func mux() *rh.ServeMux {
	n := mcrt.CurNode()
	if n.HTTP == nil {
		n.HTTP = rh.NewServeMux()
	}
	return n.HTTP.(*rh.ServeMux)
}

func HandleFunc(p string, h func(rh.ResponseWriter, *rh.Request)) { mux().HandleFunc(p, h) }
func Handle(p string, h rh.Handler)                               { mux().Handle(p, h) }

type defMux struct{}

func (defMux) HandleFunc(p string, h func(rh.ResponseWriter, *rh.Request)) { mux().HandleFunc(p, h) }
func (defMux) Handle(p string, h rh.Handler)                               { mux().Handle(p, h) }
func (defMux) ServeHTTP(w rh.ResponseWriter, r *rh.Request)                { mux().ServeHTTP(w, r) }

var DefaultServeMux = defMux{}

type Server struct {
	Addr                                                      string
	Handler                                                   rh.Handler
	ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration
	MaxHeaderBytes                                            int
	closed                                                    bool
	port                                                      int
}

func ListenAndServe(addr string, h rh.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

func (s *Server) ListenAndServe() error {
	mcrt.Point()
	n := mcrt.CurNode()
	_, port, err := rn.SplitHostPort(s.Addr)
	if err != nil {
		return err
	}
	pn, err := strconv.Atoi(port)
	if err != nil {
		return err
	}
	if n.HTTPPorts[pn] != nil {
		return errors.New("listen tcp " + s.Addr + ": bind: address already in use")
	}
	h := s.Handler
	if h == nil {
		h = mux()
	}
	n.HTTPPorts[pn] = h
	s.port = pn
	mcrt.Park(func() bool { return s.closed })
	return rh.ErrServerClosed
}
func (s *Server) Close() error {
	s.closed = true
	delete(mcrt.CurNode().HTTPPorts, s.port)
	return nil
}
func (s *Server) Shutdown(any) error { return s.Close() }

// RoundTrip is the in-process transport.
type transport struct{}

func (transport) RoundTrip(req *rh.Request) (*rh.Response, error) {
	mcrt.Point()
	me := mcrt.CurNode()
	host := req.URL.Hostname()
	pn := 80
	if p := req.URL.Port(); p != "" {
		pn, _ = strconv.Atoi(p)
	}
	if host == "localhost" || host == "127.0.0.1" {
		host = me.IP
	}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	var srv *mcrt.Node
	for _, n := range mcrt.S.Nodes {
		if n.IP == host && !n.Crashed && !n.Terminated && n.HTTPPorts[pn] != nil {
			srv = n
		}
	}
	if srv == nil {
		return nil, fmt.Errorf("dial tcp %s:%d: connect: connection refused", host, pn)
	}
	if mcrt.S.HTTPDown != nil && mcrt.S.HTTPDown(me, srv, req.Method, req.URL.String()) {
		return nil, io.ErrUnexpectedEOF
	}
	if f := mcrt.S.HTTPAnswer; f != nil {
		if code, text := f(me, srv, req.Method, req.URL.String()); code != 0 {
			rec := httptest.NewRecorder()
			rec.WriteHeader(code)
			rec.WriteString(text)
			resp := rec.Result()
			resp.Request = req
			return resp, nil
		}
	}
	resp, err := Do(srv, pn, req, body, me.IP)
	if f := mcrt.S.HTTPCut; err == nil && resp.StatusCode == 200 && f != nil && f(me, srv, req.Method, req.URL.String()) {
		all, _ := io.ReadAll(resp.Body)
		resp.Body = &cutBody{all[:len(all)/2]}
	}
	return resp, err
}

// cutBody is a body whose connection breaks.
type cutBody struct{ rest []byte }

func (c *cutBody) Read(b []byte) (int, error) {
	if len(c.rest) == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(b, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}
func (c *cutBody) Close() error { return nil }

// Do runs one request against a node's server, as a remote client would.
func Do(srv *mcrt.Node, pn int, req *rh.Request, body []byte, from string) (*rh.Response, error) {
	h, _ := srv.HTTPPorts[pn].(rh.Handler)
	if h == nil {
		return nil, errors.New("connection refused")
	}
	r2 := req.Clone(context.Background())
	r2.Body = io.NopCloser(bytes.NewReader(body))
	r2.ContentLength = int64(len(body))
	r2.RequestURI = req.URL.RequestURI()
	r2.Host = req.URL.Host
	if req.Host != "" {
		r2.Host = req.Host
	}
	u := *req.URL
	u.Scheme, u.Host = "", ""
	r2.URL = &u
	r2.RemoteAddr = from + ":50000"
	rec := httptest.NewRecorder()
	done, panicked := false, ""
	mcrt.S.GoNode(srv, "http-handler", func() {
		defer func() {
			// net/http recovers handler panics and drops the connection
			if r := recover(); r != nil {
				if mcrt.Ended() {
					panic(r)
				}
				panicked = fmt.Sprint(r)
				srv.Panics++
				mcrt.Print("http: panic serving: " + panicked + "\n")
				done = true
			}
		}()
		h.ServeHTTP(rec, r2)
		done = true
	})
	mcrt.Park(func() bool { return done || srv.Terminated })
	if !done || panicked != "" {
		return nil, io.ErrUnexpectedEOF
	}
	resp := rec.Result()
	resp.Request = req
	return resp, nil
}

func init() { rh.DefaultTransport = transport{} }

// Request helper for harnesses.
func Call(srv *mcrt.Node, pn int, method, url string, hdr map[string]string, body []byte) (int, string, error) {
	req, err := rh.NewRequest(method, "http://"+srv.IP+":"+strconv.Itoa(pn)+url, bytes.NewReader(body))
	if err != nil {
		return 0, "", err
	}
	for k, v := range hdr {
		req.Header[k] = append(req.Header[k], v)
	}
	return send(srv, pn, req, body)
}

// CallHdr is Call with repeatable headers.
func CallHdr(srv *mcrt.Node, pn int, method, url string, hdr map[string][]string, body []byte) (int, string, error) {
	req, err := rh.NewRequest(method, "http://"+srv.IP+":"+strconv.Itoa(pn)+url, bytes.NewReader(body))
	if err != nil {
		return 0, "", err
	}
	for k, v := range hdr {
		req.Header[k] = append(req.Header[k], v...)
	}
	return send(srv, pn, req, body)
}

// CallFrom does a request from an address, naming the server as host.
func CallFrom(srv *mcrt.Node, pn int, method, url string, hdr map[string][]string, from, host string) (int, string, error) {
	req, err := rh.NewRequest(method, "http://"+srv.IP+":"+strconv.Itoa(pn)+url, bytes.NewReader(nil))
	if err != nil {
		return 0, "", err
	}
	for k, v := range hdr {
		req.Header[k] = append(req.Header[k], v...)
	}
	req.Host = host
	resp, err := Do(srv, pn, req, nil, from)
	if err != nil {
		return 0, "", err
	}
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

func send(srv *mcrt.Node, pn int, req *rh.Request, body []byte) (int, string, error) {
	resp, err := Do(srv, pn, req, body, "10.9.9.9")
	if err != nil {
		return 0, "", err
	}
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

var _ = strings.TrimSpace
