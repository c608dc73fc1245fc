package net

import (
	"errors"
	"io"
	rn "net"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

type IP = rn.IP
type IPMask = rn.IPMask
type IPNet = rn.IPNet
type TCPAddr = rn.TCPAddr
type Addr = rn.Addr
type Error = rn.Error
type OpError = rn.OpError
type AddrError = rn.AddrError
type DNSError = rn.DNSError
type ParseError = rn.ParseError
type Conn interface {
	Read(b []byte) (n int, err error)
	Write(b []byte) (n int, err error)
	Close() error
	LocalAddr() Addr
	RemoteAddr() Addr
	SetDeadline(t time.Time) error
	SetReadDeadline(t time.Time) error
	SetWriteDeadline(t time.Time) error
}
type Listener interface {
	Accept() (Conn, error)
	Close() error
	Addr() Addr
}

var ErrClosed = rn.ErrClosed

func ParseIP(s string) IP                            { return rn.ParseIP(s) }
func IPv4(a, b, c, d byte) IP                        { return rn.IPv4(a, b, c, d) }
func SplitHostPort(s string) (string, string, error) { return rn.SplitHostPort(s) }
func JoinHostPort(h, p string) string                { return rn.JoinHostPort(h, p) }

func mkErr(op string, a Addr, e mcrt.NetErr) error {
	var err error
	switch e {
	case mcrt.NetOK:
		return nil
	case mcrt.NetEOF:
		return io.EOF
	case mcrt.NetClosed:
		err = rn.ErrClosed
	case mcrt.NetTimeout:
		err = os.ErrDeadlineExceeded
		if op == "dial" {
			err = syscall.ETIMEDOUT
		}
	case mcrt.NetRefused:
		err = os.NewSyscallError("connect", syscall.ECONNREFUSED)
	case mcrt.NetReset:
		err = os.NewSyscallError(op, syscall.ECONNRESET)
	case mcrt.NetInUse:
		err = os.NewSyscallError("bind", syscall.EADDRINUSE)
	}
	return &rn.OpError{Op: op, Net: "tcp", Addr: a, Err: err}
}

func dln(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return t.UnixNano()
}

// ResolveTCPAddr accepts IP literals, empty hosts and localhost; other names do not resolve.
func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	mcrt.Point()
	host, port, err := rn.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	pn, err := strconv.Atoi(port)
	if err != nil || pn < 0 || pn > 65535 {
		if err == nil || errors.Is(err, strconv.ErrRange) {
			return nil, &rn.AddrError{Err: "invalid port", Addr: port}
		}
		if port == "" {
			pn = 0
		} else {
			return nil, &rn.DNSError{Err: "unknown port", Name: network + "/" + port}
		}
	}
	if host == "" {
		return &TCPAddr{Port: pn}, nil
	}
	if host == "localhost" {
		return &TCPAddr{IP: rn.IPv4(127, 0, 0, 1), Port: pn}, nil
	}
	ip := rn.ParseIP(host)
	if ip == nil {
		return nil, &rn.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	return &TCPAddr{IP: ip, Port: pn}, nil
}

type TCPConn struct{ E *mcrt.End }

func tcpa(ip string, port int) *TCPAddr { return &TCPAddr{IP: rn.ParseIP(ip), Port: port} }

func (c *TCPConn) Read(b []byte) (int, error) {
	n, e := c.E.Read(b)
	return n, mkErr("read", c.RemoteAddr(), e)
}
func (c *TCPConn) Write(b []byte) (int, error) {
	n, e := c.E.Write(b)
	return n, mkErr("write", c.RemoteAddr(), e)
}
func (c *TCPConn) Close() error      { return mkErr("close", c.RemoteAddr(), c.E.Close()) }
func (c *TCPConn) CloseWrite() error { return mkErr("close", c.RemoteAddr(), c.E.CloseWrite()) }
func (c *TCPConn) CloseRead() error  { return nil }
func (c *TCPConn) LocalAddr() Addr   { return tcpa(c.E.LocalIP, c.E.LocalPort) }
func (c *TCPConn) RemoteAddr() Addr  { return tcpa(c.E.RemoteIP, c.E.RemotePort) }
func (c *TCPConn) chk(op string) error {
	if c.E.Closed() {
		return mkErr("set", c.RemoteAddr(), mcrt.NetClosed)
	}
	return nil
}
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.E.SetReadDeadline(dln(t))
	c.E.SetWriteDeadline(dln(t))
	return c.chk("set")
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	c.E.SetReadDeadline(dln(t))
	return c.chk("set")
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	c.E.SetWriteDeadline(dln(t))
	return c.chk("set")
}
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }

func ipStr(a *TCPAddr) string {
	if a == nil || a.IP == nil || a.IP.IsUnspecified() || a.IP.IsLoopback() {
		return ""
	}
	return a.IP.String()
}

func DialTCP(network string, l, r *TCPAddr) (*TCPConn, error) {
	if r == nil {
		return nil, &rn.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	e, er := mcrt.NetDial(ipStr(r), r.Port, 0)
	if er != mcrt.NetOK {
		return nil, mkErr("dial", r, er)
	}
	return &TCPConn{e}, nil
}

func Dial(network, address string) (Conn, error) { return DialTimeout(network, address, 0) }

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &rn.OpError{Op: "dial", Net: network, Err: err}
	}
	dl := int64(0)
	if d > 0 {
		dl = mcrt.Now() + int64(d)
	}
	e, er := mcrt.NetDial(ipStr(a), a.Port, dl)
	if er != mcrt.NetOK {
		return nil, mkErr("dial", a, er)
	}
	return &TCPConn{e}, nil
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}

type TCPListener struct {
	l *mcrt.Listener
}

func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	if a == nil {
		a = &TCPAddr{}
	}
	l, er := mcrt.NetListen(ipStr(a), a.Port)
	if er != mcrt.NetOK {
		return nil, mkErr("listen", a, er)
	}
	return &TCPListener{l}, nil
}

func Listen(network, address string) (Listener, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &rn.OpError{Op: "listen", Net: network, Err: err}
	}
	return ListenTCP(network, a)
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	e, er := l.l.Accept()
	if er != mcrt.NetOK {
		return nil, mkErr("accept", l.Addr(), er)
	}
	return &TCPConn{e}, nil
}
func (l *TCPListener) Accept() (Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *TCPListener) Close() error                  { return mkErr("close", l.Addr(), l.l.Close()) }
func (l *TCPListener) Addr() Addr                    { return tcpa(l.l.IP, l.l.Port) }
func (l *TCPListener) SetDeadline(t time.Time) error { l.l.SetDeadline(dln(t)); return nil }
