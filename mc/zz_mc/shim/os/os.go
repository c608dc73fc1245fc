package os

import (
	"errors"
	"io"
	"io/fs"
	ro "os"
	"path"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

type FileMode = fs.FileMode
type FileInfo = fs.FileInfo
type DirEntry = fs.DirEntry
type PathError = fs.PathError
type Signal = ro.Signal

const (
	O_RDONLY = ro.O_RDONLY
	O_WRONLY = ro.O_WRONLY
	O_RDWR   = ro.O_RDWR
	O_APPEND = ro.O_APPEND
	O_CREATE = ro.O_CREATE
	O_EXCL   = ro.O_EXCL
	O_SYNC   = ro.O_SYNC
	O_TRUNC  = ro.O_TRUNC

	ModePerm      = fs.ModePerm
	ModeDir       = fs.ModeDir
	PathSeparator = ro.PathSeparator
	DevNull       = ro.DevNull
	SEEK_SET      = 0
	SEEK_CUR      = 1
	SEEK_END      = 2
)

var (
	ErrNotExist         = ro.ErrNotExist
	ErrExist            = ro.ErrExist
	ErrInvalid          = ro.ErrInvalid
	ErrPermission       = ro.ErrPermission
	ErrClosed           = ro.ErrClosed
	ErrDeadlineExceeded = ro.ErrDeadlineExceeded
	Interrupt           = ro.Interrupt
	Kill                = ro.Kill
)

func IsNotExist(e error) bool   { return ro.IsNotExist(e) }
func IsExist(e error) bool      { return ro.IsExist(e) }
func IsPermission(e error) bool { return ro.IsPermission(e) }
func IsTimeout(e error) bool    { return ro.IsTimeout(e) }

// Args is the real argument vector outside executions and the node's inside (set by the harness).
var Args = append([]string(nil), ro.Args...)

func Exit(code int) { mcrt.Exit(code) }
func Getpid() int   { return 4242 }
func Getuid() int   { return 1000 }
func Getenv(k string) string {
	if k == "HOME" {
		return "/home/u"
	}
	return ""
}
func LookupEnv(k string) (string, bool) { v := Getenv(k); return v, v != "" }
func UserHomeDir() (string, error)      { return "/home/u", nil }
func TempDir() string                   { return "/tmp" }
func Hostname() (string, error)         { return mcrt.CurNode().Name, nil }
func Getwd() (string, error)            { return "/home/u", nil }

func vfs() *mcrt.FS { return mcrt.CurNode().FS }

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

var errNoSpace = errors.New("no space left on device")
var errIO = errors.New("input/output error")
var errIsDir = errors.New("is a directory")
var errNotDir = errors.New("not a directory")
var errNotEmpty = errors.New("directory not empty")

func parentOK(f *mcrt.FS, p string) error {
	d := f.Files[path.Dir(p)]
	if d == nil {
		return ErrNotExist
	}
	if !d.Dir {
		return errNotDir
	}
	return nil
}

// A File is a handle on a simulated file.
type File struct {
	name   string
	p      string
	f      *mcrt.File
	off    int
	rd, wr bool
	app    bool
	std    int // 1 stdin, 2 stdout/stderr
	closed bool
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 2}
)

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	mcrt.Point()
	p := mcrt.Clean(name)
	f := vfs()
	x := f.Files[p]
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	h := &File{name: name, p: p, rd: acc != O_WRONLY, wr: acc != O_RDONLY, app: flag&O_APPEND != 0}
	if x == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, ErrNotExist)
		}
		if f.Full() {
			return nil, perr("open", name, errNoSpace)
		}
		if e := parentOK(f, p); e != nil {
			return nil, perr("open", name, e)
		}
		f.Do(mcrt.FSOp{Kind: "create", Path: p})
		x = f.Files[p]
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, ErrExist)
		}
		if x.Dir && h.wr {
			return nil, perr("open", name, errIsDir)
		}
		if h.rd && f.Unreadable() {
			return nil, perr("open", name, errIO)
		}
		if flag&O_TRUNC != 0 && h.wr && len(x.Data) > 0 {
			f.Do(mcrt.FSOp{Kind: "trunc", Path: p, N: 0})
		}
	}
	h.f = x
	return h, nil
}

func (h *File) Name() string { return h.name }
func (h *File) Fd() uintptr  { return 99 }

func (h *File) Read(b []byte) (int, error) {
	if h.std == 1 {
		mcrt.Point()
		n := mcrt.CurNode()
		if len(n.Stdin) == 0 {
			return 0, io.EOF
		}
		k := copy(b, n.Stdin)
		n.Stdin = n.Stdin[k:]
		return k, nil
	}
	if h.closed {
		return 0, perr("read", h.name, ErrClosed)
	}
	if h.f == nil || !h.rd {
		return 0, perr("read", h.name, errors.New("bad file descriptor"))
	}
	mcrt.Point()
	if h.f.Dir {
		return 0, perr("read", h.name, errIsDir)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(h.f.Data) {
		return 0, io.EOF
	}
	if vfs().Unreadable() {
		return 0, perr("read", h.name, errIO)
	}
	n := copy(b, h.f.Data[h.off:])
	h.off += n
	return n, nil
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	mcrt.Point()
	if int(off) >= len(h.f.Data) {
		return 0, io.EOF
	}
	n := copy(b, h.f.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (h *File) write(b []byte, off int) error {
	if h.closed {
		return perr("write", h.name, ErrClosed)
	}
	if h.f == nil || !h.wr {
		return perr("write", h.name, errors.New("bad file descriptor"))
	}
	f := vfs()
	full := f.Full()
	if full {
		b = b[:len(b)/2]
	}
	// The handle may refer to a file that was renamed or removed meanwhile.
	if f.Files[h.p] != h.f {
		for k, v := range f.Files {
			if v == h.f {
				h.p = k
			}
		}
		if f.Files[h.p] != h.f {
			return nil // unlinked
		}
	}
	f.Do(mcrt.FSOp{Kind: "write", Path: h.p, Off: off, Data: append([]byte(nil), b...)})
	if full {
		return perr("write", h.name, errNoSpace)
	}
	return nil
}

func (h *File) Write(b []byte) (int, error) {
	if h.std == 2 {
		mcrt.Print(string(b))
		return len(b), nil
	}
	mcrt.Point()
	if h.app && h.f != nil {
		h.off = len(h.f.Data)
	}
	if len(b) > 1 && h.f != nil {
		// a concurrent reader may see the data arrive in pieces
		k := len(b) / 2
		if mcrt.SplitWrites() {
			if err := h.write(b[:k], h.off); err != nil {
				return 0, err
			}
			mcrt.Point()
			if err := h.write(b[k:], h.off+k); err != nil {
				return k, err
			}
			h.off += len(b)
			return len(b), nil
		}
	}
	if err := h.write(b, h.off); err != nil {
		return 0, err
	}
	h.off += len(b)
	return len(b), nil
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *File) WriteAt(b []byte, off int64) (int, error) {
	mcrt.Point()
	if err := h.write(b, int(off)); err != nil {
		return 0, err
	}
	return len(b), nil
}
func (h *File) Seek(o int64, w int) (int64, error) {
	switch w {
	case 0:
		h.off = int(o)
	case 1:
		h.off += int(o)
	case 2:
		h.off = len(h.f.Data) + int(o)
	}
	return int64(h.off), nil
}
func (h *File) Truncate(n int64) error {
	mcrt.Point()
	vfs().Do(mcrt.FSOp{Kind: "trunc", Path: h.p, N: int(n)})
	return nil
}
func (h *File) Sync() error { mcrt.Point(); return nil }
func (h *File) Close() error {
	if h.closed {
		return perr("close", h.name, ErrClosed)
	}
	h.closed = true
	return nil
}
func (h *File) Chmod(FileMode) error { return nil }
func (h *File) Stat() (FileInfo, error) {
	mcrt.Point()
	return info{path.Base(h.name), h.f, len(h.f.Data)}, nil
}
func (h *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(h.name) }
func (h *File) Readdirnames(n int) ([]string, error) {
	mcrt.Point()
	return vfs().List(h.p), nil
}

type info struct {
	n  string
	f  *mcrt.File
	sz int
}

func (i info) Name() string { return i.n }
func (i info) Size() int64  { return int64(i.sz) }
func (i info) Mode() FileMode {
	if i.f.Dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time      { return time.Unix(0, mcrt.Now()) }
func (i info) IsDir() bool             { return i.f.Dir }
func (i info) Sys() any                { return nil }
func (i info) Type() FileMode          { return i.Mode().Type() }
func (i info) Info() (FileInfo, error) { return i, nil }

func Stat(name string) (FileInfo, error) {
	mcrt.Point()
	p := mcrt.Clean(name)
	x := vfs().Files[p]
	if x == nil {
		return nil, perr("stat", name, ErrNotExist)
	}
	if vfs().Unreadable() {
		return nil, perr("stat", name, errIO)
	}
	return info{path.Base(p), x, len(x.Data)}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	mcrt.Point()
	if h.f.Dir {
		return nil, perr("read", name, errIsDir)
	}
	if vfs().Unreadable() {
		return nil, perr("read", name, errIO)
	}
	return append([]byte(nil), h.f.Data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	h, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Rename(a, b string) error {
	mcrt.Point()
	f := vfs()
	pa, pb := mcrt.Clean(a), mcrt.Clean(b)
	if f.Files[pa] == nil {
		return perr("rename", a, ErrNotExist)
	}
	if e := parentOK(f, pb); e != nil {
		return perr("rename", b, e)
	}
	if f.Full() {
		return perr("rename", a, errNoSpace)
	}
	if pa == pb {
		return nil
	}
	f.Do(mcrt.FSOp{Kind: "rename", Path: pa, To: pb})
	return nil
}

func Remove(name string) error {
	mcrt.Point()
	p := mcrt.Clean(name)
	f := vfs()
	x := f.Files[p]
	if x == nil {
		return perr("remove", name, ErrNotExist)
	}
	if x.Dir && len(f.List(p)) > 0 {
		return perr("remove", name, errNotEmpty)
	}
	f.Do(mcrt.FSOp{Kind: "remove", Path: p})
	return nil
}

func RemoveAll(name string) error {
	mcrt.Point()
	p := mcrt.Clean(name)
	f := vfs()
	var l []string
	for k := range f.Files {
		if k == p || strings.HasPrefix(k, p+"/") {
			l = append(l, k)
		}
	}
	for len(l) > 0 {
		m := 0
		for i := range l {
			if len(l[i]) > len(l[m]) || (len(l[i]) == len(l[m]) && l[i] > l[m]) {
				m = i
			}
		}
		f.Do(mcrt.FSOp{Kind: "remove", Path: l[m]})
		l = append(l[:m], l[m+1:]...)
	}
	return nil
}

func Mkdir(name string, perm FileMode) error {
	mcrt.Point()
	p := mcrt.Clean(name)
	f := vfs()
	if f.Files[p] != nil {
		return perr("mkdir", name, ErrExist)
	}
	if e := parentOK(f, p); e != nil {
		return perr("mkdir", name, e)
	}
	if f.Full() {
		return perr("mkdir", name, errNoSpace)
	}
	f.Do(mcrt.FSOp{Kind: "mkdir", Path: p})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	mcrt.Point()
	p := mcrt.Clean(name)
	f := vfs()
	if x := f.Files[p]; x != nil {
		if x.Dir {
			return nil
		}
		return perr("mkdir", name, errNotDir)
	}
	if d := path.Dir(p); d != p {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	if f.Full() {
		return perr("mkdir", name, errNoSpace)
	}
	f.Do(mcrt.FSOp{Kind: "mkdir", Path: p})
	return nil
}

func ReadDir(name string) ([]DirEntry, error) {
	mcrt.Point()
	p := mcrt.Clean(name)
	f := vfs()
	if x := f.Files[p]; x == nil {
		return nil, perr("open", name, ErrNotExist)
	} else if !x.Dir {
		return nil, perr("readdirent", name, errNotDir)
	}
	var out []DirEntry
	for _, n := range f.List(p) {
		x := f.Files[path.Join(p, n)]
		out = append(out, info{n, x, len(x.Data)})
	}
	return out, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	f := vfs()
	for {
		f.Seq++
		s := "000000" + itoa(f.Seq)
		name := pattern + s
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			name = pattern[:i] + s + pattern[i+1:]
		}
		h, err := OpenFile(path.Join(dir, name), O_RDWR|O_CREATE|O_EXCL, 0600)
		if err != nil && IsExist(err) {
			continue
		}
		return h, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	f := vfs()
	f.Seq++
	p := path.Join(dir, strings.ReplaceAll(pattern, "*", "")+itoa(f.Seq))
	return p, Mkdir(p, 0700)
}

func itoa(n int) string {
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

func Chmod(string, FileMode) error { mcrt.Point(); return nil }
func Truncate(name string, n int64) error {
	mcrt.Point()
	p := mcrt.Clean(name)
	if vfs().Files[p] == nil {
		return perr("truncate", name, ErrNotExist)
	}
	vfs().Do(mcrt.FSOp{Kind: "trunc", Path: p, N: int(n)})
	return nil
}
func Link(a, b string) error {
	d, err := ReadFile(a)
	if err != nil {
		return err
	}
	return WriteFile(b, d, 0644)
}
