package mcrt

import (
	"path"
	"sort"
	"strings"
)

// FSOp is one primitive file system effect (atomic with respect to a process crash, except
// that a write may be torn).
type FSOp struct {
	Kind string // "create", "write", "rename", "remove", "mkdir", "trunc"
	Path string
	To   string
	Off  int
	Data []byte
	N    int
	Mark int // harness marker value when the op happened
}

type File struct {
	Data []byte
	Mode uint32
	Dir  bool
}

// FS is the file system of a node. It outlives the node's process.
type FS struct {
	Files      map[string]*File
	Ops        []FSOp
	Log        bool
	Mark       int
	Seq        int
	FailWrites bool
	FailFrom   int // the growing operation (counted by Grown) from which on the disk is full, 0 for never
	Grown      int
	MaxRead    int
	FailReadAt int // the looking operation (counted by Looked) that fails, 0 for none
	Looked     int
}

func NewFS() *FS {
	return &FS{Files: map[string]*File{"/": {Dir: true}, "/tmp": {Dir: true}, "/home": {Dir: true}, "/home/u": {Dir: true}}}
}

func (f *FS) Clone() *FS {
	o := &FS{Files: map[string]*File{}, Seq: f.Seq}
	for k, v := range f.Files {
		c := *v
		c.Data = append([]byte(nil), v.Data...)
		o.Files[k] = &c
	}
	return o
}

// Full counts an operation that needs space and reports whether there is none.
func (f *FS) Full() bool {
	f.Grown++
	return f.FailWrites || (f.FailFrom > 0 && f.Grown >= f.FailFrom)
}

// Unreadable counts an operation that looks at a file and reports whether the device fails it.
func (f *FS) Unreadable() bool {
	f.Looked++
	return f.Looked == f.FailReadAt
}

func Clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/home/u/" + p
	}
	return path.Clean(p)
}

// Apply replays an op (torn >= 0: only that many bytes of a write take effect).
func (f *FS) Apply(op FSOp, torn int) {
	switch op.Kind {
	case "create":
		f.Files[op.Path] = &File{}
	case "trunc":
		if x := f.Files[op.Path]; x != nil {
			if op.N < len(x.Data) {
				x.Data = x.Data[:op.N]
			}
			for len(x.Data) < op.N {
				x.Data = append(x.Data, 0)
			}
		}
	case "write":
		x := f.Files[op.Path]
		if x == nil {
			return
		}
		d := op.Data
		if torn >= 0 && torn < len(d) {
			d = d[:torn]
		}
		for len(x.Data) < op.Off {
			x.Data = append(x.Data, 0)
		}
		x.Data = append(x.Data[:op.Off:op.Off], append(append([]byte(nil), d...), tail(x.Data, op.Off+len(d))...)...)
	case "rename":
		if x := f.Files[op.Path]; x != nil {
			delete(f.Files, op.Path)
			f.Files[op.To] = x
			if x.Dir {
				for k, v := range f.Files {
					if strings.HasPrefix(k, op.Path+"/") {
						delete(f.Files, k)
						f.Files[op.To+k[len(op.Path):]] = v
					}
				}
			}
		}
	case "remove":
		delete(f.Files, op.Path)
	case "mkdir":
		f.Files[op.Path] = &File{Dir: true}
	}
}

func tail(b []byte, i int) []byte {
	if i >= len(b) {
		return nil
	}
	return b[i:]
}

// Do performs and logs an op.
func (f *FS) Do(op FSOp) {
	op.Mark = f.Mark
	f.Apply(op, -1)
	if f.Log {
		f.Ops = append(f.Ops, op)
	}
}

// IsDir, Get: direct access.
func (f *FS) Get(p string) *File { return f.Files[Clean(p)] }

// List returns the sorted names directly under dir.
func (f *FS) List(dir string) []string {
	dir = Clean(dir)
	pre := dir
	if pre != "/" {
		pre += "/"
	}
	var out []string
	for k := range f.Files {
		if k != dir && strings.HasPrefix(k, pre) && !strings.Contains(k[len(pre):], "/") {
			out = append(out, k[len(pre):])
		}
	}
	sort.Strings(out)
	return out
}

// Paths returns all file paths, sorted.
func (f *FS) Paths() []string {
	var out []string
	for k := range f.Files {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Equal compares two file systems.
func (f *FS) Equal(o *FS) bool {
	if len(f.Files) != len(o.Files) {
		return false
	}
	for k, v := range f.Files {
		w := o.Files[k]
		if w == nil || w.Dir != v.Dir || string(w.Data) != string(v.Data) {
			return false
		}
	}
	return true
}

// PutFile writes a file directly (harness).
func (f *FS) PutFile(p string, data []byte) {
	p = Clean(p)
	for d := path.Dir(p); d != "/"; d = path.Dir(d) {
		if f.Files[d] == nil {
			f.Files[d] = &File{Dir: true}
		}
	}
	f.Files[p] = &File{Data: append([]byte(nil), data...)}
}
