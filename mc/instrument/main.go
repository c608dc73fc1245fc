// instrument copies the non-test sources of a Go module into a scratch module in which every
// source of nondeterminism (goroutines, channels, select, time, randomness, network, files, map
// order) goes through the model checking runtime zz_mc/mcrt.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	Module     *struct{ Path string }
}

// Packages in which every statement is a potential scheduling point and memory accesses are
// recorded for race detection.
var flagged = map[string]bool{
	"pkg/topic": true, "pkg/syncqueue": true, "pkg/queue": true, "pkg/syncmap": true,
	"pkg/disksyncmap": true, "pkg/set": true, "internal/inv": true, "internal/peerfactory": true,
	"internal/peer": true, "pkg/prot": true, "internal/chain": true, "internal/rest": true,
	"internal/miner": true, "internal/bus": true, "pkg/util": true,
}

// Packages whose search loops are scaled down: integer constants of a plain type in [2^16, 2^32] become
// scaledTo, so that a loop over that many rounds ends within an execution.
var scaled = map[string]bool{"internal/miner": true}

const scaledTo = "6"

var shims = map[string]bool{}

const rt = "zz_mcrt"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src, dst, mod := os.Args[1], os.Args[2], os.Args[3] // repo, scratch, module path
	ents, err := os.ReadDir(filepath.Join(dst, "zz_mc", "shim"))
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		shims[strings.ReplaceAll(e.Name(), "_", "/")] = true
	}
	cmd := exec.Command("go", "list", "-e", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Imports,Module", "./...")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*listPkg
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		if p.Standard {
			exports[p.ImportPath] = p.Export
		} else if p.Module != nil && p.Module.Path == mod {
			pkgs = append(pkgs, p)
		} else {
			die("unexpected dependency %s", p.ImportPath)
		}
	}
	fset := token.NewFileSet()
	imp := &impT{done: map[string]*types.Package{}}
	imp.std = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs { // dependencies come first
		if len(p.GoFiles) == 0 {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
		r := &rw{fset: fset, mod: mod, flagged: flagged[rel], scaled: scaled[rel], src: map[string][]byte{}}
		var files []*ast.File
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			b, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			r.src[fn] = b
			a, err := parser.ParseFile(fset, fn, b, parser.SkipObjectResolution|parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, a)
		}
		r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), GoVersion: ""}
		tp, err := conf.Check(p.ImportPath, fset, files, r.info)
		if err != nil {
			die("%v", err)
		}
		imp.done[p.ImportPath] = tp
		r.pkg = tp
		r.isMain = p.Name == "main"
		r.sizes = conf.Sizes
		outDir := filepath.Join(dst, rel)
		if err := os.MkdirAll(outDir, 0755); err != nil {
			die("%v", err)
		}
		newName := p.Name
		if r.isMain {
			newName = filepath.Base(p.Dir) + "_main"
		}
		for _, a := range files {
			fn := fset.Position(a.Pos()).Filename
			txt := r.file(a, fn, newName)
			if err := os.WriteFile(filepath.Join(outDir, filepath.Base(fn)), []byte(txt), 0644); err != nil {
				die("%v", err)
			}
		}
		// package level state is restored before each execution
		resets := ""
		for _, io := range r.info.InitOrder {
			var l []string
			blank := true
			for _, v := range io.Lhs {
				l = append(l, v.Name())
				if v.Name() != "_" {
					blank = false
				}
			}
			if blank {
				continue
			}
			fnm := fset.Position(io.Lhs[0].Pos()).Filename
			key := fmt.Sprintf("zz_rv%d", len(r.extra[fnm]))
			if r.extra == nil {
				r.extra = map[string][]string{}
			}
			key += "_" + strings.TrimSuffix(filepath.Base(fnm), ".go")
			r.extra[fnm] = append(r.extra[fnm], fmt.Sprintf("func %s() { %s = %s }\n", key, strings.Join(l, ", "), r.render(io.Rhs)))
			resets += "\t" + key + "()\n"
		}
		zero := ""
		for _, n := range tp.Scope().Names() {
			v, ok := tp.Scope().Lookup(n).(*types.Var)
			if !ok || n == "_" {
				continue
			}
			inited := false
			for _, io := range r.info.InitOrder {
				for _, l := range io.Lhs {
					if l == v {
						inited = true
					}
				}
			}
			if !inited {
				zero += fmt.Sprintf("\t%s.Zero(&%s)\n", rt, n)
			}
		}
		for _, k := range r.inits {
			resets += "\t" + k + "()\n"
		}
		for fnm, ex := range r.extra {
			f, err := os.OpenFile(filepath.Join(outDir, filepath.Base(fnm)), os.O_APPEND|os.O_WRONLY, 0644)
			if err != nil {
				die("%v", err)
			}
			for _, e := range ex {
				f.WriteString("\n" + e)
			}
			f.Close()
		}
		if resets+zero != "" {
			s := fmt.Sprintf("package %s\n\nimport %s %q\n\nfunc init() { %s.OnProgReset(zz_reset) }\n\nfunc zz_reset() {\n%s%s}\n", newName, rt, mod+"/zz_mc/mcrt", rt, zero, resets)
			if err := os.WriteFile(filepath.Join(outDir, "zz_reset.go"), []byte(s), 0644); err != nil {
				die("%v", err)
			}
		}
	}
}

type impT struct {
	std  types.Importer
	done map[string]*types.Package
}

func (i *impT) Import(path string) (*types.Package, error) {
	if p := i.done[path]; p != nil {
		return p, nil
	}
	return i.std.Import(path)
}

type edit struct {
	from, to token.Pos
	txt      string
	seq      int
}

type rw struct {
	fset    *token.FileSet
	mod     string
	flagged bool
	scaled  bool
	src     map[string][]byte
	info    *types.Info
	pkg     *types.Package
	sizes   types.Sizes
	isMain  bool
	inits   []string
	extra   map[string][]string
	n       int
	cmtSkip bool
}

func (r *rw) text(from, to token.Pos) string {
	p := r.fset.Position(from)
	f := r.fset.File(from)
	return string(r.src[p.Filename][f.Offset(from):f.Offset(to)])
}

func (r *rw) file(a *ast.File, fn, newName string) string {
	var sb strings.Builder
	for _, cg := range a.Comments { // build constraints and directives before the package clause
		if cg.Pos() < a.Package {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:build") {
					sb.WriteString(c.Text + "\n\n")
				}
			}
		}
	}
	fmt.Fprintf(&sb, "package %s\n\nimport %s %q\n\nvar _ = %s.Loop\n", newName, rt, r.mod+"/zz_mc/mcrt", rt)
	body := sb.String()
	var imports, rest strings.Builder
	for _, d := range a.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			for _, s := range gd.Specs {
				is := s.(*ast.ImportSpec)
				path, _ := strconv.Unquote(is.Path.Value)
				name := ""
				if is.Name != nil {
					name = is.Name.Name + " "
				}
				if shims[path] {
					if name == "" {
						name = filepath.Base(path) + " "
					}
					path = r.mod + "/zz_mc/shim/" + strings.ReplaceAll(path, "/", "_")
				}
				fmt.Fprintf(&imports, "import %s%q\n", name, path)
			}
			continue
		}
		// keep doc comments out, directives in
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
			if fd.Name.Name == "init" {
				k := fmt.Sprintf("zz_init%d_%s", len(r.inits), strings.TrimSuffix(filepath.Base(fn), ".go"))
				r.inits = append(r.inits, k)
				fmt.Fprintf(&rest, "\nfunc init() { %s() }\n\nfunc %s() %s\n", k, k, r.render(fd.Body))
				continue
			}
			if r.isMain && fd.Name.Name == "main" {
				fmt.Fprintf(&rest, "\nfunc RunMain() %s\n", r.render(fd.Body))
				continue
			}
		}
		rest.WriteString("\n" + r.render(d) + "\n")
	}
	imp := imports.String()
	return body[:strings.Index(body, "\nvar _ =")] + "\n" + imp + body[strings.Index(body, "\nvar _ ="):] + rest.String()
}

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return core(tv.Type)
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil && o.Type() != nil {
			return core(o.Type())
		}
	}
	return types.Typ[types.Invalid]
}

func core(t types.Type) types.Type {
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok {
		if _, isTP := types.Unalias(t).(*types.TypeParam); isTP && i.NumEmbeddeds() == 1 {
			switch e := i.EmbeddedType(0).(type) {
			case *types.Union:
				if e.Len() == 1 {
					return e.Term(0).Type().Underlying()
				}
			default:
				return e.Underlying()
			}
		}
	}
	return u
}

func isChan(t types.Type) bool { _, ok := t.(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := t.(*types.Map); return ok }

// render returns the rewritten text of n.
func (r *rw) render(n ast.Node) string {
	if s, ok := r.special(n); ok {
		return s
	}
	return r.splice(n)
}

func (r *rw) splice(n ast.Node) string {
	var eds []edit
	add := func(from, to token.Pos, s string) { eds = append(eds, edit{from, to, s, len(eds)}) }
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if c != n {
			if s, ok := r.special(c); ok {
				add(c.Pos(), c.End(), s)
				return false
			}
		}
		switch c := c.(type) {
		case *ast.CommentGroup:
			return false
		case *ast.ForStmt:
			add(c.Body.Lbrace+1, c.Body.Lbrace+1, " "+rt+".Loop(); ")
		case *ast.RangeStmt:
			add(c.Body.Lbrace+1, c.Body.Lbrace+1, " "+rt+".Loop(); ")
		case *ast.BlockStmt:
			r.points(c.List, add)
		case *ast.CaseClause:
			r.points(c.Body, add)
		}
		return true
	})
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].from != eds[j].from {
			return eds[i].from < eds[j].from
		}
		zi, zj := eds[i].to == eds[i].from, eds[j].to == eds[j].from
		if zi != zj {
			return zi
		}
		return eds[i].seq < eds[j].seq
	})
	var sb strings.Builder
	pos := n.Pos()
	for _, e := range eds {
		sb.WriteString(r.text(pos, e.from))
		sb.WriteString(e.txt)
		pos = e.to
	}
	sb.WriteString(r.text(pos, n.End()))
	return sb.String()
}

// stmts renders a statement list (with scheduling points).
func (r *rw) stmts(l []ast.Stmt) string {
	var sb strings.Builder
	for _, s := range l {
		sb.WriteString(r.pointText(s))
		sb.WriteString(r.render(s))
		sb.WriteString("\n")
	}
	return sb.String()
}

func (r *rw) points(l []ast.Stmt, add func(a, b token.Pos, s string)) {
	if !r.flagged {
		return
	}
	for _, s := range l {
		if t := r.pointText(s); t != "" {
			add(s.Pos(), s.Pos(), t)
		}
	}
}

// pointText: a scheduling point and the memory accesses of one statement.
func (r *rw) pointText(s ast.Stmt) string {
	if !r.flagged {
		return ""
	}
	switch s.(type) {
	case *ast.DeclStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.BranchStmt, *ast.LabeledStmt:
		return ""
	}
	txt := rt + ".StmtPoint(); "
	seen := map[string]bool{}
	rec := func(s string) {
		if !seen[s] {
			seen[s] = true
			txt += s + "; "
		}
	}
	var exprs func(n ast.Node, write bool)
	exprs = func(n ast.Node, write bool) {
		switch n := n.(type) {
		case nil:
		case *ast.ParenExpr:
			exprs(n.X, write)
		case *ast.BinaryExpr:
			exprs(n.X, false)
			if n.Op != token.LAND && n.Op != token.LOR {
				exprs(n.Y, false)
			}
		case *ast.UnaryExpr:
			if n.Op != token.AND {
				exprs(n.X, false)
			}
		case *ast.StarExpr:
			exprs(n.X, false)
		case *ast.IndexExpr:
			if isMap(r.typ(n.X)) {
				if p, ok := r.pure(n.X); ok {
					if write {
						rec(rt + ".MW(" + p + ")")
					} else {
						rec(rt + ".MR(" + p + ")")
					}
				}
			}
			exprs(n.X, false)
			exprs(n.Index, false)
		case *ast.SliceExpr:
			exprs(n.X, false)
		case *ast.SelectorExpr:
			sel := r.info.Selections[n]
			if sel == nil || sel.Kind() != types.FieldVal {
				return
			}
			if r.syncType(sel.Type()) {
				return
			}
			if p, ok := r.pure(n); ok && r.viaPointer(n) {
				if write {
					rec(rt + ".WR(&" + p + ")")
				} else {
					rec(rt + ".RD(&" + p + ")")
				}
			} else {
				exprs(n.X, false)
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "delete" && len(n.Args) == 2 {
				if p, ok := r.pure(n.Args[0]); ok {
					rec(rt + ".MW(" + p + ")")
				}
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "len" && isMap(r.typ(n.Args[0])) {
				if p, ok := r.pure(n.Args[0]); ok {
					rec(rt + ".MR(" + p + ")")
				}
			}
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				if sel := r.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
					// a pointer receiver taken from an addressable field is not a read
					recvPtr := false
					if f, ok := sel.Obj().(*types.Func); ok {
						if sg, ok := f.Type().(*types.Signature); ok && sg.Recv() != nil {
							_, recvPtr = sg.Recv().Type().(*types.Pointer)
						}
					}
					_, xPtr := r.typ(se.X).(*types.Pointer)
					if !recvPtr || xPtr {
						exprs(se.X, false)
					} else if inner, ok := se.X.(*ast.SelectorExpr); ok {
						exprs(inner.X, false)
					}
				}
			}
			for _, a := range n.Args {
				exprs(a, false)
			}
		case *ast.KeyValueExpr:
			exprs(n.Value, false)
		case *ast.CompositeLit:
			for _, e := range n.Elts {
				exprs(e, false)
			}
		}
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, e := range s.Rhs {
			exprs(e, false)
		}
		for _, e := range s.Lhs {
			exprs(e, true)
			if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
				exprs(e, false)
			}
		}
	case *ast.IncDecStmt:
		exprs(s.X, true)
	case *ast.ExprStmt:
		exprs(s.X, false)
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			exprs(e, false)
		}
	case *ast.IfStmt:
		if s.Init == nil {
			exprs(s.Cond, false)
		} else if a, ok := s.Init.(*ast.AssignStmt); ok {
			for _, e := range a.Rhs {
				exprs(e, false)
			}
		}
	case *ast.ForStmt:
		if s.Init == nil && s.Cond != nil {
			exprs(s.Cond, false)
		}
	case *ast.RangeStmt:
		if isMap(r.typ(s.X)) {
			if p, ok := r.pure(s.X); ok {
				rec(rt + ".MR(" + p + ")")
			}
		}
		exprs(s.X, false)
	case *ast.SendStmt:
		exprs(s.Value, false)
	case *ast.SwitchStmt:
		if s.Init == nil && s.Tag != nil {
			exprs(s.Tag, false)
		}
	}
	return txt
}

// pure: expressions made of identifiers and field selections can be evaluated twice.
func (r *rw) pure(e ast.Expr) (string, bool) {
	switch e := e.(type) {
	case *ast.Ident:
		if _, ok := r.info.ObjectOf(e).(*types.Var); ok {
			return e.Name, true
		}
		return "", false
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return "", false
		}
		p, ok := r.pure(e.X)
		return p + "." + e.Sel.Name, ok
	case *ast.ParenExpr:
		return r.pure(e.X)
	}
	return "", false
}

// viaPointer: some part of the selector chain goes through a pointer (so the memory is shared).
func (r *rw) viaPointer(e ast.Expr) bool {
	se, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	if _, ok := r.typ(se.X).(*types.Pointer); ok {
		return true
	}
	return r.viaPointer(se.X)
}

func (r *rw) syncType(t types.Type) bool {
	if isChan(core(t)) {
		return true
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		return p == "sync" || p == "sync/atomic"
	}
	return false
}

func (r *rw) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rw) loopHead() string { return " " + rt + ".Loop(); " }

func (r *rw) special(n ast.Node) (string, bool) {
	if e, ok := n.(ast.Expr); ok && r.scaled {
		if tv, ok := r.info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.Int {
			_, plain := tv.Type.(*types.Basic)
			if v, ok := constant.Uint64Val(tv.Value); ok && plain && v >= 1<<16 && v <= 1<<32 {
				return scaledTo, true
			}
		}
	}
	switch n := n.(type) {
	case *ast.ChanType:
		return "*" + rt + ".Chan[" + r.render(n.Value) + "]", true

	case *ast.TypeSpec:
		if ct, ok := n.Type.(*ast.ChanType); ok && n.TypeParams == nil {
			return n.Name.Name + " = " + r.render(ct), true
		}

	case *ast.SendStmt:
		return "(" + r.render(n.Chan) + ").Send(" + r.render(n.Value) + ")", true

	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			m := "Recv"
			if tv, ok := r.info.Types[n]; ok {
				if _, tup := tv.Type.(*types.Tuple); tup {
					m = "Recv2"
				}
			}
			return "(" + r.render(n.X) + ")." + m + "()", true
		}

	case *ast.CallExpr:
		if len(n.Args) >= 1 {
			if r.builtin(n.Fun, "close") {
				return "(" + r.render(n.Args[0]) + ").Close()", true
			}
			if r.builtin(n.Fun, "len") && isChan(r.typ(n.Args[0])) {
				return "(" + r.render(n.Args[0]) + ").Len()", true
			}
			if r.builtin(n.Fun, "cap") && isChan(r.typ(n.Args[0])) {
				return "(" + r.render(n.Args[0]) + ").Cap()", true
			}
			if r.builtin(n.Fun, "make") {
				return r.make(n)
			}
		}

	case *ast.GoStmt:
		return r.goStmt(n), true

	case *ast.SelectStmt:
		return r.sel(n, ""), true

	case *ast.RangeStmt:
		return r.rng(n, "")

	case *ast.LabeledStmt:
		switch s := n.Stmt.(type) {
		case *ast.SelectStmt:
			return r.sel(s, n.Label.Name+": "), true
		case *ast.RangeStmt:
			return r.rng(s, n.Label.Name+": ")
		}
	}
	return "", false
}

func (r *rw) make(n *ast.CallExpr) (string, bool) {
	t := r.typ(n.Args[0])
	pos := r.fset.Position(n.Pos())
	ps := strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
	switch t := t.(type) {
	case *types.Chan:
		sz := "0"
		if len(n.Args) > 1 {
			sz = "int(" + r.render(n.Args[1]) + ")"
		}
		el := ""
		if ct, ok := n.Args[0].(*ast.ChanType); ok {
			el = r.render(ct.Value)
		} else {
			el = types.TypeString(t.Elem(), func(p *types.Package) string {
				if p == r.pkg {
					return ""
				}
				return p.Name()
			})
		}
		return rt + ".MakeChan[" + el + "](" + sz + ")", true
	case *types.Slice:
		if len(n.Args) < 2 {
			return "", false
		}
		s := "make(" + r.render(n.Args[0])
		ch := false
		for _, a := range n.Args[1:] {
			if tv := r.info.Types[a]; tv.Value != nil {
				s += ", " + r.render(a)
			} else {
				ch = true
				s += fmt.Sprintf(", %s.ML(%d, %s, %s)", rt, r.size(t.Elem()), r.render(a), ps)
			}
		}
		return s + ")", ch
	case *types.Map:
		if len(n.Args) < 2 || r.info.Types[n.Args[1]].Value != nil {
			return "", false
		}
		return fmt.Sprintf("make(%s, %s.MM(%d, %s, %s))", r.render(n.Args[0]), rt, r.size(t.Key())+r.size(t.Elem())+1, r.render(n.Args[1]), ps), true
	}
	return "", false
}

func (r *rw) size(t types.Type) (sz int64) {
	defer func() {
		if recover() != nil {
			sz = 8
		}
	}()
	return r.sizes.Sizeof(t)
}

func (r *rw) goStmt(n *ast.GoStmt) string {
	c := n.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return rt + ".Go(" + r.render(fl) + ")"
		}
	}
	pre, fun := "", ""
	inline := false
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, b := r.info.Uses[id].(*types.Builtin); b {
			inline = true
		}
		if _, inst := r.info.Instances[id]; inst {
			inline = true
		}
	}
	if se, ok := c.Fun.(*ast.SelectorExpr); ok {
		if _, inst := r.info.Instances[se.Sel]; inst {
			inline = true
		}
	}
	if r.builtin(c.Fun, "close") {
		return "{ zzc := " + r.render(c.Args[0]) + "; " + rt + ".Go(func() { zzc.Close() }) }"
	}
	if inline {
		fun = r.render(c.Fun)
	} else {
		pre = "zzf := " + r.render(c.Fun) + "; "
		fun = "zzf"
	}
	var args []string
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, r.render(a))
			continue
		}
		if tup, ok := tv.Type.(*types.Tuple); ok {
			var l []string
			for j := 0; j < tup.Len(); j++ {
				l = append(l, fmt.Sprintf("zza%d_%d", i, j))
			}
			pre += strings.Join(l, ", ") + " := " + r.render(a) + "; "
			args = append(args, l...)
			continue
		}
		v := fmt.Sprintf("zza%d", i)
		pre += v + " := " + r.render(a) + "; "
		args = append(args, v)
	}
	el := ""
	if c.Ellipsis.IsValid() {
		el = "..."
	}
	return "{ " + pre + rt + ".Go(func() { " + fun + "(" + strings.Join(args, ", ") + el + ") }) }"
}

func (r *rw) sel(n *ast.SelectStmt, label string) string {
	if len(n.Body.List) == 0 {
		return label + rt + ".Block()"
	}
	var names, inits []string
	var body strings.Builder
	hasDef := false
	i := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			fmt.Fprintf(&body, "default:\n%s", r.stmts(cc.Body))
			continue
		}
		v := fmt.Sprintf("zzs%d", i)
		fmt.Fprintf(&body, "case %d:\n", i)
		recv := func(e ast.Expr) string {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				break
			}
			return "(" + r.render(e.(*ast.UnaryExpr).X) + ").RCase()"
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "("+r.render(s.Chan)+").SCase("+r.render(s.Value)+")")
		case *ast.ExprStmt:
			inits = append(inits, recv(s.X))
		case *ast.AssignStmt:
			inits = append(inits, recv(s.Rhs[0]))
			l := []string{}
			for _, e := range s.Lhs {
				l = append(l, r.render(e))
			}
			rhs := v + ".V"
			if len(s.Lhs) == 2 {
				rhs += ", " + v + ".Ok"
			}
			allBlank := true
			for _, x := range l {
				if x != "_" {
					allBlank = false
				}
			}
			tok := s.Tok.String()
			if allBlank {
				tok = "="
			}
			fmt.Fprintf(&body, "%s %s %s\n", strings.Join(l, ", "), tok, rhs)
		}
		names = append(names, v)
		body.WriteString(r.stmts(cc.Body))
		i++
	}
	if !hasDef {
		body.WriteString("default:\npanic(\"select\")\n")
	}
	init := ""
	if len(names) > 0 {
		init = strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	args := append([]string{fmt.Sprint(hasDef)}, names...)
	return fmt.Sprintf("%sswitch %s%s.Select(%s) {\n%s}", label, init, rt, strings.Join(args, ", "), body.String())
}

func (r *rw) blockText(b *ast.BlockStmt) string { return r.stmts(b.List) }

func (r *rw) rng(n *ast.RangeStmt, label string) (string, bool) {
	t := r.typ(n.X)
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return r.render(e)
	}
	k, v := name(n.Key), name(n.Value)
	def := n.Tok == token.DEFINE
	switch {
	case isChan(t):
		if def && k != "_" {
			return fmt.Sprintf("{ zzc := %s; %sfor %s, zzok := zzc.ZeroV(), false; ; {\n%s, zzok = zzc.Recv2(); if !zzok { break };%s\n%s} }", r.render(n.X), label, k, k, r.loopHead(), r.blockText(n.Body)), true
		}
		return fmt.Sprintf("{ zzc := %s; %sfor {\nzzv, zzok := zzc.Recv2(); if !zzok { break }; _ = zzv; %s = zzv;%s\n%s} }", r.render(n.X), label, k, r.loopHead(), r.blockText(n.Body)), true
	case isMap(t):
		mp := ""
		if r.flagged {
			if p, ok := r.pure(n.X); ok {
				mp = rt + ".MR(" + p + "); "
			}
		}
		if def && (k != "_" || v != "_") {
			var l, z []string
			if k != "_" {
				l, z = append(l, k), append(z, "zze.ZK()")
			}
			if v != "_" {
				l, z = append(l, v), append(z, "zze.ZV()")
			}
			return fmt.Sprintf("{ zze := %s.MapEnts(%s); %sfor zzi, %s := 0, %s; zzi < len(zze); zzi++ {\nvar zzok bool; %s, %s, zzok = zze[zzi].Get(); if !zzok { continue };%s%s\n%s} }",
				rt, r.render(n.X), label, strings.Join(l, ", "), strings.Join(z, ", "), k, v, r.loopHead(), mp, r.blockText(n.Body)), true
		}
		return fmt.Sprintf("{ zze := %s.MapEnts(%s); %sfor zzi := 0; zzi < len(zze); zzi++ {\nvar zzok bool; %s, %s, zzok = zze[zzi].Get(); if !zzok { continue };%s%s\n%s} }",
			rt, r.render(n.X), label, k, v, r.loopHead(), mp, r.blockText(n.Body)), true
	}
	if label != "" {
		return "", false
	}
	return "", false
}
