package main

// Source rewriting: turns the library into code whose every source of
// nondeterminism is decided by the simulator (package zrt and friends).
//
// The rewriting is purely mechanical and driven by types, not by the names the
// library happens to use, so it applies unchanged to edited sources.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// module path of the build module; the same as the library's so that
// "internal" packages stay importable.
const modPath = "github.com/bwesterb/go-xmssmt"
const zrtPath = modPath + "/zsim/zrt"

type shim struct {
	path  string            // import path of the shim package
	names map[string]string // name in the real package -> name in the shim
	pure  map[string]bool   // functions of the real package that may stay
	allow bool              // everything else stays (otherwise: funcs/vars not listed are refused)
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

func same(s string) map[string]string {
	m := map[string]string{}
	for _, x := range strings.Fields(s) {
		m[x] = x
	}
	return m
}

var shims = map[string]*shim{
	"os": {
		path: modPath + "/zsim/zos",
		names: same("Open OpenFile Create CreateTemp Remove RemoveAll Rename Link Stat Lstat Truncate " +
			"ReadFile WriteFile Mkdir MkdirAll MkdirTemp ReadDir Getpid Getppid Getpagesize FindProcess " +
			"SameFile Chmod Chtimes Exit File Process Symlink Readlink Getwd"),
		pure: set("IsNotExist IsExist IsPermission IsTimeout IsPathSeparator Getenv LookupEnv Environ " +
			"TempDir NewSyscallError Expand ExpandEnv Getuid Geteuid Getgid Getegid Hostname"),
	},
	"io/ioutil": {
		path:  modPath + "/zsim/zos",
		names: map[string]string{"ReadFile": "ReadFile", "WriteFile": "WriteFile", "TempFile": "CreateTemp", "TempDir": "MkdirTemp", "ReadDir": "ReadDirInfo"},
		pure:  set("ReadAll NopCloser Discard"),
	},
	"sync": {
		path:  modPath + "/zsim/zsync",
		names: same("Mutex RWMutex Cond NewCond WaitGroup Once Pool Map OnceFunc OnceValue OnceValues"),
	},
	"sync/atomic": {allow: true},
	"time": {
		path:  modPath + "/zsim/ztime",
		names: same("Sleep After AfterFunc Tick NewTimer NewTicker Timer Ticker Now Since Until"),
		allow: true,
	},
	"runtime": {
		path:  modPath + "/zsim/zrt",
		names: same("NumCPU GOMAXPROCS Gosched"),
		allow: true,
	},
	"crypto/rand": {
		path:  modPath + "/zsim/zrand",
		names: same("Read Reader"),
		pure:  set("Int Prime"),
	},
	"math/rand":     {path: modPath + "/zsim/zmrand", names: same("Seed Int63 Uint32 Uint64 Int31 Int Int63n Int31n Intn Float64 Float32 Perm Shuffle Read NormFloat64 ExpFloat64"), pure: set("New NewSource NewZipf")},
	"math/rand/v2":  {path: modPath + "/zsim/zmrand2", names: same("Int64 Uint32 Uint64 Int32 Int Int64N Uint64N Int32N Uint32N IntN UintN Float64 Float32 Perm Shuffle"), pure: set("New NewPCG NewChaCha8 NewZipf")},
	"path/filepath": {path: modPath + "/zsim/zos", names: same("EvalSymlinks Glob Abs"), pure: set("Base Clean Dir Ext FromSlash HasPrefix IsAbs Join Match Rel Split SplitList ToSlash VolumeName IsLocal")},
	"github.com/edsrzf/mmap-go": {
		path:  modPath + "/zsim/zmmap",
		names: same("MMap Map MapRegion RDONLY RDWR COPY EXEC ANON"),
	},
	"syscall":               {pure: set("")},
	"golang.org/x/sys/unix": {pure: set("ByteSliceToString")},
	"golang.org/x/sys/cpu":  {allow: true},
	"net":                   {},
	"os/exec":               {},
	"os/signal":             {},
}

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	SFiles     []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
}

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOMODCACHE", "GOCACHE", "GODEBUG", "GORACE", "GOMAXPROCS", "GOGC":
			continue
		}
		out = append(out, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		out = append(out, "HOME=/root")
	}
	cache := os.Getenv("GOCACHE")
	if cache == "" {
		cache = filepath.Join(home, ".cache/go-build")
	}
	mc := os.Getenv("GOMODCACHE")
	if mc == "" {
		mc = filepath.Join(home, "go/pkg/mod")
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off",
		"GOMODCACHE="+mc, "GOCACHE="+cache)
}

func run(dir string, args ...string) ([]byte, error) {
	c := exec.Command(args[0], args[1:]...)
	c.Dir = dir
	c.Env = goEnv()
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	err := c.Run()
	if err != nil {
		return out.Bytes(), fmt.Errorf("%s: %v\n%s", strings.Join(args, " "), err, errb.String())
	}
	return out.Bytes(), nil
}

func copyFile(dst, src string) error {
	in, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
		return err
	}
	if old, err := os.ReadFile(dst); err == nil && bytes.Equal(old, in) {
		return nil
	}
	return os.WriteFile(dst, in, 0644)
}

func copyTree(dst, src string, filter func(rel string, d os.DirEntry) bool) error {
	return filepath.WalkDir(src, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if rel == "." {
			return nil
		}
		if !filter(rel, d) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if d.IsDir() {
			return nil
		}
		if !d.Type().IsRegular() {
			return nil
		}
		return copyFile(filepath.Join(dst, rel), p)
	})
}

func goList(dir string, args ...string) ([]*listPkg, error) {
	out, err := run(dir, append([]string{"go", "list", "-json=Dir,ImportPath,Name,Export,GoFiles,SFiles,Imports,Standard,Module,Error", "-deps", "-export"}, args...)...)
	if err != nil {
		return nil, err
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, &p)
	}
	return pkgs, nil
}

type rewriter struct {
	fset   *token.FileSet
	pkg    *listPkg
	info   *types.Info
	tpkg   *types.Package
	remap  func(path string) string // import path mapping for in-module and cloned packages
	errs   []string
	used   map[*ast.File]map[string]string // file -> shim path -> alias
	file   *ast.File
	nextID int
	sites  *siteTable
	label  string
}

func (r *rewriter) errf(n ast.Node, f string, a ...interface{}) {
	r.errs = append(r.errs, fmt.Sprintf("%s: %s", r.fset.Position(n.Pos()), fmt.Sprintf(f, a...)))
}

func alias(path string) string { return "z_" + filepath.Base(path) }

func (r *rewriter) use(path string) string {
	a := alias(path)
	if r.used[r.file] == nil {
		r.used[r.file] = map[string]string{}
	}
	r.used[r.file][path] = a
	return a
}

func (r *rewriter) zrt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(r.use(zrtPath)), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) tmp(s string) string {
	r.nextID++
	return fmt.Sprintf("z%s%d", s, r.nextID)
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// expr rewrites an expression tree and returns its replacement.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
		return e
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				return r.pkgSel(x, pn.Imported())
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.Builtin); ok && len(x.Args) > 0 {
				at := r.info.TypeOf(x.Args[0])
				if isChan(at) {
					switch id.Name {
					case "make":
						ct := at.Underlying().(*types.Chan)
						_ = ct
						var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
						if len(x.Args) > 1 {
							size = call(ast.NewIdent("int"), r.expr(x.Args[1]))
						}
						var elem ast.Expr
						if c, ok := x.Args[0].(*ast.ChanType); ok {
							elem = r.expr(c.Value)
						} else {
							r.errf(x, "make of a named channel type is not supported")
							return x
						}
						return call(&ast.IndexExpr{X: r.zrt("MakeChan"), Index: elem}, size)
					case "close":
						return call(r.zrt("CloseChan"), r.expr(x.Args[0]))
					case "len":
						return call(r.zrt("LenChan"), r.expr(x.Args[0]))
					case "cap":
						return call(r.zrt("CapChan"), r.expr(x.Args[0]))
					}
				}
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.zrt("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
		return x
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.expr(x.Type)
		return x
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		// Keys of struct literals are field names; expr leaves identifiers alone.
		r.exprs(x.Elts)
		return x
	case *ast.FuncLit:
		r.fieldList(x.Type.Params)
		r.fieldList(x.Type.Results)
		r.block(x.Body)
		return x
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.ArrayType:
		x.Len, x.Elt = r.expr(x.Len), r.expr(x.Elt)
		return x
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.zrt("Chan"), Index: r.expr(x.Value)}}
	case *ast.StructType:
		r.fieldList(x.Fields)
		return x
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
		return x
	case *ast.FuncType:
		r.fieldList(x.TypeParams)
		r.fieldList(x.Params)
		r.fieldList(x.Results)
		return x
	}
	r.errf(e, "unsupported expression %T", e)
	return e
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) fieldList(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.List {
		x.Type = r.expr(x.Type)
	}
}

// pkgSel rewrites pkg.Name.
func (r *rewriter) pkgSel(x *ast.SelectorExpr, p *types.Package) ast.Expr {
	if np := r.remap(p.Path()); np != "" {
		return &ast.SelectorExpr{X: ast.NewIdent(r.use(np)), Sel: x.Sel}
	}
	if sh := shims[p.Path()]; sh != nil {
		if n, ok := sh.names[x.Sel.Name]; ok {
			return &ast.SelectorExpr{X: ast.NewIdent(r.use(sh.path)), Sel: ast.NewIdent(n)}
		}
		if !sh.allow && !sh.pure[x.Sel.Name] {
			switch o := r.info.Uses[x.Sel].(type) {
			case *types.Func:
				r.errf(x, "call of %s.%s is not simulated", p.Path(), x.Sel.Name)
			case *types.Var:
				if p.Path() != "os" || !strings.HasPrefix(o.Name(), "Err") {
					if !(p.Path() == "io/ioutil" && sh.pure[o.Name()]) && o.Name() != "Stderr" && o.Name() != "Stdout" && o.Name() != "Args" {
						r.errf(x, "variable %s.%s is not simulated", p.Path(), x.Sel.Name)
					}
				}
			}
		}
	}
	return &ast.SelectorExpr{X: ast.NewIdent(r.useReal(p.Path())), Sel: x.Sel}
}

// useReal records an import of an untouched package.
func (r *rewriter) useReal(path string) string {
	a := "r_" + sanitize(path)
	if r.used[r.file] == nil {
		r.used[r.file] = map[string]string{}
	}
	r.used[r.file][path] = a
	return a
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			b[i] = '_'
		}
	}
	return string(b)
}

// yield makes a preemption point that stands before n.  Every copy of a
// package gets the same numbers.
func (r *rewriter) yield(n ast.Node, suffix string) ast.Stmt {
	p := r.fset.Position(n.Pos())
	id := r.sites.id(fmt.Sprintf("%s/%s:%d:%d%s", r.label, filepath.Base(p.Filename), p.Line, p.Column, suffix))
	return &ast.ExprStmt{X: call(r.zrt("Y"), &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)})}
}

type siteTable struct {
	ids   map[string]int
	names []string
}

func newSiteTable() *siteTable { return &siteTable{ids: map[string]int{"": 0}, names: []string{""}} }

func (t *siteTable) id(k string) int {
	if n, ok := t.ids[k]; ok {
		return n
	}
	n := len(t.names)
	t.ids[k] = n
	t.names = append(t.names, k)
	return n
}

func (t *siteTable) source() []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package zrt\n\n// NSites is the number of preemption points.\nconst NSites = %d\n\n// Sites names them.\nvar Sites = []string{\n", len(t.names))
	for _, n := range t.names {
		fmt.Fprintf(&b, "\t%q,\n", n)
	}
	b.WriteString("}\n")
	return b.Bytes()
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.DeclStmt, *ast.BranchStmt, *ast.BlockStmt:
		case *ast.LabeledStmt:
		default:
			out = append(out, r.yield(s, ""))
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.exprs(x.Lhs)
				x.Rhs[0] = call(r.zrt("Recv2"), r.expr(u.X))
				return x
			}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
		// Split "a op= b" on plain variables and fields into a read and a
		// write so that a lost update is a possible interleaving.
		if x.Tok != token.ASSIGN && x.Tok != token.DEFINE && len(x.Lhs) == 1 {
			return r.splitOp(x, x.Lhs[0], x.Tok, x.Rhs[0])
		}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
		op := token.ADD_ASSIGN
		if x.Tok == token.DEC {
			op = token.SUB_ASSIGN
		}
		return r.splitOp(x, x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(r.zrt("Send"), r.expr(x.Chan), r.expr(x.Value))}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if c, ok := r.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.stmtNoSplit(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.stmt(x.Else)
	case *ast.ForStmt:
		x.Init = r.stmtNoSplit(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.stmtNoSplit(x.Post)
		r.block(x.Body)
		if len(x.Body.List) == 0 {
			x.Body.List = []ast.Stmt{r.yield(x.Body, "{")}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.SwitchStmt:
		x.Init = r.stmtNoSplit(x.Init)
		x.Tag = r.expr(x.Tag)
		r.caseBodies(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.stmtNoSplit(x.Init)
		x.Assign = r.stmtNoSplit(x.Assign)
		r.caseBodies(x.Body)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.DeclStmt:
		r.genDecl(x.Decl.(*ast.GenDecl))
	case *ast.BranchStmt, *ast.EmptyStmt:
	default:
		r.errf(s, "unsupported statement %T", s)
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// stmtNoSplit rewrites a simple statement in a header position.
func (r *rewriter) stmtNoSplit(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
		return x
	case *ast.AssignStmt:
		if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
			r.exprs(x.Lhs)
			r.exprs(x.Rhs)
			return x
		}
		return r.stmt(x)
	}
	return r.stmt(s)
}

// sideEffectFree: selector chains of identifiers only.
func (r *rewriter) fieldPath(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		switch y := x.X.(type) {
		case *ast.Ident:
			return true
		default:
			return r.fieldPath(y)
		}
	case *ast.StarExpr:
		_, ok := x.X.(*ast.Ident)
		return ok
	}
	return false
}

func (r *rewriter) splitOp(s ast.Stmt, lhs ast.Expr, tok token.Token, rhs ast.Expr) ast.Stmt {
	if !r.fieldPath(lhs) {
		return s
	}
	var op token.Token
	switch tok {
	case token.ADD_ASSIGN:
		op = token.ADD
	case token.SUB_ASSIGN:
		op = token.SUB
	case token.OR_ASSIGN:
		op = token.OR
	case token.AND_ASSIGN:
		op = token.AND
	case token.XOR_ASSIGN:
		op = token.XOR
	default:
		return s
	}
	t := ast.NewIdent(r.tmp("t"))
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: lhs, Op: op, Y: &ast.ParenExpr{X: rhs}}}},
		r.yield(s, "="),
		&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
	}}
}

func (r *rewriter) caseBodies(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	if fl, ok := unparen(x.Call.Fun).(*ast.FuncLit); ok {
		// go func(P) { B }(args)  =>  zrt.Go(func(P) func() { return func() { B } }(args))
		hasRes := fl.Type.Results != nil && len(fl.Type.Results.List) > 0
		r.expr(fl)
		r.exprs(x.Call.Args)
		inner := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fl.Type.Results}, Body: fl.Body}
		var thunk ast.Expr = inner
		if hasRes {
			thunk = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(inner)}}}}
		}
		outer := &ast.FuncLit{
			Type: &ast.FuncType{Params: fl.Type.Params, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.FuncType{Params: &ast.FieldList{}}}}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{thunk}}}},
		}
		c := call(outer, x.Call.Args...)
		c.Ellipsis = x.Call.Ellipsis
		return &ast.ExprStmt{X: call(r.zrt("Go"), c)}
	}
	// go f(args)  =>  zrt.GoCall(f, args...)   (reflection)
	if x.Call.Ellipsis != token.NoPos {
		r.errf(x, "go statement with variadic spread is not supported")
	}
	f := r.expr(x.Call.Fun)
	r.exprs(x.Call.Args)
	return &ast.ExprStmt{X: call(r.zrt("GoCall"), append([]ast.Expr{f}, x.Call.Args...)...)}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.info.TypeOf(x.X)
	if isMap(t) {
		e := ast.NewIdent(r.tmp("e"))
		key, val := x.Key, x.Value
		tok := x.Tok
		if key != nil {
			key = r.expr(key)
		}
		if val != nil {
			val = r.expr(val)
		}
		rx := r.expr(x.X)
		r.block(x.Body)
		pre := []ast.Stmt{&ast.IfStmt{
			Cond: &ast.UnaryExpr{Op: token.NOT, X: call(&ast.SelectorExpr{X: e, Sel: ast.NewIdent("Alive")})},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
		}}
		if !isBlank(key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: e, Sel: ast.NewIdent("K")}}})
		}
		if !isBlank(val) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: e, Sel: ast.NewIdent("V")})}})
		}
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE, X: call(r.zrt("MapEntries"), rx),
			Body: &ast.BlockStmt{List: append(pre, x.Body.List...)}}
	}
	if isChan(t) {
		ok := ast.NewIdent(r.tmp("ok"))
		v := ast.NewIdent(r.tmp("v"))
		rx := r.expr(x.X)
		key := x.Key
		if key != nil {
			key = r.expr(key)
		}
		r.block(x.Body)
		pre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.zrt("Recv2"), rx)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if isBlank(key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		} else {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: x.Tok, Rhs: []ast.Expr{v}})
		}
		return &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, x.Body.List...)}}
	}
	x.Key, x.Value, x.X = r.expr(x.Key), r.expr(x.Value), r.expr(x.X)
	r.block(x.Body)
	return x
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	zi, zv, zok := ast.NewIdent(r.tmp("i")), ast.NewIdent(r.tmp("v")), ast.NewIdent(r.tmp("ok"))
	hasDefault := "false"
	var cases []ast.Expr
	var clauses []ast.Stmt
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var pre []ast.Stmt
		idx := strconv.Itoa(n)
		switch s := cc.Comm.(type) {
		case nil:
			hasDefault = "true"
			idx = "-1"
		case *ast.SendStmt:
			cases = append(cases, call(r.zrt("SendCase"), r.expr(s.Chan), r.expr(s.Value)))
			n++
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			cases = append(cases, call(r.zrt("RecvCase"), r.expr(u.X)))
			n++
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			ch := r.expr(u.X)
			cases = append(cases, call(r.zrt("RecvCase"), ch))
			if !isBlank(s.Lhs[0]) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Lhs[0])}, Tok: s.Tok, Rhs: []ast.Expr{call(r.zrt("As"), ch, zv)}})
			}
			if len(s.Lhs) > 1 && !isBlank(s.Lhs[1]) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Lhs[1])}, Tok: s.Tok, Rhs: []ast.Expr{zok}})
			}
			n++
		}
		pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{zv, zok}}}, pre...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: idx}}, Body: append(pre, r.stmts(cc.Body)...)})
	}
	return &ast.SwitchStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{zi, zv, zok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.zrt("Select"), append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)}},
		Tag:  zi,
		Body: &ast.BlockStmt{List: clauses},
	}
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch x := s.(type) {
		case *ast.ValueSpec:
			x.Type = r.expr(x.Type)
			r.exprs(x.Values)
		case *ast.TypeSpec:
			r.fieldList(x.TypeParams)
			x.Type = r.expr(x.Type)
		}
	}
}

// rewritePackage writes a rewritten copy of p into dst.
func rewritePackage(p *listPkg, label, dst string, exports map[string]string, remap func(string) string, sites *siteTable, adapter []byte, resets []string) error {
	os.MkdirAll(dst, 0755)
	want := map[string]bool{}
	if len(p.SFiles) > 0 {
		// A package with assembly is pure computation: copied as it is.
		for _, f := range append(append([]string{}, p.GoFiles...), p.SFiles...) {
			want[f] = true
			if err := copyFile(filepath.Join(dst, f), filepath.Join(p.Dir, f)); err != nil {
				return err
			}
		}
		src := "package " + p.Name + "\n\n// ZReset is a no-op: the package holds no state that changes.\nfunc ZReset() {}\n"
		want["zz_reset.go"] = true
		if err := writeIfChanged(filepath.Join(dst, "zz_reset.go"), []byte(src)); err != nil {
			return err
		}
		return removeOthers(dst, want)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, a)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Sizes: types.SizesFor("gc", "amd64"),
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return fmt.Errorf("type checking %s: %v", p.ImportPath, err)
	}
	r := &rewriter{fset: fset, pkg: p, info: info, tpkg: tp, remap: remap, used: map[*ast.File]map[string]string{}, sites: sites, label: label}

	// where each package-level initialiser lives, for ZReset
	type initSpec struct {
		lhs  []string
		rhs  ast.Expr
		file *ast.File
	}
	initOf := map[ast.Expr]*ast.File{}
	var zeroVars []string
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, v := range vs.Values {
					initOf[v] = f
				}
				for _, n := range vs.Names {
					if n.Name != "_" {
						zeroVars = append(zeroVars, n.Name)
					}
				}
			}
		}
	}
	order := info.InitOrder
	resetBy := map[*ast.File][]initSpec{}
	var seq []initSpec
	for _, in := range order {
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		f := initOf[in.Rhs]
		if f == nil {
			continue
		}
		sp := initSpec{lhs, in.Rhs, f}
		seq = append(seq, sp)
		resetBy[f] = append(resetBy[f], sp)
	}

	// rewrite
	initN := 0
	var initCalls []string
	for _, f := range files {
		r.file = f
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					continue
				}
				r.genDecl(x)
			case *ast.FuncDecl:
				r.fieldList(x.Recv)
				r.fieldList(x.Type.TypeParams)
				r.fieldList(x.Type.Params)
				r.fieldList(x.Type.Results)
				r.block(x.Body)
				if x.Recv == nil && x.Name.Name == "init" {
					name := fmt.Sprintf("zInit%d", initN)
					initN++
					x.Name = ast.NewIdent(name)
					initCalls = append(initCalls, name)
				}
			}
		}
	}
	// The initialiser functions: each one lives in the file of its variable so
	// that it sees the right imports.
	n := 0
	var resetCalls []string
	for _, sp := range seq {
		name := fmt.Sprintf("zVar%d", n)
		n++
		r.file = sp.file
		var lhs []ast.Expr
		for _, l := range sp.lhs {
			lhs = append(lhs, ast.NewIdent(l))
		}
		rhs := findReplaced(sp.file, sp.lhs, sp.rhs)
		sp.file.Decls = append(sp.file.Decls, &ast.FuncDecl{
			Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}},
		})
		resetCalls = append(resetCalls, name)
	}
	if len(r.errs) > 0 {
		return fmt.Errorf("cannot simulate %s:\n  %s", p.ImportPath, strings.Join(r.errs, "\n  "))
	}
	for i, f := range files {
		fixImports(f, r.used[f])
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.SourcePos | printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&buf, fset, f); err != nil {
			return err
		}
		want[p.GoFiles[i]] = true
		if err := writeIfChanged(filepath.Join(dst, p.GoFiles[i]), buf.Bytes()); err != nil {
			return err
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport z_zrt %q\n", p.Name, zrtPath)
	for i, q := range resets {
		fmt.Fprintf(&b, "import z_sub%d %q\n", i, q)
	}
	b.WriteString("\n")
	fmt.Fprintf(&b, "func init() {\n")
	for _, c := range initCalls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	fmt.Fprintf(&b, "}\n\n// ZReset puts the package's variables into the state of a freshly started process.\nfunc ZReset() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tz_sub%d.ZReset()\n", i)
	}
	for _, v := range zeroVars {
		fmt.Fprintf(&b, "\tz_zrt.Zero(&%s)\n", v)
	}
	for _, c := range resetCalls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	for _, c := range initCalls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	fmt.Fprintf(&b, "}\n\nvar _ = z_zrt.Y\n")
	want["zz_reset.go"] = true
	if adapter != nil {
		want["zz_adapter.go"] = true
		if err := writeIfChanged(filepath.Join(dst, "zz_adapter.go"), adapter); err != nil {
			return err
		}
	}
	if err := writeIfChanged(filepath.Join(dst, "zz_reset.go"), []byte(b.String())); err != nil {
		return err
	}
	return removeOthers(dst, want)
}

// findReplaced returns the (possibly replaced) initialiser expression of a
// package-level variable after rewriting.
func findReplaced(f *ast.File, lhs []string, orig ast.Expr) ast.Expr {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for i, nm := range vs.Names {
				if nm.Name == lhs[0] && len(vs.Values) > 0 {
					if len(vs.Values) == len(vs.Names) {
						return vs.Values[i]
					}
					return vs.Values[0]
				}
			}
		}
	}
	return orig
}

func fixImports(f *ast.File, used map[string]string) {
	var decls []ast.Decl
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			// keep blank imports
			var keep []ast.Spec
			for _, s := range gd.Specs {
				is := s.(*ast.ImportSpec)
				if is.Name != nil && is.Name.Name == "_" {
					keep = append(keep, s)
				}
			}
			if len(keep) == 0 {
				continue
			}
			gd.Specs = keep
		}
		decls = append(decls, d)
	}
	var paths []string
	for p := range used {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 2}
	for _, p := range paths {
		imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: ast.NewIdent(used[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
	}
	if len(imp.Specs) > 0 {
		decls = append([]ast.Decl{imp}, decls...)
	}
	f.Decls = decls
	f.Imports = nil
	f.Comments = nil
}

func writeIfChanged(path string, data []byte) error {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, data) {
		return nil
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	return os.WriteFile(path, data, 0644)
}

func removeOthers(dir string, want map[string]bool) error {
	es, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range es {
		if !e.IsDir() && !want[e.Name()] {
			os.Remove(filepath.Join(dir, e.Name()))
		}
	}
	return nil
}
