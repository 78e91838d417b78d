// instr copies the non-test sources of a Go module and rewrites them so that
// every lock, atomic operation, random draw and shared memory access goes
// through the controlled runtime in verifmc. Edits are insertions within
// lines, so line numbers stay those of the original files.
//
//	instr -src DIR -out DIR -rt DIR [-level full|light|imports|rand]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Imports    []string
	Module     *struct {
		Path, Dir, GoVersion string
		Main                 bool
	}
}

var replaceImports = map[string]string{
	"sync":                               "verifmc/vsync",
	"sync/atomic":                        "verifmc/vatomic",
	"github.com/zhangyunhao116/fastrand": "verifmc/vfastrand",
	"math/rand":                          "verifmc/vrand",
	"math/rand/v2":                       "verifmc/vrand2",
	"crypto/rand":                        "verifmc/vcrand",
}
var importNames = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "github.com/zhangyunhao116/fastrand": "fastrand",
	"math/rand": "rand", "math/rand/v2": "rand", "crypto/rand": "rand",
}

type info struct {
	Module      string   `json:"module"`
	Level       string   `json:"level"`
	Files       []string `json:"files"`
	Hooks       int      `json:"hooks"`
	Loops       int      `json:"loops"`
	Globals     int      `json:"globals"`
	Unsupported []string `json:"unsupported"`
	TryLock     bool     `json:"trylock"`
	Go          bool     `json:"go"`
}

var (
	out    info
	siteID int
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	dst := flag.String("out", "", "output directory")
	rt := flag.String("rt", "", "directory of the verifmc module")
	level := flag.String("level", "full", "full, light, imports or rand (the random source only)")
	flag.Parse()
	out.Level = *level

	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Imports,Module", "./...")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	exports := map[string]string{}
	var mine []listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			mine = append(mine, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range mine {
		rel, err := filepath.Rel(*src, p.Dir)
		if err != nil {
			die("%v", err)
		}
		out.Module = p.Module.Path
		instrumentPkg(fset, imp, p, filepath.Join(*dst, rel), *level)
	}
	gm, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	if out.Go {
		// Passing a generic function as an argument needs 1.21; loop variables change only in 1.22.
		gm = regexp.MustCompile(`(?m)^go 1\.(1\d|20)(\.\d+)?$`).ReplaceAll(gm, []byte("go 1.21"))
	}
	s := string(gm) + "\n\nrequire verifmc v0.0.0\n\nreplace verifmc => " + *rt + "\n"
	must(os.WriteFile(filepath.Join(*dst, "go.mod"), []byte(s), 0o644))
	if gs, err := os.ReadFile(filepath.Join(*src, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(*dst, "go.sum"), gs, 0o644))
	}
	j, _ := json.MarshalIndent(out, "", " ")
	must(os.WriteFile(filepath.Join(*dst, "instr.json"), j, 0o644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

type edit struct {
	pos  int // byte offset
	del  int // bytes to delete
	text string
	seq  int
}

type rew struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	file     *ast.File
	edits    []edit
	captured map[*types.Var]bool
	full     bool
}

func instrumentPkg(fset *token.FileSet, imp types.Importer, p listPkg, dst, level string) {
	must(os.MkdirAll(dst, 0o755))
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		must(err)
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, b)
	}
	ti := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	var terr error
	conf.Error = func(err error) {
		if terr == nil {
			terr = err
		}
	}
	tp, _ := conf.Check(p.ImportPath, fset, files, ti)
	if terr != nil && level == "full" {
		die("type check: %v", terr)
	}
	for i, f := range files {
		r := &rew{fset: fset, info: ti, pkg: tp, file: f, captured: map[*types.Var]bool{}, full: level == "full"}
		r.run(level)
		name := filepath.Base(p.GoFiles[i])
		res := r.apply(srcs[i])
		must(os.WriteFile(filepath.Join(dst, name), res, 0o644))
		out.Files = append(out.Files, filepath.Join(p.ImportPath, name))
	}
	// Package-level variables are restored before every execution.
	if tp != nil && level != "imports" && level != "rand" {
		var g []string
		for _, n := range tp.Scope().Names() {
			if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && n != "_" {
				_ = v
				g = append(g, n)
			}
		}
		out.Globals += len(g)
		if len(g) > 0 {
			s := "package " + p.Name + "\n\nimport vrt_ \"verifmc/vrt\"\n\nfunc init() {\n"
			for _, n := range g {
				s += "\tvrt_.Global(&" + n + ")\n"
			}
			must(os.WriteFile(filepath.Join(dst, "zz_vrt_globals.go"), []byte(s+"}\n"), 0o644))
		}
	}
}

func (r *rew) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rew) ins(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), 0, s, len(r.edits)})
}

func (r *rew) apply(src []byte) []byte {
	sort.SliceStable(r.edits, func(i, j int) bool { return r.edits[i].pos < r.edits[j].pos })
	var b bytes.Buffer
	last := 0
	for _, e := range r.edits {
		b.Write(src[last:e.pos])
		b.WriteString(e.text)
		last = e.pos + e.del
	}
	b.Write(src[last:])
	b.WriteString("\nvar _ = vrt_.X\n")
	return b.Bytes()
}

func (r *rew) where(n ast.Node) string {
	p := r.fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

// goStmt turns a go statement into a call of vrt.Go.
func (r *rew) goStmt(s *ast.GoStmt) bool {
	tv, ok := r.info.Types[s.Call.Fun]
	if !ok {
		return false
	}
	sig, ok := tv.Type.Underlying().(*types.Signature)
	n := len(s.Call.Args)
	if !ok || tv.IsBuiltin() || tv.IsType() || sig.Variadic() || sig.Results().Len() > 1 || n > 3 || sig.Params().Len() != n {
		return false
	}
	for i, a := range s.Call.Args {
		t := r.info.Types[a]
		b, ok := t.Type.(*types.Basic)
		if !types.Identical(t.Type, sig.Params().At(i).Type()) && !(ok && b.Info()&types.IsUntyped != 0) {
			return false
		}
	}
	name := "Go"
	if sig.Results().Len() == 1 {
		name = "GoR" + strconv.Itoa(n)
	} else if n > 0 {
		name += strconv.Itoa(n)
	}
	sep := ""
	if n > 0 {
		sep = ", "
	}
	out.Go = true
	r.edits = append(r.edits, edit{r.off(s.Go), 2, "vrt_." + name + "(", len(r.edits)})
	r.edits = append(r.edits, edit{r.off(s.Call.Lparen), 1, sep, len(r.edits)})
	return true
}

func (r *rew) run(level string) {
	// imports
	r.ins(r.file.Name.End(), "; import vrt_ \"verifmc/vrt\"")
	for _, is := range r.file.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if rep, ok := replaceImports[path]; ok && (level != "rand" || strings.Contains(path, "rand")) {
			t := strconv.Quote(rep)
			if is.Name == nil {
				t = importNames[path] + " " + t
			}
			r.edits = append(r.edits, edit{r.off(is.Path.Pos()), len(is.Path.Value), t, len(r.edits)})
		}
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			if level == "rand" || !r.goStmt(x) {
				out.Unsupported = append(out.Unsupported, "go statement at "+r.where(n))
			}
		case *ast.SelectStmt, *ast.SendStmt:
			out.Unsupported = append(out.Unsupported, "channel operation at "+r.where(n))
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				out.Unsupported = append(out.Unsupported, "channel operation at "+r.where(n))
			}
		case *ast.SelectorExpr:
			if strings.HasPrefix(x.Sel.Name, "TryLock") || strings.HasPrefix(x.Sel.Name, "TryRLock") {
				out.TryLock = true
			}
		}
		return true
	})
	if level == "imports" || level == "rand" {
		return
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch f := n.(type) {
		case *ast.ForStmt:
			// How many identical read-only iterations make a wait.
			need := 2
			if f.Post != nil {
				need = 3
				if f.Cond != nil {
					need = 40
				}
			}
			r.loop(f.Body.Lbrace+1, need, f.Post != nil && f.Cond != nil || r.counts(f.Body))
		case *ast.FuncDecl:
			if f.Body != nil && selfCalls(f) {
				r.loop(f.Body.Lbrace+1, 2, true)
			}
			if f.Body != nil {
				r.gotoLoops(f.Body)
			}
		}
		return true
	})
	if level == "light" {
		return
	}
	r.findCaptured()
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.stmt(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					for _, v := range s.(*ast.ValueSpec).Values {
						r.expr(v, mRead)
					}
				}
			}
		}
	}
}

func (r *rew) loop(at token.Pos, need int, counts bool) {
	siteID++
	out.Loops++
	r.ins(at, fmt.Sprintf(" vrt_.Loop(%d, %d, %v); ", siteID, need, counts))
}

// counts reports whether iterations of a loop body may differ although they
// read the same: it updates a local variable from its own value, calls a method
// of a local variable or calls a local function.
func (r *rew) counts(b *ast.BlockStmt) bool {
	outer := func(e ast.Expr) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.Ident:
				v, ok := r.info.ObjectOf(x).(*types.Var)
				if !ok || v.IsField() || v.Parent() == r.pkg.Scope() || v.Pos() >= b.Pos() && v.Pos() < b.End() {
					return nil
				}
				return v
			}
			return nil
		}
	}
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IncDecStmt:
			found = found || outer(x.X) != nil
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				v := outer(l)
				if v == nil {
					continue
				}
				if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
					found = true
				}
				if x.Tok == token.ASSIGN && len(x.Lhs) == len(x.Rhs) {
					ast.Inspect(x.Rhs[i], func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok && r.info.ObjectOf(id) == v {
							found = true
						}
						return true
					})
				}
			}
		case *ast.CallExpr:
			switch f := ast.Unparen(x.Fun).(type) {
			case *ast.Ident:
				found = found || outer(f) != nil
			case *ast.SelectorExpr:
				if s := r.info.Selections[f]; s != nil && s.Kind() == types.MethodVal {
					if v := outer(f.X); v != nil && !isPtr(v.Type()) && !isInterface(v.Type()) {
						if _, sel := ast.Unparen(f.X).(*ast.Ident); sel {
							found = true
						}
					}
				}
			}
		}
		return !found
	})
	return found
}

func isInterface(t types.Type) bool { return t != nil && types.IsInterface(t) }

// selfCalls reports whether f calls a function or method of its own name.
func selfCalls(f *ast.FuncDecl) bool {
	found := false
	ast.Inspect(f.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			switch g := ast.Unparen(c.Fun).(type) {
			case *ast.Ident:
				found = found || f.Recv == nil && g.Name == f.Name.Name
			case *ast.SelectorExpr:
				found = found || f.Recv != nil && g.Sel.Name == f.Name.Name
			}
		}
		return !found
	})
	return found
}

// gotoLoops hooks labels that are the target of a backward goto.
func (r *rew) gotoLoops(b *ast.BlockStmt) {
	target := map[string]bool{}
	other := map[string]bool{}
	ast.Inspect(b, func(n ast.Node) bool {
		if s, ok := n.(*ast.BranchStmt); ok && s.Label != nil {
			if s.Tok == token.GOTO {
				target[s.Label.Name] = true
			} else {
				other[s.Label.Name] = true
			}
		}
		return true
	})
	ast.Inspect(b, func(n ast.Node) bool {
		if l, ok := n.(*ast.LabeledStmt); ok && target[l.Label.Name] && !other[l.Label.Name] {
			r.loop(l.Colon+1, 2, true)
		}
		return true
	})
}

func (r *rew) findCaptured() {
	var stack []ast.Node
	decl := map[*types.Var]ast.Node{}
	type use struct {
		v *types.Var
		f ast.Node
	}
	var uses []use
	var walk func(n ast.Node)
	cur := func() ast.Node {
		if len(stack) == 0 {
			return nil
		}
		return stack[len(stack)-1]
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				stack = append(stack, m)
				walk(m)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				if v, ok := r.info.Defs[m].(*types.Var); ok && !v.IsField() {
					decl[v] = cur()
				}
				if v, ok := r.info.Uses[m].(*types.Var); ok && !v.IsField() && v.Parent() != r.pkg.Scope() {
					uses = append(uses, use{v, cur()})
				}
			}
			return true
		})
	}
	walk(r.file)
	for _, u := range uses {
		if d, ok := decl[u.v]; ok && d != u.f {
			r.captured[u.v] = true
		}
	}
}

type mode int

const (
	mRead mode = iota
	mWrite
	mRW
	mAddr
)

func (r *rew) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *rew) wrap(e ast.Expr, m mode) {
	t := r.typ(e)
	if t == nil || m == mAddr {
		return
	}
	fn := [...]string{"R", "W", "RW"}[m]
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		fn += "S"
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			fn += "S"
		}
	case *types.Tuple, *types.Signature:
		if _, ok := t.Underlying().(*types.Tuple); ok {
			return
		}
	}
	r.insPre(e.Pos(), "(*vrt_."+fn+"(&")
	r.insPost(e.End(), "))")
	out.Hooks++
}

// insPre/insPost keep nesting right: outer prefixes are inserted before inner
// ones (wrap is called before descending) and outer suffixes after inner ones.
func (r *rew) insPre(p token.Pos, s string) { r.ins(p, s) }
func (r *rew) insPost(p token.Pos, s string) {
	// insert before already recorded suffixes of enclosing expressions ending here
	o := r.off(p)
	i := len(r.edits)
	for j, e := range r.edits {
		if e.pos == o && strings.HasPrefix(e.text, ")") {
			i = j
			break
		}
	}
	r.edits = append(r.edits, edit{})
	copy(r.edits[i+1:], r.edits[i:])
	r.edits[i] = edit{o, 0, s, 0}
}

func (r *rew) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

func (r *rew) sharedVar(id *ast.Ident) bool {
	v, ok := r.info.ObjectOf(id).(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	if v.Parent() == r.pkg.Scope() {
		return true
	}
	return r.captured[v]
}

// shared reports whether e denotes storage that other threads may reach.
func (r *rew) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		return e.Name != "_" && r.sharedVar(e)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if isPtr(r.typ(e.X)) || s.Indirect() {
			return true
		}
		return r.shared(e.X)
	case *ast.IndexExpr:
		t := r.typ(e.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.shared(e.X)
		}
	}
	return false
}

func (r *rew) expr(e ast.Expr, m mode) {
	if e == nil {
		return
	}
	if tv, ok := r.info.Types[e]; ok && (tv.Value != nil || tv.IsType() || tv.IsBuiltin() || tv.IsNil()) {
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		r.expr(e.X, m)
	case *ast.Ident:
		if m != mAddr && e.Name != "_" && r.sharedVar(e) {
			r.wrap(e, m)
		}
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil {
			return
		}
		switch s.Kind() {
		case types.FieldVal:
			if r.shared(e) {
				r.wrap(e, m)
			}
			if isPtr(r.typ(e.X)) {
				r.expr(e.X, mRead)
			} else if r.addressable(e.X) {
				r.expr(e.X, mAddr)
			} else {
				r.expr(e.X, mRead)
			}
		case types.MethodVal:
			sig, _ := s.Obj().Type().(*types.Signature)
			ptrRecv := sig != nil && sig.Recv() != nil && isPtr(sig.Recv().Type())
			bt := r.typ(e.X)
			if ptrRecv && !isPtr(bt) {
				r.expr(e.X, mAddr)
			} else if !ptrRecv && isPtr(bt) && len(s.Index()) == 1 {
				if _, ok := bt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Interface); !ok {
					r.insPre(e.X.Pos(), "(*vrt_.RS(")
					r.insPost(e.X.End(), "))")
				}
				r.expr(e.X, mRead)
			} else {
				r.expr(e.X, mRead)
			}
		}
	case *ast.IndexExpr:
		t := r.typ(e.X)
		if t == nil || r.isType(e.Index) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Signature:
			return
		case *types.Slice:
			r.wrap(e, m)
			r.expr(e.X, mRead)
		case *types.Pointer:
			r.wrap(e, m)
			r.expr(e.X, mRead)
		case *types.Array:
			if r.shared(e) {
				r.wrap(e, m)
			}
			if r.addressable(e.X) {
				r.expr(e.X, mAddr)
			} else {
				r.expr(e.X, mRead)
			}
		case *types.Map:
			fn := "vrt_.MR("
			if m != mRead {
				fn = "vrt_.MW("
			}
			r.insPre(e.X.Pos(), fn)
			r.insPost(e.X.End(), ")")
			r.expr(e.X, mRead)
		default:
			_ = u
			r.expr(e.X, mRead)
		}
		r.expr(e.Index, mRead)
	case *ast.StarExpr:
		r.wrap(e, m)
		r.expr(e.X, mRead)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			r.expr(e.X, mAddr)
		} else {
			r.expr(e.X, mRead)
		}
	case *ast.BinaryExpr:
		r.expr(e.X, mRead)
		r.expr(e.Y, mRead)
	case *ast.CallExpr:
		if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
			if _, isB := r.info.Uses[id].(*types.Builtin); isB {
				for i, a := range e.Args {
					if i == 0 && id.Name == "delete" {
						r.insPre(a.Pos(), "vrt_.MW(")
						r.insPost(a.End(), ")")
					}
					r.expr(a, mRead)
				}
				return
			}
		}
		if sel, ok := ast.Unparen(e.Fun).(*ast.SelectorExpr); ok {
			if _, isB := r.info.Uses[sel.Sel].(*types.Builtin); isB { // unsafe.*
				for _, a := range e.Args {
					r.expr(a, mRead)
				}
				return
			}
		}
		if !r.isType(e.Fun) {
			r.expr(e.Fun, mRead)
		}
		for _, a := range e.Args {
			r.expr(a, mRead)
		}
	case *ast.CompositeLit:
		t := r.typ(e)
		_, isStruct := under(t).(*types.Struct)
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					r.expr(kv.Key, mRead)
				}
				r.expr(kv.Value, mRead)
			} else {
				r.expr(el, mRead)
			}
		}
	case *ast.FuncLit:
		r.stmt(e.Body)
	case *ast.TypeAssertExpr:
		r.expr(e.X, mRead)
	case *ast.SliceExpr:
		if _, ok := under(r.typ(e.X)).(*types.Array); ok {
			r.expr(e.X, mAddr)
		} else {
			r.expr(e.X, mRead)
		}
		r.expr(e.Low, mRead)
		r.expr(e.High, mRead)
		r.expr(e.Max, mRead)
	case *ast.KeyValueExpr:
		r.expr(e.Value, mRead)
	}
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok {
			return p.Elem().Underlying()
		}
	}
	return u
}

func (r *rew) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.Addressable()
}

func hasCall(info *types.Info, e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch c := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			found = true
		}
		return !found
	})
	return found
}

func (r *rew) stmt(n ast.Node) {
	if n == nil {
		return
	}
	switch s := n.(type) {
	case *ast.BlockStmt:
		if s == nil {
			return
		}
		for _, x := range s.List {
			r.stmt(x)
		}
	case *ast.ExprStmt:
		r.expr(s.X, mRead)
	case *ast.AssignStmt:
		switch s.Tok {
		case token.DEFINE:
			for _, x := range s.Rhs {
				r.expr(x, mRead)
			}
		case token.ASSIGN:
			if len(s.Lhs) == 1 && len(s.Rhs) == 1 && hasCall(r.info, s.Rhs[0]) && r.shared(s.Lhs[0]) {
				l := s.Lhs[0]
				if _, isMap := l.(*ast.IndexExpr); !isMap || !isMapIndex(r, l) {
					fn := "WSet"
					switch r.typ(l).Underlying().(type) {
					case *types.Struct, *types.Array, *types.Interface:
						fn = "WSetS"
					}
					r.ins(l.Pos(), "vrt_."+fn+"(&")
					r.expr(l, mAddr)
					r.edits = append(r.edits, edit{r.off(s.TokPos), 1, ")(", len(r.edits)})
					r.expr(s.Rhs[0], mRead)
					r.edits = append(r.edits, edit{r.off(s.Rhs[0].End()), 0, ")", len(r.edits)})
					out.Hooks++
					return
				}
			}
			for _, x := range s.Lhs {
				r.expr(x, mWrite)
			}
			for _, x := range s.Rhs {
				r.expr(x, mRead)
			}
		default:
			for _, x := range s.Lhs {
				r.expr(x, mRW)
			}
			for _, x := range s.Rhs {
				r.expr(x, mRead)
			}
		}
	case *ast.IncDecStmt:
		r.expr(s.X, mRW)
	case *ast.ReturnStmt:
		for _, x := range s.Results {
			r.expr(x, mRead)
		}
	case *ast.IfStmt:
		r.stmtN(s.Init)
		r.expr(s.Cond, mRead)
		r.stmt(s.Body)
		r.stmtN(s.Else)
	case *ast.ForStmt:
		r.stmtN(s.Init)
		r.expr(s.Cond, mRead)
		r.stmtN(s.Post)
		r.stmt(s.Body)
	case *ast.RangeStmt:
		if s.Tok == token.ASSIGN {
			r.expr(s.Key, mWrite)
			r.expr(s.Value, mWrite)
		}
		t := r.typ(s.X)
		if _, ok := t.Underlying().(*types.Array); ok {
			r.expr(s.X, mAddr)
		} else {
			r.expr(s.X, mRead)
		}
		r.stmt(s.Body)
	case *ast.SwitchStmt:
		r.stmtN(s.Init)
		r.expr(s.Tag, mRead)
		r.stmt(s.Body)
	case *ast.TypeSwitchStmt:
		r.stmtN(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			r.expr(a.X, mRead)
		case *ast.AssignStmt:
			r.expr(a.Rhs[0], mRead)
		}
		r.stmt(s.Body)
	case *ast.CaseClause:
		for _, x := range s.List {
			r.expr(x, mRead)
		}
		for _, x := range s.Body {
			r.stmt(x)
		}
	case *ast.LabeledStmt:
		r.stmt(s.Stmt)
	case *ast.DeferStmt:
		r.expr(s.Call, mRead)
	case *ast.GoStmt:
		r.expr(s.Call, mRead)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				for _, v := range sp.(*ast.ValueSpec).Values {
					r.expr(v, mRead)
				}
			}
		}
	case *ast.CommClause:
		for _, x := range s.Body {
			r.stmt(x)
		}
	case *ast.SelectStmt:
		r.stmt(s.Body)
	}
}

func isMapIndex(r *rew, e ast.Expr) bool {
	ix, ok := e.(*ast.IndexExpr)
	if !ok {
		return false
	}
	_, ok = r.typ(ix.X).Underlying().(*types.Map)
	return ok
}

func (r *rew) stmtN(s ast.Stmt) {
	if s != nil {
		r.stmt(s)
	}
}
