package main

import (
	"go/ast"
	"go/parser"
	"go/printer"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Map types whose code is the same except for the key type and for names
// (checked token by token) form a class: deep exploration runs on one
// representative of every class and a smaller set of scenarios on all.

type decl struct {
	name string
	toks []string
}

type source struct {
	decls   map[string]ast.Node // package-level name -> declaration
	methods map[string][]string // type -> keys of its methods in decls
	fset    *token.FileSet
}

func readSource(dir string) *source {
	s := &source{map[string]ast.Node{}, map[string][]string{}, token.NewFileSet()}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil || strings.Contains(string(b), "//go:build ignore") {
			continue
		}
		af, err := parser.ParseFile(s.fset, f, b, 0)
		if err != nil {
			return nil
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					s.decls[d.Name.Name] = d
					continue
				}
				t := d.Recv.List[0].Type
				for {
					switch x := t.(type) {
					case *ast.StarExpr:
						t = x.X
						continue
					case *ast.IndexExpr:
						t = x.X
						continue
					case *ast.IndexListExpr:
						t = x.X
						continue
					}
					break
				}
				if id, ok := t.(*ast.Ident); ok {
					k := id.Name + "." + d.Name.Name
					s.decls[k] = d
					s.methods[id.Name] = append(s.methods[id.Name], k)
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						s.decls[sp.Name.Name] = sp
					case *ast.ValueSpec:
						for _, n := range sp.Names {
							s.decls[n.Name] = sp
						}
					}
				}
			}
		}
	}
	return s
}

func (s *source) tokens(n ast.Node) []string {
	var b strings.Builder
	printer.Fprint(&b, s.fset, n)
	var sc scanner.Scanner
	fs := token.NewFileSet()
	src := []byte(b.String())
	sc.Init(fs.AddFile("", fs.Base(), len(src)), src, nil, 0)
	var out []string
	for {
		_, t, lit := sc.Scan()
		if t == token.EOF {
			return out
		}
		if t == token.SEMICOLON {
			continue
		}
		if lit == "" {
			lit = t.String()
		}
		out = append(out, lit)
	}
}

// closure lists the declarations reachable from constructor name, in a
// canonical order, with the constructor first.
func (s *source) closure(name string) []decl {
	var out []decl
	seen := map[string]bool{}
	queue := []string{name}
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if seen[k] || s.decls[k] == nil {
			continue
		}
		seen[k] = true
		t := s.tokens(s.decls[k])
		out = append(out, decl{k, t})
		var ms []string
		ms = append(ms, s.methods[k]...)
		queue = append(queue, ms...)
		ast.Inspect(s.decls[k], func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && s.decls[id.Name] != nil {
				queue = append(queue, id.Name)
			}
			return true
		})
	}
	return out
}

// sameCode reports whether two closures differ only in names of corresponding
// declarations and in kb standing where ka stood.
func sameCode(a, b []decl, ka, kb string) bool {
	if len(a) != len(b) {
		return false
	}
	ren := map[string]string{}
	for i := range a {
		x, y := a[i].name, b[i].name
		if i := strings.IndexByte(x, '.'); i >= 0 {
			x = x[i+1:]
		}
		if i := strings.IndexByte(y, '.'); i >= 0 {
			y = y[i+1:]
		}
		if old, ok := ren[x]; ok && old != y {
			return false
		}
		ren[x] = y
	}
	for i := range a {
		if len(a[i].toks) != len(b[i].toks) {
			return false
		}
		for j, t := range a[i].toks {
			u := b[i].toks[j]
			if t == u {
				continue
			}
			if t == ka && u == kb || ren[t] == u {
				continue
			}
			if (t == `""` && u == "0") || (t == "0" && u == `""`) { // zero key of the header
				continue
			}
			return false
		}
	}
	return true
}

var keyOf = map[string]string{
	"NewInt": "int", "NewIntDesc": "int", "NewInt32": "int32", "NewInt32Desc": "int32", "NewInt64": "int64", "NewInt64Desc": "int64",
	"NewUint": "uint", "NewUintDesc": "uint", "NewUint32": "uint32", "NewUint32Desc": "uint32", "NewUint64": "uint64", "NewUint64Desc": "uint64",
	"NewString": "string", "NewStringDesc": "string", "New": "keyT", "NewDesc": "keyT", "NewFunc": "keyT",
}

var (
	reprs    []*Ctor // one constructor per class
	classes  map[string]string
	classErr bool
)

// loadClasses computes the classes from the source of the code under test.
func loadClasses(dir string) {
	if classes != nil {
		return
	}
	classes = map[string]string{}
	s := readSource(dir)
	cl := map[string][]decl{}
	for i := range ctors {
		c := &ctors[i]
		rep := ""
		if s != nil && s.decls[c.Name] != nil {
			cl[c.Name] = s.closure(c.Name)
			k := keyOf[c.Name]
			for _, r := range reprs {
				if rk := keyOf[r.Name]; rk != "" && k != "" && sameCode(cl[r.Name], cl[c.Name], rk, k) {
					rep = r.Name
					break
				}
			}
			if rep == "" && k == "" {
				// The float constructors: NewFunc with another ordering.
				t := cl[c.Name][0].toks
				j := strings.Join(t, " ")
				if strings.Contains(j, "return NewFunc [") && len(t) < 60 {
					rep = "NewFunc"
				}
			}
		} else {
			classErr = true
		}
		if rep == "" {
			rep = c.Name
			reprs = append(reprs, c)
		}
		classes[c.Name] = rep
	}
}
