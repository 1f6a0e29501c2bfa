package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type rewriter struct {
	fset *token.FileSet
	p    *pkg
	file *ast.File
	need map[string]string // alias -> import path
	tmp  int
	tick bool
}

// aliases of the replacement packages.
const (
	aVS   = "vs__"
	aCore = "core__"
)

var aliasPath = map[string]string{
	aVS:          vsimPath + "/vs",
	aCore:        vsimPath + "/core",
	"ssync__":    vsimPath + "/ssync",
	"satomic__":  vsimPath + "/satomic",
	"stime__":    vsimPath + "/stime",
	"srand__":    vsimPath + "/srand",
	"scrand__":   vsimPath + "/scrand",
	"sruntime__": vsimPath + "/sruntime",
	"scontext__": ctxPath,
	"sreflect__": "reflect",
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

// replaced maps an import path to the alias of its replacement; a nil set means every name.
var replaced = map[string]struct {
	alias string
	names map[string]bool
	not   map[string]bool
}{
	"sync":                 {alias: "ssync__"},
	"sync/atomic":          {alias: "satomic__"},
	"context":              {alias: "scontext__"},
	"time":                 {alias: "stime__", names: set("Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker")},
	"math/rand":            {alias: "srand__", not: set("New NewSource NewZipf Rand Source Source64 Zipf")},
	"math/rand/v2":         {alias: "srand__", not: set("New NewPCG NewChaCha8 NewZipf Rand Source PCG ChaCha8 Zipf")},
	"crypto/rand":          {alias: "scrand__"},
	"runtime":              {alias: "sruntime__", names: set("Gosched NumGoroutine GOMAXPROCS NumCPU GC SetFinalizer")},
	"internal/reflectlite": {alias: "sreflect__"},
}

var banned = map[string]map[string]bool{
	"reflect":   set("Select ChanOf"),
	"io":        set("Pipe"),
	"os/signal": nil,
	"net":       nil,
	"net/http":  nil,
	"os/exec":   nil,
	"plugin":    nil,
}

func (r *rewriter) fail(n ast.Node, format string, a ...interface{}) {
	fatal("%s: %s", r.fset.Position(n.Pos()), fmt.Sprintf(format, a...))
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rewriter) q(alias, name string) ast.Expr {
	r.need[alias] = aliasPath[alias]
	return &ast.SelectorExpr{X: id(alias), Sel: id(name)}
}

func (r *rewriter) fresh(p string) string {
	r.tmp++
	return fmt.Sprintf("%s__%d", p, r.tmp)
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func sel(x ast.Expr, n string) ast.Expr { return &ast.SelectorExpr{X: x, Sel: id(n)} }

func define(rhs ast.Expr, lhs ...string) ast.Stmt {
	a := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
	for _, l := range lhs {
		a.Lhs = append(a.Lhs, id(l))
	}
	return a
}

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

func (r *rewriter) site(n ast.Node) string {
	p := r.fset.Position(n.Pos())
	return r.p.tp.Name() + "/" + filepath.Base(p.Filename) + ":" + strconv.Itoa(p.Line)
}

func (r *rewriter) rewrite(dir string) {
	info := r.p.info
	r.tick = r.p.j.Module == nil || r.p.j.Module.Path != harnessPath
	if r.p.out == ctxPath {
		r.tick = false
	}
	varFile := map[types.Object]int{}
	var userInits []string
	for i, f := range r.p.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if o := info.Defs[n]; o != nil {
							varFile[o] = i
						}
					}
				}
			}
		}
	}
	rhsFile := func(e ast.Expr) int {
		for i, f := range r.p.files {
			if f.FileStart <= e.Pos() && e.Pos() < f.FileEnd {
				return i
			}
		}
		return 0
	}
	extra := make([][]ast.Decl, len(r.p.files))
	needs := make([]map[string]string, len(r.p.files))
	var resetBody []ast.Stmt
	directives := map[*ast.FuncDecl][]string{}

	// initialisers keep pointing at the expressions that are rewritten in place below, so collect
	// the holders first
	type holder struct {
		spec *ast.ValueSpec
		idx  int
	}
	find := func(e ast.Expr) *holder {
		for _, f := range r.p.files {
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						vs := s.(*ast.ValueSpec)
						for k, v := range vs.Values {
							if v == e {
								return &holder{vs, k}
							}
						}
					}
				}
			}
		}
		return nil
	}
	var hold []*holder
	for _, in := range info.InitOrder {
		h := find(in.Rhs)
		if h == nil {
			fatal("%s: initialiser not found", r.p.j.ImportPath)
		}
		hold = append(hold, h)
	}
	initialised := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			initialised[l] = true
		}
	}

	for i, f := range r.p.files {
		r.file = f
		r.need = map[string]string{}
		needs[i] = r.need
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if im.Name != nil && im.Name.Name == "." && !strings.HasPrefix(path, vsimPath) {
				r.fail(im, "dot imports are not supported")
			}
			if b, ok := banned[path]; ok && b == nil {
				r.fail(im, "package %s is not simulated", path)
			}
		}
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:linkname") && r.p.out != ctxPath {
					r.fail(c, "go:linkname is not supported")
				}
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Doc != nil {
					for _, c := range d.Doc.List {
						if c.Text == "//go:noinline" {
							directives[d] = append(directives[d], c.Text)
						}
					}
				}
				d.Doc = nil
				if d.Recv != nil {
					r.fields(d.Recv)
				}
				r.funcType(d.Type)
				if d.Body == nil {
					r.fail(d, "function without body")
				}
				r.block(d.Body)
				if d.Recv == nil && d.Name.Name == "init" {
					n := fmt.Sprintf("vsuserinit__%d", len(userInits))
					d.Name = id(n)
					userInits = append(userInits, n)
				}
			case *ast.GenDecl:
				r.genDecl(d)
			}
		}
	}
	for k, in := range info.InitOrder {
		h := hold[k]
		i := rhsFile(in.Rhs)
		r.need = needs[i]
		name := fmt.Sprintf("vsinit__%d", k)
		as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{h.spec.Values[h.idx]}}
		for _, l := range in.Lhs {
			as.Lhs = append(as.Lhs, id(l.Name()))
		}
		if len(in.Lhs) == 1 && in.Lhs[0].Name() == "_" && h.spec.Type != nil {
			// var _ T = rhs
			as = nil
		}
		var body []ast.Stmt
		if as != nil {
			body = append(body, as)
		}
		extra[i] = append(extra[i], &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
		resetBody = append(resetBody, &ast.ExprStmt{X: call(id(name))})
	}
	// zero the variables that have no initialiser, before everything else
	r.need = needs[0]
	var zero []ast.Stmt
	scope := r.p.tp.Scope()
	for _, n := range scope.Names() {
		v, ok := scope.Lookup(n).(*types.Var)
		if !ok || initialised[v] {
			continue
		}
		zero = append(zero, &ast.ExprStmt{X: call(r.q(aVS, "Zero"), &ast.UnaryExpr{Op: token.AND, X: id(n)})})
	}
	resetBody = append(zero, resetBody...)
	var initBody []ast.Stmt
	for _, u := range userInits {
		resetBody = append(resetBody, &ast.ExprStmt{X: call(id(u))})
		initBody = append(initBody, &ast.ExprStmt{X: call(id(u))})
	}
	initBody = append(initBody, &ast.ExprStmt{X: call(r.q(aCore, "RegisterReset"), str(r.p.j.ImportPath), id("vsreset__"))})
	extra[0] = append(extra[0],
		&ast.FuncDecl{Name: id("vsreset__"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: resetBody}},
		&ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: initBody}})

	for i, f := range r.p.files {
		f.Decls = append(f.Decls, extra[i]...)
		r.imports(f, needs[i])
		f.Comments = nil
		f.Doc = nil
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "package %s\n\n", f.Name.Name)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				for _, c := range directives[fd] {
					buf.WriteString(c + "\n")
				}
			}
			if err := (&printer.Config{Mode: printer.RawFormat, Tabwidth: 4}).Fprint(&buf, r.fset, d); err != nil {
				fatal("print: %v", err)
			}
			buf.WriteString("\n\n")
		}
		must(os.WriteFile(filepath.Join(dir, r.p.names[i]), buf.Bytes(), 0o644))
	}
}

func (r *rewriter) imports(f *ast.File, need map[string]string) {
	used := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok {
					used[x.Name] = true
				}
			}
			return true
		})
	}
	var specs []ast.Spec
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		} else if o := r.p.info.Implicits[im]; o != nil {
			name = o.Name()
		}
		if name != "_" && name != "." && !used[name] {
			continue
		}
		sp := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
		if name != "" {
			sp.Name = id(name)
		}
		specs = append(specs, sp)
	}
	for _, a := range sortedKeys(need) {
		if used[a] {
			specs = append(specs, &ast.ImportSpec{Name: id(a), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(need[a])}})
		}
	}
	var decls []ast.Decl
	for _, s := range specs {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j-1] > ks[j]; j-- {
			ks[j-1], ks[j] = ks[j], ks[j-1]
		}
	}
	return ks
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	d.Doc = nil
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			s.Type = r.expr(s.Type)
			r.exprs(s.Values)
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			if s.TypeParams != nil {
				r.fields(s.TypeParams)
			}
			s.Type = r.expr(s.Type)
		}
	}
}

func (r *rewriter) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if t, ok := r.p.info.Types[e]; ok {
		return t.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.p.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func chanOf(t types.Type) *types.Chan {
	if t == nil {
		return nil
	}
	c, _ := t.Underlying().(*types.Chan)
	if c == nil {
		if tp, ok := t.(*types.TypeParam); ok {
			if u, ok := tp.Constraint().Underlying().(*types.Interface); ok && u.NumEmbeddeds() == 1 {
				if un, ok := u.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
					c, _ = un.Term(0).Type().Underlying().(*types.Chan)
				}
			}
		}
	}
	return c
}

// side returns the wrapper for a channel of type t used for receiving or sending.
func (r *rewriter) rc(ch ast.Expr) ast.Expr { return call(r.q(aVS, "Rc"), r.expr(ch)) }
func (r *rewriter) sc(ch ast.Expr) ast.Expr { return call(r.q(aVS, "Sc"), r.expr(ch)) }

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	info := r.p.info
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if pn, ok := info.Uses[x].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if b, ok := banned[path]; ok && (b == nil || b[e.Sel.Name]) {
					r.fail(e, "%s.%s is not simulated", path, e.Sel.Name)
				}
				if rp, ok := replaced[path]; ok {
					n := e.Sel.Name
					if (rp.names == nil || rp.names[n]) && !rp.not[n] {
						return r.q(rp.alias, n)
					}
				}
				return e
			}
		}
		if s := info.Selections[e]; s != nil && s.Kind() != types.FieldVal {
			if f, ok := s.Obj().(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "reflect" {
				switch f.FullName() {
				case "(reflect.Value).Send", "(reflect.Value).Recv", "(reflect.Value).TrySend", "(reflect.Value).TryRecv",
					"(reflect.Value).Close", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(reflect.Value).Seq", "(reflect.Value).Seq2":
					r.fail(e, "%s is not simulated", f.FullName())
				}
			}
		}
		e.X = r.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			tv := info.Types[e]
			m := "Recv"
			if _, ok := tv.Type.(*types.Tuple); ok {
				m = "Recv2"
			}
			return call(sel(r.rc(e.X), m))
		}
		e.X = r.expr(e.X)
		return e
	case *ast.CallExpr:
		if tv, ok := info.Types[ast.Unparen(e.Fun)]; ok && tv.IsBuiltin() {
			name := ""
			switch f := ast.Unparen(e.Fun).(type) {
			case *ast.Ident:
				name = f.Name
			case *ast.SelectorExpr:
				name = f.Sel.Name
			}
			if len(e.Args) == 1 {
				if c := chanOf(r.typeOf(e.Args[0])); c != nil {
					switch name {
					case "close":
						return call(sel(r.sc(e.Args[0]), "Close"))
					case "len":
						if c.Dir() == types.SendOnly {
							return call(sel(r.sc(e.Args[0]), "Len"))
						}
						return call(sel(r.rc(e.Args[0]), "Len"))
					}
				}
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
		return e
	case *ast.FuncLit:
		r.funcType(e.Type)
		r.block(e.Body)
		return e
	case *ast.CompositeLit:
		keyed := keyedByPointers(r.typeOf(e))
		e.Type = r.expr(e.Type)
		for i := range e.Elts {
			kv, ok := e.Elts[i].(*ast.KeyValueExpr)
			if keyed && ok {
				if c, elided := kv.Key.(*ast.CompositeLit); !elided || c.Type != nil {
					kv.Key = r.mapKey(kv.Key)
					kv.Value = r.expr(kv.Value)
					continue
				}
			}
			e.Elts[i] = r.expr(e.Elts[i])
		}
		return e
	case *ast.KeyValueExpr:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
		return e
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
		return e
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low, e.High, e.Max = r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		e.Type = r.expr(e.Type)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
		return e
	case *ast.Ellipsis:
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.ArrayType:
		e.Len, e.Elt = r.expr(e.Len), r.expr(e.Elt)
		return e
	case *ast.StructType:
		r.fields(e.Fields)
		return e
	case *ast.FuncType:
		r.funcType(e)
		return e
	case *ast.InterfaceType:
		r.fields(e.Methods)
		return e
	case *ast.MapType:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
		return e
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
		return e
	}
	r.fail(e, "unknown expression %T", e)
	return nil
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
	}
}

func (r *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s, ""))
	}
	return out
}

func (r *rewriter) tickStmt() []ast.Stmt {
	if !r.tick {
		return nil
	}
	return []ast.Stmt{&ast.ExprStmt{X: call(r.q(aCore, "Tick"))}}
}

func (r *rewriter) label(label string, s ast.Stmt) ast.Stmt {
	if label == "" {
		return s
	}
	return &ast.LabeledStmt{Label: id(label), Stmt: s}
}

func (r *rewriter) stmt(s ast.Stmt, label string) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return r.stmt(s.Stmt, s.Label.Name)
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.RangeStmt:
		return r.label(label, r.rangeStmt(s))
	}
	return r.label(label, func() ast.Stmt {
		switch s := s.(type) {
		case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
			return s
		case *ast.DeclStmt:
			if g, ok := s.Decl.(*ast.GenDecl); ok {
				r.genDecl(g)
			}
			return s
		case *ast.ExprStmt:
			s.X = r.expr(s.X)
			return s
		case *ast.SendStmt:
			return &ast.ExprStmt{X: call(sel(r.sc(s.Chan), "Send"), r.expr(s.Value))}
		case *ast.IncDecStmt:
			s.X = r.target(s.X)
			return s
		case *ast.AssignStmt:
			for i := range s.Lhs {
				s.Lhs[i] = r.target(s.Lhs[i])
			}
			r.exprs(s.Rhs)
			return s
		case *ast.GoStmt:
			return r.goStmt(s)
		case *ast.DeferStmt:
			c := r.expr(s.Call)
			s.Call = c.(*ast.CallExpr)
			return s
		case *ast.ReturnStmt:
			r.exprs(s.Results)
			return s
		case *ast.BlockStmt:
			r.block(s)
			return s
		case *ast.IfStmt:
			s.Init = r.stmt(s.Init, "")
			s.Cond = r.expr(s.Cond)
			r.block(s.Body)
			s.Else = r.stmt(s.Else, "")
			return s
		case *ast.CaseClause:
			r.exprs(s.List)
			s.Body = r.list(s.Body)
			return s
		case *ast.SwitchStmt:
			s.Init = r.stmt(s.Init, "")
			s.Tag = r.expr(s.Tag)
			r.block(s.Body)
			return s
		case *ast.TypeSwitchStmt:
			s.Init = r.stmt(s.Init, "")
			s.Assign = r.stmt(s.Assign, "")
			r.block(s.Body)
			return s
		case *ast.ForStmt:
			s.Init = r.stmt(s.Init, "")
			s.Cond = r.expr(s.Cond)
			s.Post = r.stmt(s.Post, "")
			r.block(s.Body)
			s.Body.List = append(r.tickStmt(), s.Body.List...)
			return s
		}
		r.fail(s, "unknown statement %T", s)
		return nil
	}())
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

// target rewrites what is assigned to.
func (r *rewriter) target(e ast.Expr) ast.Expr {
	if x, ok := ast.Unparen(e).(*ast.IndexExpr); ok && keyedByPointers(r.typeOf(x.X)) {
		x.X = r.expr(x.X)
		x.Index = r.mapKey(x.Index)
		return x
	}
	return r.expr(e)
}

// mapKey rewrites a key that is inserted into a map.
func (r *rewriter) mapKey(e ast.Expr) ast.Expr {
	if b, ok := r.typeOf(e).(*types.Basic); ok && b.Kind() != types.UnsafePointer {
		return r.expr(e) // constants and nil, too
	}
	return call(r.q(aVS, "MK"), r.expr(e))
}

// keyedByPointers reports whether t is a map whose order of keys is not given by their values.
func keyedByPointers(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, basic := m.Key().Underlying().(*types.Basic)
	return !basic || b.Kind() == types.UnsafePointer
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(s.X)
	if c := chanOf(t); c != nil {
		cn, vn, okn := r.fresh("c"), r.fresh("v"), r.fresh("ok")
		f := &ast.ForStmt{}
		var pre []ast.Stmt
		pre = append(pre, r.tickStmt()...)
		rcv := call(sel(id(cn), "Recv2"))
		if blank(s.Key) {
			f.Init = define(r.rc(s.X), cn)
			pre = append(pre, define(rcv, "_", okn))
		} else {
			if s.Tok == token.DEFINE {
				f.Init = define(call(r.q(aVS, "Rc2"), r.expr(s.X)), cn, s.Key.(*ast.Ident).Name)
			} else {
				f.Init = define(r.rc(s.X), cn)
			}
			pre = append(pre, define(rcv, vn, okn))
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(okn)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if !blank(s.Key) {
			lhs := s.Key
			if s.Tok != token.DEFINE {
				lhs = r.expr(lhs)
			} else {
				lhs = id(s.Key.(*ast.Ident).Name)
			}
			pre = append(pre, &ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{lhs}, Rhs: []ast.Expr{id(vn)}})
		}
		r.block(s.Body)
		f.Body = &ast.BlockStmt{List: append(pre, s.Body.List...)}
		return f
	}
	isMap := false
	if t != nil {
		_, isMap = t.Underlying().(*types.Map)
	}
	if isMap {
		it := r.fresh("it")
		f := &ast.ForStmt{}
		var pre []ast.Stmt
		pre = append(pre, r.tickStmt()...)
		kn, vn := "", ""
		if s.Tok == token.DEFINE {
			if !blank(s.Key) {
				kn = s.Key.(*ast.Ident).Name
			}
			if !blank(s.Value) {
				vn = s.Value.(*ast.Ident).Name
			}
		} else {
			if !blank(s.Key) {
				kn = r.fresh("k")
				pre = append(pre, &ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{r.expr(s.Key)}, Rhs: []ast.Expr{id(kn)}})
			}
			if !blank(s.Value) {
				vn = r.fresh("v")
				pre = append(pre, &ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{r.expr(s.Value)}, Rhs: []ast.Expr{id(vn)}})
			}
		}
		x := r.expr(s.X)
		arg := func(n string) ast.Expr {
			if n == "" {
				return id("nil")
			}
			return &ast.UnaryExpr{Op: token.AND, X: id(n)}
		}
		switch {
		case kn != "" && vn != "":
			f.Init = define(call(r.q(aVS, "MapIterKV"), x), it, kn, vn)
		case kn != "":
			f.Init = define(call(r.q(aVS, "MapIterK"), x), it, kn)
		case vn != "":
			f.Init = define(call(r.q(aVS, "MapIterV"), x), it, vn)
		default:
			f.Init = define(call(r.q(aVS, "MapIter"), x), it)
		}
		f.Cond = call(sel(id(it), "Next"), arg(kn), arg(vn))
		r.block(s.Body)
		f.Body = &ast.BlockStmt{List: append(pre, s.Body.List...)}
		return f
	}
	if s.Tok != token.DEFINE {
		if s.Key != nil {
			s.Key = r.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = r.expr(s.Value)
		}
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	s.Body.List = append(r.tickStmt(), s.Body.List...)
	return s
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label string) ast.Stmt {
	unreachable := &ast.ExprStmt{X: call(id("panic"), str("unreachable"))}
	if len(s.Body.List) == 0 {
		return r.label(label, &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(r.q(aVS, "BlockForever"))}, unreachable}})
	}
	var pre []ast.Stmt
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	var names []ast.Expr
	n := 0
	for _, cs := range s.Body.List {
		cc := cs.(*ast.CommClause)
		var head []ast.Stmt
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.list(cc.Body)})
			continue
		}
		name := r.fresh("s")
		recvOf := func(e ast.Expr) ast.Expr {
			u, ok := ast.Unparen(e).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				r.fail(e, "unexpected select case")
			}
			return u.X
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(call(sel(call(r.q(aVS, "SelSend"), r.expr(c.Chan)), "With"), r.expr(c.Value)), name))
		case *ast.ExprStmt:
			pre = append(pre, define(call(r.q(aVS, "SelRecv"), r.expr(recvOf(c.X))), name))
		case *ast.AssignStmt:
			pre = append(pre, define(call(r.q(aVS, "SelRecv"), r.expr(recvOf(c.Rhs[0]))), name))
			if c.Tok != token.DEFINE {
				r.exprs(c.Lhs)
			}
			m := "V"
			if len(c.Lhs) == 2 {
				m = "V2"
			}
			head = append(head, &ast.AssignStmt{Tok: c.Tok, Lhs: c.Lhs, Rhs: []ast.Expr{call(sel(id(name), m))}})
		default:
			r.fail(cc, "unexpected select case %T", c)
		}
		names = append(names, id(name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}},
			Body: append(head, r.list(cc.Body)...),
		})
		n++
	}
	d := "false"
	if hasDefault {
		d = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{unreachable}})
	}
	sw.Tag = call(r.q(aVS, "Select"), append([]ast.Expr{id(d)}, names...)...)
	return &ast.BlockStmt{List: append(pre, r.label(label, sw))}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	info := r.p.info
	c := s.Call
	site := r.site(s)
	var pre []ast.Stmt
	fun := ast.Unparen(c.Fun)
	builtin := false
	if tv, ok := info.Types[fun]; ok && tv.IsBuiltin() {
		builtin = true
	}
	lit, isLit := fun.(*ast.FuncLit)
	if isLit && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(r.q(aVS, "Go"), str(site), r.expr(lit))}
	}
	inline := builtin
	if i, ok := fun.(*ast.Ident); ok {
		if o, ok := info.Uses[i].(*types.Func); ok && o.Type().(*types.Signature).Recv() == nil {
			inline = true
		}
	}
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if x, ok := se.X.(*ast.Ident); ok {
			if _, ok := info.Uses[x].(*types.PkgName); ok {
				if _, ok := info.Uses[se.Sel].(*types.Func); ok {
					inline = true
				}
			}
		}
	}
	// arguments first get names, keeping the original call for builtins
	args := make([]ast.Expr, 0, len(c.Args))
	var fexpr ast.Expr
	if !inline {
		fn := r.fresh("f")
		pre = append(pre, define(r.expr(c.Fun), fn))
		fexpr = id(fn)
	}
	for _, a := range c.Args {
		tv := info.Types[a]
		if tv.IsType() || tv.Value != nil || tv.IsNil() {
			args = append(args, r.expr(a))
			continue
		}
		if tu, ok := tv.Type.(*types.Tuple); ok {
			var names []string
			for i := 0; i < tu.Len(); i++ {
				names = append(names, r.fresh("a"))
				args = append(args, id(names[i]))
			}
			pre = append(pre, define(r.expr(a), names...))
			continue
		}
		an := r.fresh("a")
		pre = append(pre, define(r.expr(a), an))
		ai := id(an)
		if builtin {
			info.Types[ai] = tv
		}
		args = append(args, ai)
	}
	nc := &ast.CallExpr{Fun: c.Fun, Args: args, Ellipsis: c.Ellipsis}
	var final ast.Expr
	if inline {
		final = r.expr(nc)
	} else {
		nc.Fun = fexpr
		final = nc
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: final}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.q(aVS, "Go"), str(site), body)})
	return &ast.BlockStmt{List: pre}
}
