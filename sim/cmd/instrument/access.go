package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// accesses lists what a statement itself (not the blocks inside) does to memory that another
// goroutine may share and that does not stand a simultaneous access: maps, and variables and fields
// of several words. Only what can be named without evaluating anything that has effects or can fail
// is listed: package variables, fields of what a variable points to, maps held in either.
func (in *inst) accesses(s ast.Stmt) string {
	if in.info == nil {
		return ""
	}
	a := &acc{in: in, s: s, seen: map[string]bool{}}
	a.stmt(s)
	return a.out
}

type acc struct {
	in   *inst
	s    ast.Stmt
	out  string
	seen map[string]bool
}

func (a *acc) emit(format string, arg ...any) {
	t := fmt.Sprintf(format, arg...)
	if a.seen[t] {
		return
	}
	a.seen[t] = true
	a.in.used = true
	a.out += "verifrt." + strings.Replace(t, "SITE", fmt.Sprint(a.in.base+len(*a.in.sites)), 1) + ";"
}

func hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			found = true
		}
		return !found
	})
	return found
}

func (a *acc) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case nil:
	case *ast.ExprStmt:
		a.expr(s.X, 0)
	case *ast.AssignStmt:
		for _, r := range s.Rhs {
			a.expr(r, 0)
		}
		if s.Tok == token.DEFINE {
			return
		}
		for _, l := range s.Lhs {
			if s.Tok != token.ASSIGN {
				a.expr(l, 0)
			}
			a.expr(l, 1)
		}
	case *ast.IncDecStmt:
		a.expr(s.X, 0)
		a.expr(s.X, 1)
	case *ast.ReturnStmt:
		for _, r := range s.Results {
			a.expr(r, 0)
		}
	case *ast.IfStmt:
		a.stmt(s.Init)
		if s.Init == nil || !hasCall(s.Init) {
			a.expr(s.Cond, 0)
		}
	case *ast.ForStmt:
		a.stmt(s.Init)
		if s.Init == nil || !hasCall(s.Init) {
			a.expr(s.Cond, 0)
		}
	case *ast.SwitchStmt:
		a.stmt(s.Init)
		if s.Init == nil || !hasCall(s.Init) {
			a.expr(s.Tag, 0)
		}
	case *ast.RangeStmt:
		a.expr(s.X, 0)
		a.mapUse(s.X, 0)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					for _, x := range v.Values {
						a.expr(x, 0)
					}
				}
			}
		}
	case *ast.SendStmt:
		a.expr(s.Value, 0)
	case *ast.SelectStmt:
		a.emit("Sync()")
	}
}

// expr: write is 1 for the expression that is assigned to.
func (a *acc) expr(e ast.Expr, write int) {
	switch x := e.(type) {
	case nil:
	case *ast.ParenExpr:
		a.expr(x.X, write)
	case *ast.Ident:
		a.place(x, write)
	case *ast.SelectorExpr:
		if !a.place(x, write) {
			a.expr(x.X, 0)
		}
	case *ast.IndexExpr:
		a.mapUse(x.X, write)
		a.expr(x.X, 0)
		a.expr(x.Index, 0)
	case *ast.SliceExpr:
		if t := a.in.typeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return // an address
			}
		}
		a.expr(x.X, 0)
		a.expr(x.Low, 0)
		a.expr(x.High, 0)
		a.expr(x.Max, 0)
	case *ast.StarExpr:
		a.expr(x.X, 0)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if i, ok := x.X.(*ast.IndexExpr); ok {
				a.expr(i.X, 0)
				a.expr(i.Index, 0)
			}
			return
		}
		a.expr(x.X, 0)
	case *ast.BinaryExpr:
		a.expr(x.X, 0)
		if (x.Op == token.LAND || x.Op == token.LOR) && hasCall(x.X) {
			return
		}
		a.expr(x.Y, 0)
	case *ast.KeyValueExpr:
		a.expr(x.Value, 0)
	case *ast.CompositeLit:
		for _, l := range x.Elts {
			a.expr(l, 0)
		}
	case *ast.TypeAssertExpr:
		a.expr(x.X, 0)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			if _, ok := a.in.info.Uses[id].(*types.Builtin); ok && len(x.Args) > 0 {
				switch id.Name {
				case "delete", "clear":
					a.mapUse(x.Args[0], 1)
				case "len":
					a.mapUse(x.Args[0], 0)
				case "close":
					a.emit("Sync()")
				}
			}
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if sel := a.in.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
				// the receiver is read, unless its address is taken
				if t, f := a.in.typeOf(s.X), sel.Obj().(*types.Func); t != nil {
					_, ptrRecv := f.Type().(*types.Signature).Recv().Type().(*types.Pointer)
					if _, isPtr := t.Underlying().(*types.Pointer); !ptrRecv || isPtr {
						a.expr(s.X, 0)
					}
				}
			}
		}
		for _, g := range x.Args {
			a.expr(g, 0)
		}
	}
}

// wide: a map, or a value of several words.
func wide(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.String
	}
	return false
}

// chain: v.f.g with v a variable and f, g direct fields held by value; ptr tells that v is a pointer.
func (a *acc) chain(e ast.Expr) (id *ast.Ident, offs []string, ptr, ok bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return a.chain(x.X)
	case *ast.Ident:
		v, isVar := a.in.info.Uses[x].(*types.Var)
		if !isVar || v.IsField() || v.Pos() >= a.s.Pos() && a.in.pkgVar(x) == nil {
			return nil, nil, false, false
		}
		_, ptr = v.Type().Underlying().(*types.Pointer)
		return x, nil, ptr, true
	case *ast.SelectorExpr:
		sel := a.in.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal || len(sel.Index()) != 1 {
			return nil, nil, false, false
		}
		id, offs, ptr, ok = a.chain(x.X)
		if !ok {
			return
		}
		if t := a.in.typeOf(x.X); len(offs) > 0 && t != nil {
			if _, p := t.Underlying().(*types.Pointer); p {
				return nil, nil, false, false
			}
		}
		return id, append(offs, a.in.text(x)), ptr, true
	}
	return nil, nil, false, false
}

func offset(offs []string) string {
	s := ""
	for i, o := range offs {
		if i > 0 {
			s += "+"
		}
		s += "verifunsafe.Offsetof(" + o + ")"
	}
	return s
}

// label names what is accessed, for the report.
func (a *acc) label(e ast.Expr) string {
	t := a.in.text(e)
	if id, _ := base(e); id != nil && a.in.pkgVar(id) == nil {
		if tt := a.in.typeOf(id); tt != nil {
			n := tt.String()
			if i := strings.LastIndexAny(n, "./*"); i >= 0 {
				n = n[i+1:]
			}
			if i := strings.IndexByte(t, '.'); i > 0 {
				return n + t[i:]
			}
		}
	}
	return t
}

// place reports whether e was a place of its own.
func (a *acc) place(e ast.Expr, write int) bool {
	id, offs, ptr, ok := a.chain(e)
	if !ok {
		return false
	}
	t := a.in.typeOf(e)
	if t == nil || !wide(t) {
		return len(offs) > 0
	}
	pv := a.in.pkgVar(id)
	switch {
	case len(offs) == 0:
		if pv != nil && a.in.mut[pv] {
			a.emit("A(verifunsafe.Pointer(&%s),%d,%q,SITE)", id.Name, write, a.label(e))
		}
	case ptr:
		a.emit("AF(verifunsafe.Pointer(%s),%s,%d,%q,SITE)", id.Name, offset(offs), write, a.label(e))
	case pv != nil:
		a.emit("AF(verifunsafe.Pointer(&%s),%s,%d,%q,SITE)", id.Name, offset(offs), write, a.label(e))
	}
	return true
}

// mapUse is an access to the content of the map that e names.
func (a *acc) mapUse(e ast.Expr, write int) {
	t := a.in.typeOf(e)
	if t == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return
	}
	id, offs, ptr, ok := a.chain(e)
	if !ok {
		return
	}
	what := "the map " + a.label(e)
	switch {
	case len(offs) == 0:
		a.emit("AM(%s,%d,%q,SITE)", id.Name, write, what)
	case ptr:
		a.emit("AMF(verifunsafe.Pointer(%s),%s,%d,%q,SITE)", id.Name, offset(offs), write, what)
	default:
		a.emit("AMF(verifunsafe.Pointer(&%s),%s,%d,%q,SITE)", id.Name, offset(offs), write, what)
	}
}
