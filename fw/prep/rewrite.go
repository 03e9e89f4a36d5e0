package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
)

type rw struct {
	fset *token.FileSet
	info *types.Info
	file string
	pkg  string
	used bool
	n    int

	writes map[ast.Expr]bool // assigned to
	fields bool              // note accesses to fields as well
	vars   bool              // scheduling points at package level arrays
}

func (r *rw) mc(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzmc"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func (r *rw) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.n))
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// walk rewrites children first and then replaces expressions and statements.
func (r *rw) walk(n interface{}) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	// statements that must be seen before their children
	switch x := n.(type) {
	case *ast.File:
		for _, d := range x.Decls {
			r.walk(d)
		}
		return
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			r.write(x.Lhs...)
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			x.Rhs[0] = r.recv2(x.Rhs[0])
		}
	case *ast.IncDecStmt:
		r.write(x.X)
	case *ast.BlockStmt:
		if r.vars {
			x.List = r.touching(x.List)
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			x.Values[0] = r.recv2(x.Values[0])
		}
	case *ast.Ident, *ast.BasicLit, *ast.CommentGroup, *ast.Comment:
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		ft := f.Type()
		switch {
		case ft == exprT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case ft == stmtT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
			}
		case ft.Kind() == reflect.Slice:
			et := ft.Elem()
			for j := 0; j < f.Len(); j++ {
				e := f.Index(j)
				switch {
				case et == exprT:
					if !e.IsNil() {
						e.Set(reflect.ValueOf(r.expr(e.Interface().(ast.Expr))))
					}
				case et == stmtT:
					e.Set(reflect.ValueOf(r.stmt(e.Interface().(ast.Stmt))))
				case et.Implements(nodeT):
					r.walk(e.Interface())
				}
			}
		case ft.Implements(nodeT) && ft.Kind() == reflect.Ptr:
			if !f.IsNil() {
				r.walk(f.Interface())
			}
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) recv2(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return call(r.mc("Recv2"), u.X)
	}
	return e
}

func (r *rw) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rw) isMap(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rw) builtin(f ast.Expr) string {
	id, ok := unparen(f).(*ast.Ident)
	if !ok {
		return ""
	}
	if _, ok := r.info.Uses[id].(*types.Builtin); ok {
		return id.Name
	}
	return ""
}

// global tells whether e belongs to a package level variable.
func (r *rw) global(e ast.Expr) bool {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.Ident:
			v, ok := r.info.Uses[x].(*types.Var)
			if !ok {
				// a package name
				_, pkg := r.info.Uses[x].(*types.PkgName)
				return pkg
			}
			return v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		default:
			return false
		}
	}
}

func (r *rw) site(e ast.Expr) ast.Expr {
	p := r.fset.Position(e.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", r.file, p.Line))}
}

// write marks the operands of an assignment.
func (r *rw) write(l ...ast.Expr) {
	if r.writes == nil {
		r.writes = map[ast.Expr]bool{}
	}
	for _, e := range l {
		r.writes[unparen(e)] = true
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	var mapped *ast.Expr
	how := "MapR"
	var at ast.Expr
	switch x := e.(type) {
	case *ast.IndexExpr:
		if r.isMap(x.X) && !r.global(x.X) {
			mapped = &x.X
			if r.writes[x] {
				how = "MapW"
			}
		}
	case *ast.CallExpr:
		if len(x.Args) > 0 && r.isMap(x.Args[0]) && !r.global(x.Args[0]) {
			switch r.builtin(x.Fun) {
			case "len":
				mapped = &x.Args[0]
			case "delete", "clear":
				mapped, how = &x.Args[0], "MapW"
			}
		}
	}
	if mapped != nil {
		at = r.site(*mapped)
	}
	e = r.expr1(e)
	if mapped != nil {
		*mapped = call(r.mc(how), *mapped, at)
	}
	return e
}

// touching puts a scheduling point before every simple statement that uses a
// package level array (not a lock, function, error or constant).
func (r *rw) touching(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.IncDecStmt:
			name := ""
			ast.Inspect(s, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.FuncLit, *ast.IndexExpr: // no points at single bytes
					return false
				}
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				v, ok := r.info.Uses[id].(*types.Var)
				if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
					return true
				}
				t := v.Type().Underlying()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem().Underlying()
				}
				if _, ok := t.(*types.Array); ok {
					name = v.Name()
				}
				return true
			})
			if name != "" {
				out = append(out, &ast.ExprStmt{X: call(r.mc("Var"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(name)})})
			}
		}
		out = append(out, s)
	}
	return out
}

// field notes accesses to a field through a pointer.
func (r *rw) field(e ast.Expr) (string, ast.Expr) {
	x, ok := e.(*ast.SelectorExpr)
	if !ok || !r.fields {
		return "", nil
	}
	t := r.info.TypeOf(x.X)
	if t == nil {
		return "", nil
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return "", nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != x.Sel.Name || f.Embedded() {
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Basic, *types.Slice, *types.Map, *types.Pointer:
		default:
			return "", nil
		}
		if r.writes[x] {
			return "FieldW", r.site(x)
		}
		return "FieldR", r.site(x)
	}
	return "", nil
}

func (r *rw) expr1(e ast.Expr) ast.Expr {
	if how, at := r.field(e); how != "" {
		r.walk(e)
		return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.mc(how), &ast.UnaryExpr{Op: token.AND, X: e}, at)}}
	}
	// decisions that need original type information come first
	isLen := false
	if c, ok := e.(*ast.CallExpr); ok && r.builtin(c.Fun) == "len" && len(c.Args) == 1 && r.isChan(c.Args[0]) {
		isLen = true
	}
	r.walk(e)
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.mc("Recv"), x.X)
		}
	case *ast.CallExpr:
		if r.builtin(x.Fun) == "close" {
			return call(r.mc("Close"), x.Args...)
		}
		if isLen {
			return call(r.mc("Len"), x.Args...)
		}
	}
	return e
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SelectStmt:
		return r.sel(x)
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeChan(x)
		}
		if r.isMap(x.X) {
			return r.rangeMap(x)
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	}
	r.walk(s)
	switch x := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.mc("Send"), x.Chan), x.Value)}
	}
	return s
}

func assign(tok token.Token, l, rr []ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: rr}
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	site := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.pkg + "/" + r.file)}
	// name the thread after the function
	nm := "func"
	switch f := unparen(x.Call.Fun).(type) {
	case *ast.Ident:
		nm = f.Name
	case *ast.SelectorExpr:
		nm = f.Sel.Name
	}
	site.Value = strconv.Quote(r.pkg + "/" + nm)
	// constant and nil arguments may stay in place
	type keep struct{ k bool }
	keeps := make([]bool, len(x.Call.Args))
	for i, a := range x.Call.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			keeps[i] = true
		}
		if _, ok := unparen(a).(*ast.FuncLit); ok {
			keeps[i] = true
		}
	}
	bi := r.builtin(x.Call.Fun) != ""
	_, lit := unparen(x.Call.Fun).(*ast.FuncLit)
	r.walk(x)
	blk := &ast.BlockStmt{}
	fun := x.Call.Fun
	var l, rr []ast.Expr
	if !lit && !bi {
		id := r.tmp("f")
		l, rr = append(l, id), append(rr, fun)
		fun = id
	}
	args := append([]ast.Expr(nil), x.Call.Args...)
	for i := range args {
		if keeps[i] || bi {
			continue
		}
		id := r.tmp("a")
		l, rr = append(l, id), append(rr, args[i])
		args[i] = id
	}
	if len(l) > 0 {
		blk.List = append(blk.List, assign(token.DEFINE, l, rr))
	}
	var body ast.Stmt = &ast.ExprStmt{X: &ast.CallExpr{Fun: fun, Args: args, Ellipsis: x.Call.Ellipsis}}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}}
	blk.List = append(blk.List, &ast.ExprStmt{X: call(r.mc("Go"), site, fl)})
	return blk
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || (ok && id.Name == "_")
}

func (r *rw) rangeChan(x *ast.RangeStmt) ast.Stmt {
	r.walk(x)
	c, ok := r.tmp("c"), r.tmp("ok")
	f := &ast.ForStmt{Init: assign(token.DEFINE, []ast.Expr{c}, []ast.Expr{x.X}), Body: &ast.BlockStmt{}}
	rc := []ast.Expr{call(r.mc("Recv2"), c)}
	var key ast.Expr = ast.NewIdent("_")
	if !isBlank(x.Key) {
		key = x.Key
	}
	if x.Tok == token.DEFINE || isBlank(key) {
		f.Body.List = append(f.Body.List, assign(token.DEFINE, []ast.Expr{key, ok}, rc))
	} else {
		f.Body.List = append(f.Body.List,
			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
			assign(token.ASSIGN, []ast.Expr{key, ok}, rc))
	}
	f.Body.List = append(f.Body.List, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	f.Body.List = append(f.Body.List, x.Body.List...)
	return f
}

func (r *rw) rangeMap(x *ast.RangeStmt) ast.Stmt {
	at, global := r.site(x.X), r.global(x.X)
	r.walk(x)
	if !global {
		x.X = call(r.mc("MapR"), x.X, at)
	}
	it := r.tmp("it")
	amp := func(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
	nilE := ast.NewIdent("nil")
	f := &ast.ForStmt{Body: x.Body}
	k, v := ast.Expr(nilE), ast.Expr(nilE)
	if x.Tok == token.DEFINE {
		l := []ast.Expr{it}
		switch {
		case !isBlank(x.Key) && !isBlank(x.Value):
			l = append(l, x.Key, x.Value)
			f.Init = assign(token.DEFINE, l, []ast.Expr{call(r.mc("MapIterKV"), x.X)})
			k, v = amp(x.Key), amp(x.Value)
		case !isBlank(x.Key):
			f.Init = assign(token.DEFINE, append(l, x.Key), []ast.Expr{call(r.mc("MapIterK"), x.X)})
			k = amp(x.Key)
		case !isBlank(x.Value):
			f.Init = assign(token.DEFINE, append(l, x.Value), []ast.Expr{call(r.mc("MapIterV"), x.X)})
			v = amp(x.Value)
		default:
			f.Init = assign(token.DEFINE, l, []ast.Expr{call(r.mc("MapIter"), x.X)})
		}
	} else {
		f.Init = assign(token.DEFINE, []ast.Expr{it}, []ast.Expr{call(r.mc("MapIter"), x.X)})
		if !isBlank(x.Key) {
			k = amp(x.Key)
		}
		if !isBlank(x.Value) {
			v = amp(x.Value)
		}
	}
	f.Cond = call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, k, v)
	return f
}

func (r *rw) sel(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(r.mc("Forever"))},
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})},
		}}
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var l, rr, names []ast.Expr
	def := false
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			def = true
		}
	}
	idx := 0
	total := len(x.Body.List)
	for n, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		var pre []ast.Stmt
		if cc.Comm != nil {
			id := r.tmp("s")
			var e ast.Expr
			switch y := cc.Comm.(type) {
			case *ast.SendStmt:
				e = call(call(r.mc("CS"), r.expr(y.Chan)), r.expr(y.Value))
			case *ast.ExprStmt:
				u := unparen(y.X).(*ast.UnaryExpr)
				e = call(r.mc("CR"), r.expr(u.X))
			case *ast.AssignStmt:
				u := unparen(y.Rhs[0]).(*ast.UnaryExpr)
				e = call(r.mc("CR"), r.expr(u.X))
				m := "Val"
				if len(y.Lhs) == 2 {
					m = "Val2"
				}
				for i := range y.Lhs {
					y.Lhs[i] = r.expr(y.Lhs[i])
				}
				pre = append(pre, assign(y.Tok, y.Lhs, []ast.Expr{call(&ast.SelectorExpr{X: id, Sel: ast.NewIdent(m)})}))
			}
			l, rr, names = append(l, id), append(rr, e), append(names, id)
			nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
			idx++
		}
		if cc.Comm == nil || (!def && n == total-1) {
			nc.List = nil
		}
		for i := range cc.Body {
			cc.Body[i] = r.stmt(cc.Body[i])
		}
		nc.Body = append(pre, cc.Body...)
		sw.Body.List = append(sw.Body.List, nc)
	}
	if len(l) > 0 {
		sw.Init = assign(token.DEFINE, l, rr)
	}
	sw.Tag = call(r.mc("Select"), append([]ast.Expr{ast.NewIdent(strconv.FormatBool(def))}, names...)...)
	return sw
}
