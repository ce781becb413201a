package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// globalInit adds a function that re-evaluates a package-level initializer.
func (r *rw) globalInit(s *ast.ValueSpec) {
	var lhs, rhs []ast.Expr
	add := func(names []*ast.Ident, vals []ast.Expr) {
		lhs, rhs = nil, vals
		first := ""
		for _, n := range names {
			lhs = append(lhs, ast.NewIdent(n.Name))
			if n.Name != "_" && first == "" {
				first = n.Name
			}
		}
		if first == "" {
			return
		}
		fn := "_vrt_reset_" + first
		for _, n := range names {
			r.resetOf[n.Name] = fn
		}
		r.extra = append(r.extra, &ast.FuncDecl{
			Name: ast.NewIdent(fn),
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}}},
		})
	}
	if len(s.Values) == len(s.Names) {
		for i := range s.Names {
			add(s.Names[i:i+1], s.Values[i:i+1])
		}
	} else {
		add(s.Names, s.Values)
	}
}

func (r *rw) enter(b *ast.BlockStmt) {
	b.List = append([]ast.Stmt{&ast.ExprStmt{X: r.vrt("Enter")}}, b.List...)
}

func (r *rw) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.expr(f.Type)
	}
}

func (r *rw) typ(t *ast.FuncType) {
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) isMap(e ast.Expr) bool  { _, ok := under(r.typeOf(e)).(*types.Map); return ok }
func (r *rw) isChan(e ast.Expr) bool { _, ok := under(r.typeOf(e)).(*types.Chan); return ok }
func (r *rw) isPtr(e ast.Expr) bool  { _, ok := under(r.typeOf(e)).(*types.Pointer); return ok }

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

// trackedVar: a package-level variable or a local captured by a closure.
func (r *rw) trackedVar(id *ast.Ident) (string, bool) {
	v, ok := r.info.Uses[id].(*types.Var)
	if !ok || v.IsField() {
		return "", false
	}
	if v.Parent() == r.pkg.Scope() {
		return "var " + v.Name(), true
	}
	if r.captured[v] {
		return "local " + v.Name(), true
	}
	return "", false
}

// addressable expressions in the sense of the spec (before rewriting).
func (r *rw) addressable(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.addressable(e.X)
	case *ast.Ident:
		_, ok := r.info.Uses[e].(*types.Var)
		return ok
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil || s.Kind() != types.FieldVal {
			// package-qualified variable
			_, ok := r.info.Uses[e.Sel].(*types.Var)
			return ok && s == nil
		}
		return s.Indirect() || r.isPtr(e.X) || r.addressable(e.X)
	case *ast.IndexExpr:
		switch under(r.typeOf(e.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			return r.addressable(e.X)
		}
	}
	return false
}

// shared: the storage may be reachable from another goroutine.
func (r *rw) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		_, ok := r.trackedVar(e)
		return ok
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil {
			return true
		}
		return s.Indirect() || r.isPtr(e.X) || r.shared(e.X)
	case *ast.IndexExpr:
		switch under(r.typeOf(e.X)).(type) {
		case *types.Slice, *types.Pointer:
			return true
		}
		return r.shared(e.X)
	}
	return false
}

func (r *rw) fieldName(e *ast.SelectorExpr) string {
	t := r.typeOf(e.X)
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n := "?"
	if nt, ok := t.(*types.Named); ok {
		n = nt.Obj().Name()
	}
	return n + "." + e.Sel.Name
}

func (r *rw) acc(fn string, addr ast.Expr, name string) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.vrt(fn, addr, lit(r.ids.id(name)))}}
}

func amp(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

// place rewrites e as a location: no access to e itself is recorded.
func (r *rw) place(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		e.X = r.place(e.X)
		return e
	case *ast.Ident:
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil {
			return r.expr(e)
		}
		if s.Kind() == types.FieldVal {
			if r.isPtr(e.X) || !r.addressable(e.X) {
				e.X = r.expr(e.X)
			} else {
				e.X = r.place(e.X)
			}
			return e
		}
		return r.expr(e)
	case *ast.IndexExpr:
		switch under(r.typeOf(e.X)).(type) {
		case *types.Array:
			if r.addressable(e.X) {
				e.X = r.place(e.X)
			} else {
				e.X = r.expr(e.X)
			}
			e.Index = r.expr(e.Index)
			return e
		}
		return r.expr(e)
	}
	return r.expr(e)
}

// locName is the class of the location e if accesses to it are recorded.
func (r *rw) locName(e ast.Expr) (string, bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.locName(e.X)
	case *ast.Ident:
		return r.trackedVar(e)
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s != nil && s.Kind() == types.FieldVal && r.addressable(e) && r.shared(e) {
			return r.fieldName(e), true
		}
	case *ast.StarExpr:
		if tv, ok := r.info.Types[e]; ok && tv.IsValue() {
			return "*" + types.TypeString(tv.Type, func(*types.Package) string { return "" }), true
		}
	}
	return "", false
}

func (r *rw) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

// expr rewrites e in a value context.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok && tv.Value != nil {
		// constants stay, except that package-qualified ones keep their import
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if r.isType(x) {
			return x
		}
		if n, ok := r.trackedVar(x); ok {
			return r.acc("Rd", amp(x), n)
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.FuncLit:
		r.typ(x.Type)
		r.block(x.Body)
		r.enter(x.Body)
		return x
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		_, isStruct := under(r.typeOf(x)).(*types.Struct)
		isM := r.isMap(x)
		if p, ok := under(r.typeOf(x)).(*types.Pointer); ok {
			_, isStruct = p.Elem().Underlying().(*types.Struct)
			_, isM = p.Elem().Underlying().(*types.Map)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
					if isM && !r.constant(kv.Key) {
						if _, isc := kv.Key.(*ast.CompositeLit); !isc {
							kv.Key = r.vrt("MapKey", kv.Key)
						}
					}
				}
				kv.Value = r.expr(kv.Value)
				continue
			}
			x.Elts[i] = r.expr(el)
		}
		return x
	case *ast.SelectorExpr:
		return r.selector(x)
	case *ast.IndexExpr:
		if r.isType(x) || r.isType(x.Index) {
			x.X, x.Index = r.expr(x.X), r.expr(x.Index)
			return x
		}
		if _, ok := under(r.typeOf(x.X)).(*types.Signature); ok {
			return x
		}
		if r.isMap(x.X) {
			id := r.ids.id("map " + exprName(x.X))
			x.X = r.vrt("MR", r.expr(x.X), lit(id))
			x.Index = r.expr(x.Index)
			return x
		}
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok && r.addressable(x.X) {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok && r.addressable(x.X) {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		return x
	case *ast.CallExpr:
		return r.call(x)
	case *ast.StarExpr:
		if n, ok := r.locName(x); ok {
			return r.acc("Rd", r.expr(x.X), n)
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.vrt("Recv", r.expr(x.X))
		}
		if x.Op == token.AND {
			if _, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
				x.X = r.expr(x.X)
			} else {
				x.X = r.place(x.X)
			}
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
		return x
	// types
	case *ast.ArrayType:
		x.Len, x.Elt = r.expr(x.Len), r.expr(x.Elt)
		return x
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
		return x
	case *ast.FuncType:
		r.typ(x)
		return x
	case *ast.StructType:
		r.fieldList(x.Fields)
		return x
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
		return x
	}
	die("unhandled expression %T", e)
	return nil
}

func (r *rw) constant(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func exprName(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return exprName(e.X) + "." + e.Sel.Name
	case *ast.ParenExpr:
		return exprName(e.X)
	case *ast.IndexExpr:
		return exprName(e.X) + "[]"
	case *ast.CallExpr:
		return exprName(e.Fun) + "()"
	}
	return "expr"
}

func (r *rw) selector(x *ast.SelectorExpr) ast.Expr {
	if id, ok := x.X.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			path := pn.Imported().Path()
			if r.names[path][x.Sel.Name] {
				r.used[shims[path]] = true
				return &ast.SelectorExpr{X: ast.NewIdent(shims[path]), Sel: ast.NewIdent(x.Sel.Name)}
			}
			return x
		}
	}
	s := r.info.Selections[x]
	if s == nil {
		return x
	}
	switch s.Kind() {
	case types.FieldVal:
		if n, ok := r.locName(x); ok {
			return r.acc("Rd", amp(r.place(x)), n)
		}
		return r.place(x)
	case types.MethodVal:
		sig := s.Obj().Type().(*types.Signature)
		ptrRecv := false
		if sig.Recv() != nil {
			_, ptrRecv = sig.Recv().Type().(*types.Pointer)
		}
		if !r.isPtr(x.X) && ptrRecv && r.addressable(x.X) {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		return x
	}
	return x
}

func (r *rw) args(x *ast.CallExpr) {
	for i := range x.Args {
		x.Args[i] = r.expr(x.Args[i])
	}
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() { // conversion
		x.Fun = r.expr(x.Fun)
		r.args(x)
		return x
	}
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			switch id.Name {
			case "len":
				a := x.Args[0]
				if r.isChan(a) {
					return r.vrt("Len", r.expr(a))
				}
				if r.isMap(a) {
					n := r.ids.id("map " + exprName(a))
					x.Args[0] = r.vrt("MR", r.expr(a), lit(n))
					return x
				}
			case "close":
				return r.vrt("Close", r.expr(x.Args[0]))
			case "delete":
				n := r.ids.id("map " + exprName(x.Args[0]))
				x.Args[0] = r.vrt("MW", r.expr(x.Args[0]), lit(n))
				x.Args[1] = r.expr(x.Args[1])
				return x
			case "clear":
				if r.isMap(x.Args[0]) {
					n := r.ids.id("map " + exprName(x.Args[0]))
					x.Args[0] = r.vrt("MW", r.expr(x.Args[0]), lit(n))
					return x
				}
			case "copy":
				if _, ok := under(r.typeOf(x.Args[1])).(*types.Slice); ok {
					return r.vrt("Copy", r.expr(x.Args[0]), r.expr(x.Args[1]))
				}
			case "make", "new":
				_, isSlice := under(r.typeOf(x.Args[0])).(*types.Slice)
				for i := range x.Args {
					wrap := id.Name == "make" && i > 0 && isSlice && r.info.Types[x.Args[i]].Value == nil
					x.Args[i] = r.expr(x.Args[i])
					if wrap {
						x.Args[i] = r.vrt("AllocSize", x.Args[i])
					}
				}
				return x
			}
			r.args(x)
			return x
		}
	}
	x.Fun = r.expr(x.Fun)
	r.args(x)
	return x
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s))
	}
	return out
}

func callClosure(body ...ast.Stmt) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}}}
}

// simple rewrites a simple statement that must stay a single simple statement.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	s = r.stmt(s)
	if b, ok := s.(*ast.BlockStmt); ok {
		return callClosure(b.List...)
	}
	return s
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// lval rewrites an assignment target; the write is recorded when evaluated.
func (r *rw) lval(e ast.Expr) ast.Expr {
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return e
	}
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.lval(p.X)
	}
	if ix, ok := e.(*ast.IndexExpr); ok && r.isMap(ix.X) {
		n := r.ids.id("map " + exprName(ix.X))
		ix.X = r.vrt("MW", r.expr(ix.X), lit(n))
		k := r.expr(ix.Index)
		if !r.constant(ix.Index) {
			if kt := under(r.typeOf(ix.Index)); kt != nil {
				if _, basic := kt.(*types.Basic); !basic {
					k = r.vrt("MapKey", k)
				}
			}
		}
		ix.Index = k
		return ix
	}
	if n, ok := r.locName(e); ok {
		if st, ok := e.(*ast.StarExpr); ok {
			return r.acc("Wr", r.expr(st.X), n)
		}
		return r.acc("Wr", amp(r.place(e)), n)
	}
	return r.place(e)
}

func (r *rw) opAssign(lhs ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	n, ok := r.locName(lhs)
	if ix, isIx := ast.Unparen(lhs).(*ast.IndexExpr); isIx && r.isMap(ix.X) {
		ok = false
	}
	if !ok {
		return nil
	}
	id := r.ids.id(n)
	var addr ast.Expr
	if st, isSt := ast.Unparen(lhs).(*ast.StarExpr); isSt {
		addr = r.expr(st.X)
	} else {
		addr = amp(r.place(lhs))
	}
	p, v := r.tmp("p"), r.tmp("v")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{r.vrt("Rd", addr, lit(id))}},
		&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{
			&ast.BinaryExpr{X: &ast.ParenExpr{X: &ast.StarExpr{X: p}}, Op: op, Y: &ast.ParenExpr{X: r.expr(rhs)}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: r.vrt("Wr", p, lit(id))}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
	}}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rw) assign(s *ast.AssignStmt) ast.Stmt {
	if op, ok := opOf[s.Tok]; ok {
		if b := r.opAssign(s.Lhs[0], op, s.Rhs[0]); b != nil {
			return b
		}
		s.Lhs[0] = r.lval(s.Lhs[0])
		s.Rhs[0] = r.expr(s.Rhs[0])
		return s
	}
	// v, ok := <-ch
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := isRecv(s.Rhs[0]); ok {
			s.Rhs[0] = r.vrt("Recv2", r.expr(u.X))
			r.lhs(s)
			return s
		}
	}
	if s.Tok == token.ASSIGN && len(s.Lhs) == 1 {
		if n, ok := r.locName(s.Lhs[0]); ok {
			rhs := s.Rhs[0]
			if r.constant(rhs) {
				s.Lhs[0] = r.lval(s.Lhs[0])
				s.Rhs[0] = r.expr(rhs)
				return s
			}
			// vrt.Set(&x.f, id)(rhs): evaluates rhs before the write
			var addr ast.Expr
			if st, isSt := ast.Unparen(s.Lhs[0]).(*ast.StarExpr); isSt {
				addr = r.expr(st.X)
			} else {
				addr = amp(r.place(s.Lhs[0]))
			}
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.vrt("Set", addr, lit(r.ids.id(n))), Args: []ast.Expr{r.expr(rhs)}}}
		}
	}
	if s.Tok == token.ASSIGN && len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		// tuple: evaluate first, then store
		track := false
		for _, l := range s.Lhs {
			if _, ok := r.locName(l); ok {
				track = true
			}
		}
		if _, isCall := ast.Unparen(s.Rhs[0]).(*ast.CallExpr); track && isCall {
			var list []ast.Stmt
			var ts []ast.Expr
			var vals []ast.Expr
			for _, l := range s.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
					ts = append(ts, ast.NewIdent("_"))
					vals = append(vals, nil)
					continue
				}
				t := r.tmp("t")
				ts = append(ts, t)
				vals = append(vals, t)
			}
			list = append(list, &ast.AssignStmt{Lhs: ts, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.Rhs[0])}})
			for i, l := range s.Lhs {
				if vals[i] == nil {
					continue
				}
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{r.lval(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{vals[i]}})
			}
			return &ast.BlockStmt{List: list}
		}
	}
	for i := range s.Rhs {
		s.Rhs[i] = r.expr(s.Rhs[i])
	}
	r.lhs(s)
	return s
}

func (r *rw) lhs(s *ast.AssignStmt) {
	if s.Tok == token.DEFINE {
		return
	}
	for i := range s.Lhs {
		s.Lhs[i] = r.lval(s.Lhs[i])
	}
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.EmptyStmt, *ast.BranchStmt:
		return x
	case *ast.ExprStmt:
		if u, ok := isRecv(x.X); ok {
			x.X = r.vrt("Recv", r.expr(u.X))
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.vrt("SendTo", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if b := r.opAssign(x.X, op, lit(1)); b != nil {
			return b
		}
		x.X = r.lval(x.X)
		return x
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		c := r.call(x.Call)
		if cc, ok := c.(*ast.CallExpr); ok {
			x.Call = cc
			return x
		}
		die("deferred call became %T", c)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
		return x
	case *ast.BlockStmt:
		r.block(x)
		return x
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)
		}
		return x
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
		return x
	case *ast.DeclStmt:
		r.localDecl(x.Decl)
		return x
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		r.block(x.Body)
		r.enter(x.Body)
		return x
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
		return x
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			a.Rhs[0] = r.expr(a.Rhs[0])
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		}
		r.clauses(x.Body)
		return x
	case *ast.SelectStmt:
		return r.selectStmt(x)
	}
	die("unhandled statement %T", s)
	return nil
}

func (r *rw) localDecl(d ast.Decl) {
	g, ok := d.(*ast.GenDecl)
	if !ok {
		return
	}
	for _, s := range g.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if s.Type != nil {
				s.Type = r.expr(s.Type)
			}
			if g.Tok != token.VAR {
				continue
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u, ok := isRecv(s.Values[0]); ok {
					s.Values[0] = r.vrt("Recv2", r.expr(u.X))
					continue
				}
			}
			for i := range s.Values {
				s.Values[i] = r.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			s.Type = r.expr(s.Type)
		}
	}
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = r.expr(cc.List[i])
		}
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: r.vrt("Go", r.expr(fl))}
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return &ast.ExprStmt{X: r.vrt("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call(c)}}}})}
		}
	}
	var list []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		if r.constant(e) {
			return r.expr(e)
		}
		t := r.tmp("g")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return t
	}
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, isF := r.info.Uses[id].(*types.Func); isF {
			nc.Fun = id
		}
	}
	if nc.Fun == nil {
		nc.Fun = bind(c.Fun)
	}
	for _, a := range c.Args {
		nc.Args = append(nc.Args, bind(a))
	}
	list = append(list, &ast.ExprStmt{X: r.vrt("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return &ast.BlockStmt{List: list}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	isC, isM := r.isChan(x.X), r.isMap(x.X)
	if !isC && !isM {
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok && r.addressable(x.X) {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				x.Key = r.lval(x.Key)
			}
			if x.Value != nil {
				x.Value = r.lval(x.Value)
			}
		}
		r.block(x.Body)
		r.enter(x.Body)
		return x
	}
	ptr := func(e ast.Expr) ast.Expr {
		if blank(e) {
			return ast.NewIdent("nil")
		}
		if x.Tok == token.ASSIGN {
			return amp(r.place(e))
		}
		return amp(e)
	}
	def := func(e ast.Expr) ast.Expr {
		if blank(e) || x.Tok == token.ASSIGN {
			return ast.NewIdent("_")
		}
		return e
	}
	it := r.tmp("r")
	f := &ast.ForStmt{}
	if isC {
		f.Init = &ast.AssignStmt{Lhs: []ast.Expr{it, def(x.Key)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.vrt("ChanRange", r.expr(x.X))}}
		f.Cond = r.vrt("RangeRecv", it, ptr(x.Key))
	} else {
		n := r.ids.id("map " + exprName(x.X))
		f.Init = &ast.AssignStmt{Lhs: []ast.Expr{it, def(x.Key), def(x.Value)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.vrt("MapRange", r.expr(x.X), lit(n))}}
		f.Cond = &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{ptr(x.Key), ptr(x.Value)}}
	}
	r.block(x.Body)
	f.Body = x.Body
	return f
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.vrt("BlockForever")}}}}
	}
	hasDef := ast.NewIdent("false")
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var lhs, rhs []ast.Expr
	sel := r.vrt("Select", hasDef)
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDef.Name = "true"
			nc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: lit(1)}}
			nc.Body = r.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, nc)
			continue
		}
		nc.List = []ast.Expr{lit(idx)}
		v := r.tmp("c")
		var pre []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, &ast.CallExpr{Fun: r.vrt("SendCase", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}})
		case *ast.ExprStmt:
			u, _ := isRecv(cm.X)
			rhs = append(rhs, r.vrt("RecvCase", r.expr(u.X)))
		case *ast.AssignStmt:
			u, _ := isRecv(cm.Rhs[0])
			rhs = append(rhs, r.vrt("RecvCase", r.expr(u.X)))
			as := &ast.AssignStmt{Tok: cm.Tok}
			vals := []ast.Expr{
				&ast.SelectorExpr{X: v, Sel: ast.NewIdent("V")},
				&ast.SelectorExpr{X: v, Sel: ast.NewIdent("OK")},
			}
			all := true
			for i, l := range cm.Lhs {
				if !blank(l) {
					all = false
				}
				if cm.Tok == token.ASSIGN {
					l = r.lval(l)
				}
				as.Lhs = append(as.Lhs, l)
				as.Rhs = append(as.Rhs, vals[i])
			}
			if all {
				as.Tok = token.ASSIGN
			}
			pre = append(pre, as)
		}
		lhs = append(lhs, v)
		sel.Args = append(sel.Args, v)
		nc.Body = append(pre, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, nc)
		idx++
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = sel
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
		&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"vrt: select"`}}}}}})
	return sw
}
