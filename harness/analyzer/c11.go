package analyzer

import (
	"go/ast"
	"go/token"
	"go/types"

	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/packages"
)

//verif:use analyzer/syntaxlib.go

// A vstmt is a statement to be looked at after the rewriting.
type vstmt struct {
	g     *vgraph
	p     *packages.Package
	call  *ast.CallExpr
	stmt  *ast.ExprStmt
	marks int
}

func newVstmt() *vstmt {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	return &vstmt{g: g, p: g.pkgs[0]}
}

func vsSigOf(params, results int) *types.Signature {
	tuple := func(n int, t types.Type) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < n; i++ {
			vs = append(vs, types.NewParam(token.NoPos, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, tuple(params, types.Typ[types.Int]), tuple(results, types.Typ[types.Bool]), false)
}

// ident is a variable of type t.
func (v *vstmt) ident(name string, t types.Type) *ast.Ident {
	id := ast.NewIdent(name)
	vsType(v.p, id, vsValue, t)
	v.p.TypesInfo.Uses[id] = types.NewVar(token.NoPos, v.g.tpkgs[0], name, t)
	return id
}

// mark is a call of a function of the program, mark(), with a result of type t.
func (v *vstmt) mark(t types.Type) *ast.CallExpr {
	v.marks++
	c := &ast.CallExpr{Fun: v.ident("mark", vsSigOf(0, 0))}
	vsType(v.p, c, vsValue, t)
	return c
}

// qualified is pkg.Name where pkg is an imported package of the given path, or
// a variable for an empty path.
func (v *vstmt) qualified(path, name string, t types.Type) *ast.SelectorExpr {
	id := ast.NewIdent("sort")
	if path == "" {
		v.p.TypesInfo.Uses[id] = types.NewVar(token.NoPos, v.g.tpkgs[0], "sort", types.Typ[types.Int])
		vsType(v.p, id, vsValue, types.Typ[types.Int])
	} else {
		v.p.TypesInfo.Uses[id] = types.NewPkgName(token.NoPos, v.g.tpkgs[0], "sort", types.NewPackage(path, "sort"))
	}
	s := &ast.SelectorExpr{X: id, Sel: ast.NewIdent(name)}
	vsType(v.p, s, vsValue, t)
	return s
}

func (v *vstmt) set(fun ast.Expr, args ...ast.Expr) {
	v.call = &ast.CallExpr{Fun: fun, Args: args}
	vsType(v.p, v.call, vsNoValue, types.NewTuple())
	v.stmt = &ast.ExprStmt{X: v.call}
}

// expr is an expression of type t with or without a call in it.
func (v *vstmt) expr(k int, t types.Type) ast.Expr {
	typed := func(e ast.Expr) ast.Expr {
		vsType(v.p, e, vsValue, t)
		return e
	}
	x := func() ast.Expr { return v.ident("x", types.Typ[types.Int]) }
	m := func() ast.Expr { return v.mark(types.Typ[types.Int]) }
	switch k {
	case 0:
		return v.ident("x", t)
	case 1:
		return v.mark(t)
	case 2:
		return typed(&ast.SelectorExpr{X: m(), Sel: ast.NewIdent("f")})
	case 3:
		return typed(&ast.IndexExpr{X: x(), Index: m()})
	case 4:
		return typed(&ast.IndexExpr{X: m(), Index: x()})
	case 5:
		return typed(&ast.SliceExpr{X: x(), Low: m()})
	case 6:
		return typed(&ast.SliceExpr{X: x(), High: m()})
	case 7:
		return typed(&ast.SliceExpr{X: x(), Low: x(), High: x(), Max: m(), Slice3: true})
	case 8:
		return typed(&ast.ParenExpr{X: v.mark(t)})
	case 9:
		return typed(&ast.StarExpr{X: m()})
	case 10:
		return typed(&ast.TypeAssertExpr{X: m(), Type: x()})
	case 11:
		return typed(&ast.UnaryExpr{Op: token.AND, X: &ast.CompositeLit{Elts: []ast.Expr{x(), m()}}})
	case 12:
		return typed(&ast.CompositeLit{Elts: []ast.Expr{&ast.KeyValueExpr{Key: m(), Value: x()}}})
	case 13:
		return typed(&ast.CompositeLit{Elts: []ast.Expr{&ast.KeyValueExpr{Key: x(), Value: m()}}})
	case 14:
		return typed(&ast.BinaryExpr{X: x(), Op: token.ADD, Y: m()})
	case 15:
		return typed(&ast.SelectorExpr{X: x(), Sel: ast.NewIdent("f")})
	case 16:
		return typed(&ast.StarExpr{X: x()})
	case 17:
		return typed(&ast.IndexListExpr{X: x(), Indices: []ast.Expr{x(), m()}})
	case 18:
		return typed(&ast.SliceExpr{X: m()})
	case 19:
		return typed(&ast.IndexListExpr{X: m(), Indices: []ast.Expr{x(), x()}})
	}
	return typed(&ast.BinaryExpr{X: m(), Op: token.ADD, Y: x()})
}

const c11Exprs = 21

// place puts the statement into one of nine positions of a function body.
func (v *vstmt) place(k int) ast.Stmt {
	x := func() ast.Expr { return v.ident("x", types.Typ[types.Int]) }
	switch k {
	case 0:
		return vsBlock(v.stmt)
	case 1:
		return &ast.SwitchStmt{Body: vsBlock(&ast.CaseClause{Body: []ast.Stmt{v.stmt}})}
	case 2:
		return &ast.SelectStmt{Body: vsBlock(&ast.CommClause{Body: []ast.Stmt{v.stmt}})}
	case 3:
		return &ast.LabeledStmt{Label: ast.NewIdent("l"), Stmt: v.stmt}
	case 4:
		return &ast.IfStmt{Init: v.stmt, Cond: x(), Body: vsBlock()}
	case 5:
		return &ast.ForStmt{Init: v.stmt, Body: vsBlock()}
	case 6:
		return &ast.ForStmt{Post: v.stmt, Body: vsBlock()}
	case 7:
		return &ast.IfStmt{Cond: x(), Body: vsBlock(), Else: vsBlock(v.stmt)}
	}
	lit := vsLit(vsBlock(v.stmt))
	vsType(v.p, lit, vsValue, vsSigOf(0, 0))
	return &ast.AssignStmt{Lhs: []ast.Expr{x()}, Tok: token.ASSIGN, Rhs: []ast.Expr{lit}}
}

const c11Places = 9

// A vseen is what is found in the function after the rewriting.
type vseen struct {
	same  bool // the original statement is still there, unchanged
	typed bool // every other call has complete type information
	marks int  // calls of mark
	calls []*ast.CallExpr
	total int
}

// run rewrites the function with the given body and looks at what is built.
func (v *vstmt) run(body ast.Stmt) vseen {
	fun, nargs := v.call.Fun, len(v.call.Args)
	var args []ast.Expr
	args = append(args, v.call.Args...)
	d := vsDecl("D", vsBlock(body))
	vsFile(v.p, d)
	v.g.from(0, "D", d)
	v.g.finish()
	cil := GetCapabilityInfo(v.g.pkgs, map[*types.Package]struct{}{v.g.tpkgs[0]: {}}, &Config{Classifier: v.g, Granularity: GranularityFunction})
	_ = cil
	s := vseen{typed: true}
	found := false
	ast.Inspect(d, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ExprStmt:
			if n == v.stmt {
				found = true
			}
		case *ast.CallExpr:
			s.total++
			s.calls = append(s.calls, n)
			if n != v.call && !v.typed(n) {
				s.typed = false
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "mark" {
				s.marks++
			}
		}
		return true
	})
	s.same = found && v.stmt.X == ast.Expr(v.call) && v.call.Fun == fun && len(v.call.Args) == nargs
	if s.same {
		for i := range args {
			if v.call.Args[i] != args[i] {
				s.same = false
			}
		}
	}
	return s
}

// typed reports whether a call has the type information its compilation needs.
func (v *vstmt) typed(c *ast.CallExpr) bool {
	info := v.p.TypesInfo
	sig, ok := types.Unalias(info.TypeOf(c.Fun)).(*types.Signature)
	if !ok {
		return false
	}
	if sel, ok := c.Fun.(*ast.SelectorExpr); ok && info.Selections[sel] != nil {
		if m := info.Selections[sel].Obj(); m == nil || m.Name() != sel.Sel.Name || info.Uses[sel.Sel] != m {
			return false
		}
	} else if ok && (sel.Sel.Name == "Len" || sel.Sel.Name == "Less" || sel.Sel.Name == "Swap") {
		return false
	}
	for _, a := range c.Args {
		if lit, ok := a.(*ast.BasicLit); ok && (info.TypeOf(lit) != types.Typ[types.Int] || info.Types[lit].Value == nil) {
			return false
		}
	}
	if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "mark" {
		return true
	}
	tv, ok := info.Types[c]
	if !ok {
		return false
	}
	if sig.Results().Len() == 1 {
		return tv.Type == sig.Results().At(0).Type()
	}
	return tv.Type == nil || tv.Type == types.Type(sig.Results())
}

// calls of the method of an expression, with the number of arguments.
func (s vseen) method(recv ast.Expr, name string, nargs int) bool {
	for _, c := range s.calls {
		if sel, ok := c.Fun.(*ast.SelectorExpr); ok && sel.X == recv && sel.Sel.Name == name && len(c.Args) == nargs {
			return true
		}
	}
	return false
}

func (s vseen) calling(fun ast.Expr, nargs int) bool {
	for _, c := range s.calls {
		if c.Fun == fun && len(c.Args) == nargs {
			return true
		}
	}
	return false
}

// vsSortable is a type with the three methods needed for sorting, or without
// one of them.
func vsSortable(g *vgraph, missing string) *types.Named {
	named := types.NewNamed(types.NewTypeName(token.NoPos, g.tpkgs[0], "S", nil), types.NewStruct(nil, nil), nil)
	for _, m := range []string{"Len", "Less", "Swap"} {
		if m == missing {
			continue
		}
		n := vrt.If(m == "Len", 0, 2)
		recv := types.NewVar(token.NoPos, g.tpkgs[0], "s", named)
		sig := vsSigOf(n, 0)
		sig = types.NewSignatureType(recv, nil, nil, sig.Params(), sig.Results(), false)
		named.AddMethod(types.NewFunc(token.NoPos, g.tpkgs[0], m, sig))
	}
	return named
}

// VerifC11Sort: statements pkg.Name(arg) where the package is sort, another
// one of that name or a variable, for six function names, 21 forms of argument
// most of which contain a call, argument types with all or some of the
// ordering methods, and a second argument.
//
//verif:harness C11 both
func VerifC11Sort() {
	v := newVstmt()
	path := []string{"sort", "ex.org/sort", ""}[vrt.Choice("path", 3)]
	name := []string{"Sort", "Stable", "IsSorted", "Sorted", "Slice", "Reverse"}[vrt.Choice("name", 6)]
	typ := types.Type(vsSortable(v.g, ""))
	switch vrt.Choice("type", 4) {
	case 1:
		typ = types.NewPointer(typ)
	case 2:
		typ = vsSortable(v.g, "Swap")
	case 3:
		typ = types.Typ[types.UntypedNil]
	}
	arg := v.expr(vrt.Choice("arg", c11Exprs), typ)
	args := []ast.Expr{arg}
	if vrt.Bool("second") {
		args = append(args, v.mark(vsSigOf(2, 1)))
	}
	v.set(v.qualified(path, name, vsSigOf(1, 0)), args...)
	k := vrt.Choice("type", 4)
	plain := vrt.Choice("arg", c11Exprs) == 0 && k < 2
	s := v.run(vsBlock(v.stmt))
	c11SortCheck(v, path, name, arg, s)
	vrt.Assert(!s.same || path != "sort" || name != "Sort" && name != "Stable" && name != "IsSorted" || vrt.Bool("second") || !plain, "calls with plain arguments are rewritten")
}

func c11SortCheck(v *vstmt, path, name string, arg ast.Expr, s vseen) {
	lib := path == "sort" && (name == "Sort" || name == "Stable" || name == "IsSorted" || name == "Slice")
	vrt.Assert(s.marks >= v.marks, "every other call of the statement is still there")
	if lib && !s.same {
		if name == "Slice" {
			vrt.Assert(len(v.call.Args) == 2 && s.calling(v.call.Args[1], 2), "a callback call calls the callback")
		} else {
			vrt.Assert(s.method(arg, "Less", 2) && s.method(arg, "Swap", 2) && s.method(arg, "Len", 0), "a sort call becomes calls of the three methods of its argument")
		}
	} else {
		vrt.Assert(s.same, "other statements are left alone")
	}
	vrt.Assert(s.same || s.typed, "what is written instead has complete type information")
	vrt.Cover(lib && !s.same, "a rewritten statement")
}

// VerifC11SortPlaces: a call of sort.Sort, or of a similar function, in nine
// positions: block, case, communication clause, label, init and post
// statements, else and function literal.
//
//verif:harness C11 both
func VerifC11SortPlaces() {
	v := newVstmt()
	path := []string{"sort", "ex.org/sort"}[vrt.Choice("path", 2)]
	name := []string{"Sort", "Sorted"}[vrt.Choice("name", 2)]
	arg := v.expr(vrt.Choice("arg", 3), vsSortable(v.g, ""))
	v.set(v.qualified(path, name, vsSigOf(1, 0)), arg)
	place := vrt.Choice("place", c11Places)
	s := v.run(v.place(place))
	c11SortCheck(v, path, name, arg, s)
	vrt.Assert(!s.same || path != "sort" || name != "Sort" || vrt.Choice("arg", 3) != 0 || !c11Ordinary(place), "calls with plain arguments are rewritten")
}

// c11Ordinary: the place is one for statements of any kind.
func c11Ordinary(place int) bool { return place < 4 || place > 6 }

// c11Callback is the argument for a callback parameter: a variable, a literal
// with a call in it, the result of a call, or something of another type.
func (v *vstmt) callback(k, params int) (e ast.Expr, isFunc bool) {
	sig := vsSigOf(params, vrt.If(params == 2, 1, 0))
	switch k {
	case 0:
		return v.ident("f", sig), true
	case 1:
		lit := vsLit(vsBlock(vsStmt(v.mark(types.Typ[types.Int]))))
		vsType(v.p, lit, vsValue, sig)
		return lit, true
	case 2:
		return v.mark(sig), true
	case 3:
		return v.ident("f", vsAlias(v.g.tpkgs[0], "A", sig)), true
	case 4:
		return v.ident("f", vsNamed(v.g.tpkgs[0], "F", sig)), true
	case 5:
		return v.expr(2, sig), true
	}
	return v.ident("f", types.Typ[types.UntypedNil]), false
}

// VerifC11Slice: statements pkg.Name(x, callback), for the two functions with
// a callback and three others, any of 21 forms of first argument and seven of
// callback.
//
//verif:harness C11 both
func VerifC11Slice() {
	v := newVstmt()
	path := []string{"sort", "ex.org/sort", ""}[vrt.Choice("path", 3)]
	name := []string{"Slice", "SliceStable", "SliceIsSorted", "Sort"}[vrt.Choice("name", 4)]
	x := v.expr(vrt.Choice("x", c11Exprs), types.NewSlice(types.Typ[types.Int]))
	f, isFunc := v.callback(vrt.Choice("callback", 7), 2)
	v.set(v.qualified(path, name, vsSigOf(1, 0)), x, f)
	s := v.run(vsBlock(v.stmt))
	lib := path == "sort" && (name == "Slice" || name == "SliceStable") && isFunc
	vrt.Assert(s.marks >= v.marks, "every other call of the statement is still there")
	if lib && !s.same {
		vrt.Assert(s.calling(f, 2), "a callback call calls the callback")
	} else {
		vrt.Assert(s.same, "other statements are left alone")
	}
	vrt.Assert(s.same || s.typed, "what is written instead has complete type information")
	vrt.Assert(!s.same || !lib || vrt.Choice("x", c11Exprs) != 0 || vrt.Choice("callback", 7) > 1, "calls with plain arguments are rewritten")
	vrt.Cover(lib && !s.same, "a rewritten statement")
}

// VerifC11Once: statements recv.Name(callback) for a receiver of type Once, a
// pointer to it or aliases of these, types of the same name elsewhere and other
// types, in 21 forms, for three method names and seven forms of callback.
//
//verif:harness C11 both
func VerifC11Once() {
	v := newVstmt()
	sync := types.NewPackage("sync", "sync")
	once := vsNamed(sync, "Once", types.NewStruct(nil, nil))
	k := vrt.Choice("type", 9)
	typ := once
	switch k {
	case 1:
		typ = types.NewPointer(once)
	case 2:
		typ = vsAlias(v.g.tpkgs[0], "O", once)
	case 3:
		typ = vsAlias(v.g.tpkgs[0], "P", types.NewPointer(vsAlias(v.g.tpkgs[0], "O", once)))
	case 4:
		typ = vsNamed(v.g.tpkgs[0], "Once", types.NewStruct(nil, nil))
	case 5:
		typ = vsNamed(types.NewPackage("ex.org/sync", "sync"), "Once", types.NewStruct(nil, nil))
	case 6:
		typ = vsNamed(sync, "Other", types.NewStruct(nil, nil))
	case 7:
		typ = vsNamed(v.g.tpkgs[0], "Mine", once.Underlying())
	case 8:
		typ = types.NewInterfaceType(nil, nil)
	}
	name := []string{"Do", "Other", "DoAll"}[vrt.Choice("name", 3)]
	recv := v.expr(vrt.Choice("recv", c11Exprs), typ)
	f, isFunc := v.callback(vrt.Choice("callback", 7), 0)
	sel := &ast.SelectorExpr{X: recv, Sel: ast.NewIdent(name)}
	vsType(v.p, sel, vsValue, vsSigOf(1, 0))
	v.set(sel, f)
	s := v.run(vsBlock(v.stmt))
	lib := k < 4 && name == "Do" && isFunc
	vrt.Assert(s.marks >= v.marks, "every other call of the statement is still there")
	if lib && !s.same {
		vrt.Assert(s.calling(f, 0), "a callback call calls the callback")
	} else {
		vrt.Assert(s.same, "other statements are left alone")
	}
	vrt.Assert(s.same || s.typed, "what is written instead has complete type information")
	vrt.Assert(!s.same || !lib || vrt.Choice("recv", c11Exprs) != 0 || vrt.Choice("callback", 7) > 1, "calls with plain arguments are rewritten")
	vrt.Cover(lib && !s.same, "a rewritten statement")
}

// VerifC11OncePlaces: a call of (*sync.Once).Do or of another method in nine
// positions.
//
//verif:harness C11 both
func VerifC11OncePlaces() {
	v := newVstmt()
	once := vsNamed(types.NewPackage("sync", "sync"), "Once", types.NewStruct(nil, nil))
	name := []string{"Do", "Other"}[vrt.Choice("name", 2)]
	recv := v.expr(vrt.Choice("recv", 4), once)
	f, _ := v.callback(vrt.Choice("callback", 3), 0)
	sel := &ast.SelectorExpr{X: recv, Sel: ast.NewIdent(name)}
	vsType(v.p, sel, vsValue, vsSigOf(1, 0))
	v.set(sel, f)
	place := vrt.Choice("place", c11Places)
	s := v.run(v.place(place))
	vrt.Assert(s.marks >= v.marks, "every other call of the statement is still there")
	if name == "Do" && !s.same {
		vrt.Assert(s.calling(f, 0), "a callback call calls the callback")
	} else {
		vrt.Assert(s.same, "other statements are left alone")
	}
	vrt.Assert(s.same || s.typed, "what is written instead has complete type information")
	vrt.Assert(!s.same || name != "Do" || vrt.Choice("recv", 4) != 0 || vrt.Choice("callback", 3) > 1 || !c11Ordinary(place), "calls with plain arguments are rewritten")
	vrt.Cover(name == "Do" && !s.same, "a rewritten statement")
}

// VerifC11Nested: a call that is to be rewritten within a function literal which
// is itself passed to a function: one whose calls are rewritten, another one, a
// deferred or concurrent call or a call in an expression.
//
//verif:harness C11 both
func VerifC11Nested() {
	v := newVstmt()
	sync := types.NewPackage("sync", "sync")
	once := vsNamed(sync, "Once", types.NewStruct(nil, nil))
	f := v.ident("f", vsSigOf(0, 0))
	arg := v.ident("x", vsSortable(v.g, ""))
	less := v.ident("less", vsSigOf(2, 1))
	inner := vrt.Choice("inner", 3)
	switch inner {
	case 0:
		v.set(v.qualified("sort", "Sort", vsSigOf(1, 0)), arg)
	case 1:
		v.set(v.qualified("sort", "Slice", vsSigOf(1, 0)), v.ident("y", types.NewSlice(types.Typ[types.Int])), less)
	case 2:
		v.set(v.once(once, "o"), f)
	}
	outer := vrt.Choice("outer", 7)
	lit := vsLit(vsBlock(v.stmt))
	vsType(v.p, lit, vsValue, vsSigOf(vrt.If(outer == 1, 2, 0), vrt.If(outer == 1, 1, 0)))
	var body ast.Stmt
	call := func(fun ast.Expr, args ...ast.Expr) *ast.CallExpr {
		c := &ast.CallExpr{Fun: fun, Args: args}
		vsType(v.p, c, vsNoValue, types.NewTuple())
		return c
	}
	switch outer {
	case 0:
		body = vsStmt(call(v.once(once, "p"), lit))
	case 1:
		body = vsStmt(call(v.qualified("sort", "Slice", vsSigOf(1, 0)), v.ident("z", types.NewSlice(types.Typ[types.Int])), lit))
	case 2:
		body = vsStmt(call(v.ident("h", vsSigOf(1, 0)), lit))
	case 3:
		body = &ast.DeferStmt{Call: call(lit)}
	case 4:
		body = &ast.GoStmt{Call: call(lit)}
	case 5:
		body = &ast.ReturnStmt{Results: []ast.Expr{lit}}
	case 6:
		body = vsStmt(call(v.ident("h", vsSigOf(1, 0)), call(v.ident("k", vsSigOf(1, 1)), lit)))
	}
	s := v.run(vsBlock(body))
	switch inner {
	case 0:
		vrt.Assert(s.method(arg, "Less", 2) && s.method(arg, "Swap", 2) && s.method(arg, "Len", 0), "a sort call becomes calls of the three methods of its argument")
	case 1:
		vrt.Assert(s.calling(less, 2), "a callback call calls the callback")
	case 2:
		vrt.Assert(s.calling(f, 0), "a callback call calls the callback")
	}
	if outer == 0 {
		vrt.Assert(s.calling(lit, 0), "a callback call calls the callback")
	}
	if outer == 1 {
		vrt.Assert(s.calling(lit, 2), "a callback call calls the callback")
	}
	vrt.Assert(!s.same, "calls with plain arguments are rewritten")
	vrt.Cover(outer == 0 && inner == 2, "one within another")
}

// once is name.Do for a variable of the type given.
func (v *vstmt) once(t types.Type, name string) *ast.SelectorExpr {
	sel := &ast.SelectorExpr{X: v.ident(name, t), Sel: ast.NewIdent("Do")}
	vsType(v.p, sel, vsValue, vsSigOf(1, 0))
	return sel
}
