package analyzer

import (
	"go/ast"
	"go/token"
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

//verif:use analyzer/syntaxlib.go

// c09Run reports, for each function, how many unsafe-pointer entries it has;
// there are no calls, so these are its own findings.
func c09Run(g *vgraph, pkgs []*packages.Package) []int {
	g.finish()
	qm := make(map[*types.Package]struct{})
	for _, p := range g.tpkgs {
		qm[p] = struct{}{}
	}
	cil := GetCapabilityInfo(pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	res := cil.GetCapabilityInfo()
	n := make([]int, len(g.fns))
	other := false
	for i := 0; i < len(res); i++ {
		if res[i].GetCapability() != cpb.Capability_CAPABILITY_UNSAFE_POINTER {
			other = true
		}
		for k, f := range g.fns {
			if res[i].GetPath()[0].GetName() == f.name {
				n[k]++
			}
		}
	}
	vrt.Assert(!other, "no other capability is found")
	return n
}

// initOf adds the initializer of a package.
func (g *vgraph) initOf(pkg int) int {
	i := g.fun(pkg, "init")
	g.fns[i].fn.Synthetic = "package initializer"
	g.spkgs[pkg].Members["init"] = g.fns[i].fn
	return i
}

// VerifC09Types: a function with one call expression whose callee is a type or
// a function value, over nine target types, eight operand types and written
// with or without parentheses; a second function has none.
//
//verif:harness C09 both
func VerifC09Types() {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	p, tp := g.pkgs[0], g.tpkgs[0]
	targets := []types.Type{
		vsPtrInt(),
		types.Typ[types.Uintptr],
		vsNamed(tp, "U", types.Typ[types.Uintptr]),
		vsAlias(tp, "AU", types.Typ[types.Uintptr]),
		vsUnsafe(),
		vsNamed(tp, "PI", vsPtrInt()),
		vsAlias(tp, "AP", vsPtrInt()),
		vsNamed(tp, "UP", vsUnsafe()),
		vsAlias(tp, "AN", vsNamed(tp, "U2", types.Typ[types.Uintptr])),
	}
	operands := []types.Type{
		vsUnsafe(),
		vsNamed(tp, "P", vsUnsafe()),
		vsAlias(tp, "A", vsUnsafe()),
		vsAlias(tp, "A2", vsNamed(tp, "P2", vsUnsafe())),
		vsPtrInt(),
		types.Typ[types.Uintptr],
		types.Typ[types.UntypedNil],
		nil,
	}
	t, o := vrt.Choice("target", len(targets)), vrt.Choice("operand", len(operands))
	isType := vrt.Bool("isType")
	two := vrt.Bool("two")
	call := vsConv(p, targets[t], operands[o])
	if vrt.Bool("paren") {
		par := &ast.ParenExpr{X: call.Fun}
		vsType(p, par, vrt.If(isType, byte(vsTypExpr), byte(vsValue)), targets[t])
		call.Fun = par
	} else if !isType {
		vsType(p, call.Fun, vsValue, targets[t])
	}
	if two {
		vrt.Assume(!isType)
		arg := ast.NewIdent("y")
		vsType(p, arg, vsValue, vsUnsafe())
		call.Args = append(call.Args, arg)
	}
	d0 := vsDecl("D0", vsBlock(vsStmt(call)))
	d1 := vsDecl("D1", vsBlock(vsStmt(vsConv(p, types.Typ[types.Int], types.Typ[types.Int]))))
	vsFile(p, d0, d1)
	g.from(0, "D0", d0)
	g.from(0, "D1", d1)
	g.initOf(0)
	n := c09Run(g, g.pkgs)
	want := isType && o < 4 && (t == 0 || t == 4 || t == 5 || t == 6 || t == 7)
	vrt.Assert(n[0] == vrt.If(want, 1, 0), "exactly a conversion of an unsafe pointer to something other than an integer is found")
	vrt.Assert(n[1] == 0 && n[2] == 0, "no other function is concerned")
	vrt.Cover(want, "a conversion")
}

// c09Op is an operand type that is unsafe.Pointer or not.
func c09Op(b bool) types.Type {
	var t types.Type = types.Typ[types.Int]
	if b {
		t = vsUnsafe()
	}
	return t
}

// VerifC09Nest: a declared function with a literal within a literal and code
// after them, a method, an initialized variable and a literal initializing a
// variable, a second instantiation of the first function; a conversion is
// present or not in each of the eight places.
//
//verif:harness C09 both
func VerifC09Nest() {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	p := g.pkgs[0]
	var at [8]bool
	conv := func(i int) ast.Stmt {
		at[i] = vrt.Bool("at" + vgItoa(i))
		return vsStmt(vsConv(p, vsPtrInt(), c09Op(at[i])))
	}
	l1 := vsLit(vsBlock(conv(2)))
	l0 := vsLit(vsBlock(conv(1), vsStmt(l1)))
	d0 := vsDecl("D0", vsBlock(conv(0), vsStmt(l0), conv(3)))
	d1 := vsDecl("D1", vsBlock(conv(4)))
	d1.Recv = &ast.FieldList{}
	l2 := vsLit(vsBlock(conv(6)))
	v0 := vsVar(conv(5).(*ast.ExprStmt).X)
	v1 := vsVar(l2)
	d2 := vsDecl("D2", vsBlock(conv(7)))
	vsFile(p, d0, v0, d1)
	vsFile(p, v1, d2)
	g.from(0, "D0", d0)
	g.from(0, "D0$1", l0)
	g.from(0, "D0$1$1", l1)
	m := g.method(0, "T", "D1")
	vsSyntax(g.fns[m].fn, d1)
	g.initOf(0)
	g.from(0, "init$1", l2)
	g.from(0, "D2", d2)
	g.from(0, "D0[int]", d0)
	n := c09Run(g, g.pkgs)
	want := []bool{at[0] || at[3], at[1], at[2], at[4], at[5], at[6], at[7], at[0] || at[3]}
	for i := range want {
		vrt.Assert(n[i] == vrt.If(want[i], 1, 0), "a conversion is found in the innermost function containing it and in no other")
		vrt.Cover(want[i] && i == 2, "a conversion in a nested literal")
	}
}

// c09Shape places an expression somewhere in a statement.
func c09Shape(k int, e ast.Expr) ast.Stmt {
	id := func() *ast.Ident { return ast.NewIdent("i") }
	switch k {
	case 0:
		return vsStmt(e)
	case 1:
		return &ast.AssignStmt{Lhs: []ast.Expr{id()}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
	case 2:
		return &ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: e}}, Tok: token.ASSIGN, Rhs: []ast.Expr{id()}}
	case 3:
		return &ast.IfStmt{Cond: e, Body: vsBlock()}
	case 4:
		return &ast.IfStmt{Cond: id(), Body: vsBlock(), Else: vsBlock(vsStmt(e))}
	case 5:
		return &ast.ForStmt{Cond: e, Body: vsBlock()}
	case 6:
		return &ast.ForStmt{Post: &ast.IncDecStmt{X: e, Tok: token.INC}, Body: vsBlock()}
	case 7:
		return &ast.RangeStmt{Key: id(), X: e, Body: vsBlock()}
	case 8:
		return &ast.SwitchStmt{Tag: e, Body: vsBlock()}
	case 9:
		return &ast.SwitchStmt{Body: vsBlock(&ast.CaseClause{List: []ast.Expr{e}})}
	case 10:
		return &ast.SwitchStmt{Body: vsBlock(&ast.CaseClause{Body: []ast.Stmt{vsStmt(e)}})}
	case 11:
		return &ast.TypeSwitchStmt{Assign: vsStmt(&ast.TypeAssertExpr{X: e}), Body: vsBlock()}
	case 12:
		return &ast.SelectStmt{Body: vsBlock(&ast.CommClause{Comm: &ast.SendStmt{Chan: id(), Value: e}})}
	case 13:
		return &ast.GoStmt{Call: &ast.CallExpr{Fun: id(), Args: []ast.Expr{id(), e}}}
	case 14:
		return &ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: id()}}}
	case 15:
		return &ast.ReturnStmt{Results: []ast.Expr{id(), e}}
	case 16:
		return &ast.LabeledStmt{Label: id(), Stmt: vsBlock(vsStmt(e))}
	case 17:
		return vsStmt(&ast.CompositeLit{Elts: []ast.Expr{&ast.KeyValueExpr{Key: id(), Value: e}}})
	case 18:
		return vsStmt(&ast.IndexExpr{X: id(), Index: e})
	case 19:
		return vsStmt(&ast.SliceExpr{X: id(), High: e})
	case 20:
		return vsStmt(&ast.UnaryExpr{Op: token.AND, X: &ast.ParenExpr{X: e}})
	case 21:
		return vsStmt(&ast.BinaryExpr{X: id(), Op: token.EQL, Y: e})
	case 22:
		return &ast.DeclStmt{Decl: vsVar(e).(*ast.GenDecl)}
	}
	return &ast.SendStmt{Chan: e, Value: id()}
}

// VerifC09Places: one conversion in each of 24 statement and expression
// positions of a function, or as the operand of an outer conversion; the other
// function of the package has the same statement without it.
//
//verif:harness C09 both
func VerifC09Places() {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	p := g.pkgs[0]
	k := vrt.Choice("shape", 24)
	in, out, wrap := vrt.Bool("in"), vrt.Bool("out"), vrt.Bool("wrap")
	place := func(b bool) ast.Stmt {
		e := vsConv(p, vsPtrInt(), c09Op(b))
		if wrap {
			// an outer conversion that does not matter itself
			o := vsConv(p, vsPtrInt(), vsPtrInt())
			vsType(p, e, vsValue, vsPtrInt())
			o.Args[0] = e
			e = o
		}
		return c09Shape(k, e)
	}
	d0 := vsDecl("D0", vsBlock(place(in)))
	d1 := vsDecl("D1", vsBlock(place(out)))
	vsFile(p, d0, d1)
	g.from(0, "D0", d0)
	g.from(0, "D1", d1)
	g.initOf(0)
	n := c09Run(g, g.pkgs)
	vrt.Assert(n[0] == vrt.If(in, 1, 0) && n[1] == vrt.If(out, 1, 0) && n[2] == 0, "a conversion is found wherever it is in a function")
	vrt.Cover(in && !out, "a conversion in one of the functions")
}

// VerifC09Packages: four packages, the last imported by the second and third
// and these by the first, which alone is asked for; two files in one of them;
// a conversion is present or not in a variable and in a function of each.
//
//verif:harness C09 both
func VerifC09Packages() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib/b", "lib")
	vsInfo(g)
	var fnAt, varAt [4]bool
	for i, p := range g.pkgs {
		varAt[i] = vrt.Bool("v" + vgItoa(i))
		fnAt[i] = vrt.Bool("f" + vgItoa(i))
		d := vsDecl("D", vsBlock(vsStmt(vsConv(p, vsPtrInt(), c09Op(fnAt[i])))))
		v := vsVar(vsConv(p, vsPtrInt(), c09Op(varAt[i])))
		if i == 1 {
			vsFile(p, v)
			vsFile(p, d)
		} else {
			vsFile(p, d, v)
		}
		g.from(i, "D", d)
		g.initOf(i)
	}
	imp := func(i int, js ...int) {
		g.pkgs[i].Imports = make(map[string]*packages.Package)
		for _, j := range js {
			g.pkgs[i].Imports[g.pkgs[j].PkgPath] = g.pkgs[j]
		}
	}
	imp(0, 1, 2)
	imp(1, 3)
	imp(2, 3)
	n := c09Run(g, g.pkgs[:1])
	for i := range g.pkgs {
		vrt.Assert(n[2*i] == vrt.If(fnAt[i], 1, 0), "a conversion in a function of a dependency is found there")
		vrt.Assert(n[2*i+1] == vrt.If(varAt[i], 1, 0), "a conversion in a variable belongs to its package's initializer")
		vrt.Cover(varAt[i] && i == 3, "a conversion in a variable of an indirect dependency")
	}
}

var _ ssa.Member
