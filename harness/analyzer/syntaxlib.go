package analyzer

import (
	"go/ast"
	"go/token"
	"go/types"

	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

//verif:use analyzer/graphlib.go

// vsInfo gives every package empty type information, and the program its
// packages.
func vsInfo(g *vgraph) {
	m := make(map[*types.Package]*ssa.Package)
	for i, p := range g.pkgs {
		p.TypesInfo = vsNewInfo()
		m[g.tpkgs[i]] = g.spkgs[i]
	}
	vrt.SetField(g.prog, "packages", m)
}

func vsNewInfo() *types.Info {
	return &types.Info{
		Types:      make(map[ast.Expr]types.TypeAndValue),
		Defs:       make(map[*ast.Ident]types.Object),
		Uses:       make(map[*ast.Ident]types.Object),
		Selections: make(map[*ast.SelectorExpr]*types.Selection),
	}
}

const (
	vsNoValue = 1
	vsBuiltin = 2
	vsTypExpr = 3
	vsValue   = 7
)

// vsType records the type of an expression.
func vsType(p *packages.Package, e ast.Expr, mode byte, t types.Type) {
	tv := types.TypeAndValue{Type: t}
	vrt.SetField(&tv, "mode", mode)
	p.TypesInfo.Types[e] = tv
}

// vsConv builds the expression T(x) for a target and an operand type.
func vsConv(p *packages.Package, target, operand types.Type) *ast.CallExpr {
	fun := ast.NewIdent("T")
	arg := ast.NewIdent("x")
	vsType(p, fun, vsTypExpr, target)
	vsType(p, arg, vsValue, operand)
	call := &ast.CallExpr{Fun: fun, Args: []ast.Expr{arg}}
	vsType(p, call, vsValue, target)
	return call
}

func vsStmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

func vsBlock(l ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: l} }

func vsFuncType() *ast.FuncType { return &ast.FuncType{Params: &ast.FieldList{}} }

func vsDecl(name string, body *ast.BlockStmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: vsFuncType(), Body: body}
}

func vsLit(body *ast.BlockStmt) *ast.FuncLit {
	return &ast.FuncLit{Type: vsFuncType(), Body: body}
}

// vsVar is a package-level variable declaration with an initializer.
func vsVar(e ast.Expr) ast.Decl {
	return &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
		&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("v")}, Values: []ast.Expr{e}},
	}}
}

func vsFile(p *packages.Package, decls ...ast.Decl) {
	p.Syntax = append(p.Syntax, &ast.File{Name: ast.NewIdent(p.Name), Decls: decls})
}

// vsSyntax says which syntax a function was built from.
func vsSyntax(fn *ssa.Function, n ast.Node) { vrt.SetField(fn, "syntax", n) }

func vsUnsafe() types.Type { return types.Typ[types.UnsafePointer] }

func vsPtrInt() types.Type { return types.NewPointer(types.Typ[types.Int]) }

// vsReflectValue is the type reflect.Value.
func vsReflectValue() types.Type {
	p := types.NewPackage("reflect", "reflect")
	return types.NewNamed(types.NewTypeName(token.NoPos, p, "Value", nil), types.NewStruct(nil, nil), nil)
}

// vsStore is an instruction that stores through a pointer parameter.
func vsStore(elem types.Type) ssa.Instruction {
	param := &ssa.Parameter{}
	vrt.SetField(param, "typ", types.NewPointer(elem))
	return &ssa.Store{Addr: param}
}

func vsNamed(p *types.Package, name string, u types.Type) types.Type {
	return types.NewNamed(types.NewTypeName(token.NoPos, p, name, nil), u, nil)
}

func vsAlias(p *types.Package, name string, t types.Type) types.Type {
	return types.NewAlias(types.NewTypeName(token.NoPos, p, name, nil), t)
}

// from adds a function built from the given syntax.
func (g *vgraph) from(pkg int, name string, n ast.Node) int {
	i := g.fun(pkg, name)
	vsSyntax(g.fns[i].fn, n)
	return i
}
