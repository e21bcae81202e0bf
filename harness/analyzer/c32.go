package analyzer

import (
	"go/ast"
	"go/token"
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/proto"
)

//verif:use analyzer/pathlib.go
//verif:use analyzer/c05.go
//verif:use analyzer/c07.go
//verif:use analyzer/c09.go
//verif:use analyzer/c11.go
//verif:use analyzer/c24.go

// use makes the graph the one that is analysed.
func (g *vgraph) use() {
	vrt.AllPackagesHook = func([]*packages.Package) *ssa.Program { return g.prog }
	vrt.AllFunctionsHook = func(*ssa.Program) map[*ssa.Function]bool { return g.all }
	vrt.VtaHook = func(map[*ssa.Function]bool) *callgraph.Graph { return g.graph }
}

// c32Graph is a program of two functions in two packages, each with any
// classification, calling each other freely.
func c32Graph(tag string) *vgraph {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.fun(1, "F1")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice(tag+"cat"+vgItoa(i), 4)]
	}
	g.edge(0, 1, 1).incl = vrt.Bool(tag + "call")
	g.edge(1, 0, 2).incl = vrt.Bool(tag + "back")
	g.finish()
	g.ranks()
	return g
}

// VerifC32Programs: two programs with the same names of packages and
// functions, but any classifications and calls of their own, are analysed one
// after the other; the second result is that of the second program alone, and
// analysing the first again gives its first result.
//
//verif:harness C32 both split=pcat00:4,pcat01:4
func VerifC32Programs() {
	p, q := c32Graph("p"), c32Graph("q")
	all := func(g *vgraph) map[*types.Package]struct{} {
		return map[*types.Package]struct{}{g.tpkgs[0]: {}, g.tpkgs[1]: {}}
	}
	p.use()
	a := GetCapabilityInfo(p.pkgs, all(p), &Config{Classifier: p, Granularity: GranularityFunction}).GetCapabilityInfo()
	n := len(a)
	q.use()
	b := GetCapabilityInfo(q.pkgs, all(q), &Config{Classifier: q, Granularity: GranularityFunction})
	c01Check(q, []bool{true, true}, b, q.caps)
	p.use()
	again := GetCapabilityInfo(p.pkgs, all(p), &Config{Classifier: p, Granularity: GranularityFunction}).GetCapabilityInfo()
	vrt.Assert(len(a) == n && c32Same(a, again), "the first program has its result again")
	vrt.Cover(n == 2 && len(b.GetCapabilityInfo()) == 1, "results of different size")
}

func c32Same(a, b []*cpb.CapabilityInfo) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].GetCapability() != b[i].GetCapability() || a[i].GetPackageDir() != b[i].GetPackageDir() || a[i].GetPackageName() != b[i].GetPackageName() ||
			a[i].GetCapabilityType() != b[i].GetCapabilityType() || a[i].GetDepPath() != b[i].GetDepPath() || !c07Same(a[i].GetPath(), b[i].GetPath()) {
			return false
		}
	}
	return true
}

// VerifC32Settings: one program of three functions is analysed under any
// settings, then in any way under any other settings, then under the first
// settings again, with the same result; the settings and the packages handed
// in are as before.
//
//verif:harness C32 both split=gran1:4,mode:5,cat02:4
func VerifC32Settings() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.method(0, "T", "F1")
	g.fun(1, "F2")
	g.fns[1].cat = vgCats[2*vrt.Choice("cat01", 2)]
	g.fns[2].cat = vgCats[vrt.Choice("cat02", 4)]
	vgComplete(g, false)
	g.finish()
	grans := []Granularity{GranularityUnset, GranularityFunction, GranularityPackage, GranularityIntermediate}
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	if vrt.Bool("both") {
		qm[g.tpkgs[1]] = struct{}{}
	}
	nq := len(qm)
	c1 := &Config{Classifier: g, Granularity: grans[vrt.Choice("gran1", 4)], OmitPaths: vrt.Bool("omit1")}
	c2 := &Config{Classifier: g, Granularity: grans[vrt.Choice("gran2", 4)], OmitPaths: vrt.Bool("omit2"), DisableBuiltin: vrt.Bool("disable2"), CapabilitySet: vgSels[2].set()}
	k1, k2 := *c1, *c2
	a := GetCapabilityInfo(g.pkgs, qm, c1).GetCapabilityInfo()
	n := len(a)
	switch vrt.Choice("mode", 5) {
	case 0:
		GetCapabilityInfo(g.pkgs, qm, c2)
	case 1:
		GetCapabilityStats(g.pkgs, qm, c2)
	case 2:
		GetCapabilityCounts(g.pkgs, qm, c2)
	case 3:
		vrt.OutReset("stdout")
		err := RunCapslock(nil, "graph", g.pkgs, qm, c2)
		vrt.Assert(err == nil, "the graph is written")
	case 4:
		vrt.ReadFileHook = func(string) ([]byte, error) { return nil, nil }
		vrt.UnmarshalHook = func([]byte, proto.Message) error { return nil }
		RunCapslock([]string{"base.json"}, "compare", g.pkgs, qm, c2)
	}
	b := GetCapabilityInfo(g.pkgs, qm, c1).GetCapabilityInfo()
	vrt.Assert(len(a) == n && c32Same(a, b), "the result is the same again")
	vrt.Assert(*c1 == k1 && *c2 == k2, "the settings are not changed")
	_, ok0 := qm[g.tpkgs[0]]
	vrt.Assert(len(qm) == nq && ok0, "the set of packages is not changed")
	vrt.Assert(len(g.pkgs) == 2 && g.pkgs[0].Types == g.tpkgs[0] && g.pkgs[1].Types == g.tpkgs[1], "the packages are not changed")
	vrt.Cover(n > 1, "several entries")
}

// c32Lines are the lines written.
func c32Lines() (on []bool, lines []string) {
	for i := 0; i < vrt.OutLines("stdout"); i++ {
		present, text := vrt.OutLine("stdout", i)
		on, lines = append(on, present), append(lines, text)
	}
	return
}

// VerifC32Selection: a capability selection used in any analysis still means
// the same afterwards.
//
//verif:harness C32 both split=sel:5,gran:4
func VerifC32Selection() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fns[1].cat = vgCats[vrt.Choice("cat01", 4)]
	g.edge(0, 1, 1).incl = vrt.Bool("call")
	g.finish()
	sel := vgSels[vrt.Choice("sel", len(vgSels))]
	cs := sel.set()
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	gran := []Granularity{GranularityUnset, GranularityFunction, GranularityPackage, GranularityIntermediate}[vrt.Choice("gran", 4)]
	cfg := &Config{Classifier: g, Granularity: gran, CapabilitySet: cs}
	a := GetCapabilityInfo(g.pkgs, qm, cfg).GetCapabilityInfo()
	vrt.OutReset("stdout")
	err := RunCapslock(nil, "graph", g.pkgs, qm, cfg)
	vrt.Assert(err == nil, "the graph is written")
	on, first := c32Lines()
	vrt.OutReset("stdout")
	err = RunCapslock(nil, "graph", g.pkgs, qm, cfg)
	vrt.Assert(err == nil, "the graph is written again")
	on2, second := c32Lines()
	same := true
	for i := range first {
		n := 0
		for k := range first {
			if on[k] && first[k] == first[i] {
				n++
			}
		}
		for k := range second {
			if on2[k] && second[k] == first[i] {
				n--
			}
		}
		if on[i] && n != 0 {
			same = false
		}
	}
	n, m := 0, 0
	for i := range on {
		if on[i] {
			n++
		}
	}
	for i := range on2 {
		if on2[i] {
			m++
		}
	}
	vrt.Assert(same && n == m, "the graph is the same again")
	b := GetCapabilityInfo(g.pkgs, qm, cfg).GetCapabilityInfo()
	vrt.Assert(c32Same(a, b), "the result is the same again")
	for _, c := range g.caps {
		vrt.Assert(cs.Has(c) == sel.has(c), "the selection has the same members")
	}
	vrt.Cover(len(a) == 1 && n > 2, "a result")
}

// VerifC32Source: analysing a function again that contains a call of one of
// four kinds the analysis treats specially, or a similar one, finds the calls
// found the first time, in any of nine positions.
//
//verif:harness C32 both
func VerifC32Source() {
	v := newVstmt()
	kind := vrt.Choice("kind", 5)
	switch kind {
	case 0:
		v.set(v.qualified("sort", "Sort", vsSigOf(1, 0)), v.expr(vrt.Choice("arg", 3), vsSortable(v.g, "")))
	case 1, 2:
		f, _ := v.callback(vrt.Choice("callback", 6), 2)
		v.set(v.qualified("sort", []string{"Slice", "SliceStable"}[kind-1], vsSigOf(2, 0)), v.expr(0, types.Typ[types.Int]), f)
	case 3:
		f, _ := v.callback(vrt.Choice("callback", 6), 0)
		once := types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("sync", "sync"), "Once", nil), types.NewStruct(nil, nil), nil)
		sel := &ast.SelectorExpr{X: v.expr(0, once), Sel: ast.NewIdent("Do")}
		vsType(v.p, sel, vsValue, vsSigOf(1, 0))
		v.set(sel, f)
	case 4:
		f, _ := v.callback(vrt.Choice("callback", 6), 2)
		v.set(v.qualified("ex.org/sort", "Slice", vsSigOf(2, 0)), v.expr(1, types.Typ[types.Int]), f)
	}
	d := vsDecl("D", vsBlock(v.place(vrt.Choice("place", c11Places))))
	vsFile(v.p, d)
	v.g.from(0, "D", d)
	v.g.finish()
	qm := map[*types.Package]struct{}{v.g.tpkgs[0]: {}}
	GetCapabilityInfo(v.g.pkgs, qm, &Config{Classifier: v.g, Granularity: GranularityFunction})
	var first, second []ast.Expr
	collect := func(to *[]ast.Expr) {
		ast.Inspect(d, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				*to = append(*to, c.Fun)
			}
			return true
		})
	}
	collect(&first)
	GetCapabilityInfo(v.g.pkgs, qm, &Config{Classifier: v.g, Granularity: GranularityFunction})
	collect(&second)
	same := len(first) == len(second)
	for i := 0; i < len(first) && i < len(second); i++ {
		if first[i] != second[i] {
			same = false
		}
	}
	vrt.Assert(same, "the calls found are the same again")
	vrt.Cover(len(first) == 3 && kind == 0, "a sort call")
	vrt.Cover(len(first) == 2 && kind == 3, "a function run once")
}

// c32Derived is a program whose functions have capabilities only because of
// their source: F may store a value of a type containing a reflection value, G
// may convert an unsafe pointer, H may have no body, and the initialization
// may convert an unsafe pointer.
type c32Derived struct {
	g    *vgraph
	want []bool
}

func newC32Derived(tag string) *c32Derived {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	p, tp := g.pkgs[0], g.tpkgs[0]
	d := &c32Derived{g: g}
	for _, name := range []string{"refl", "unsafe", "bodyless", "init"} {
		d.want = append(d.want, vrt.Bool(tag+name))
	}
	g.fun(0, "F")
	var elem types.Type = types.Typ[types.Int]
	if d.want[0] {
		elem = vsReflectValue()
	}
	t := vsNamed(tp, "T", types.NewStruct([]*types.Var{types.NewField(token.NoPos, tp, "x", elem, false)}, nil))
	g.fns[0].fn.Blocks[0].Instrs = []ssa.Instruction{vsStore(t)}
	operand := func(on bool) types.Type {
		if on {
			return vsUnsafe()
		}
		return vsPtrInt()
	}
	decl := vsDecl("G", vsBlock(vsStmt(vsConv(p, vsPtrInt(), operand(d.want[1])))))
	vsFile(p, decl, vsVar(vsConv(p, vsPtrInt(), operand(d.want[3]))))
	g.from(0, "G", decl)
	g.fun(0, "H")
	if d.want[2] {
		g.fns[2].fn.Blocks = nil
	}
	g.initOf(0)
	g.finish()
	return d
}

// check analyses the program and compares with what it contains.
func (d *c32Derived) check() {
	d.g.use()
	qm := map[*types.Package]struct{}{d.g.tpkgs[0]: {}}
	res := GetCapabilityInfo(d.g.pkgs, qm, &Config{Classifier: d.g, Granularity: GranularityFunction}).GetCapabilityInfo()
	caps := []cpb.Capability{cpb.Capability_CAPABILITY_REFLECT, cpb.Capability_CAPABILITY_UNSAFE_POINTER, cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, cpb.Capability_CAPABILITY_UNSAFE_POINTER}
	n := make([]int, len(d.want))
	known := true
	for i := 0; i < len(res); i++ {
		hit := false
		for k, f := range d.g.fns {
			if res[i].GetPath()[0].GetName() == f.name && res[i].GetCapability() == caps[k] {
				n[k]++
				hit = true
			}
		}
		known = known && hit
	}
	vrt.Assert(known, "nothing else is found")
	for k, w := range d.want {
		vrt.Assert(n[k] == vrt.If(w, 1, 0), "what the source of this program contains is found")
	}
}

// VerifC32Derived: two programs with the same names, whose functions may store
// reflection values, convert unsafe pointers, have no body or have such an
// initialization, are analysed one after the other and the first again; each
// has the findings of its own source.
//
//verif:harness C32 both
func VerifC32Derived() {
	p, q := newC32Derived("p"), newC32Derived("q")
	p.check()
	q.check()
	p.check()
	vrt.Cover(!p.want[0] && q.want[0] && p.want[1] && !q.want[1] && !p.want[2] && q.want[3], "different findings")
}

// VerifC32Inventory: the inventories of two programs analysed one after the
// other, of four packages, two imports being free, two modules, in any of
// two versions, and ignored files, are those of each program.
//
//verif:harness C32 both
func VerifC32Inventory() {
	mk := func(tag string) *vimports {
		v := newVimports("ex.org/a", "ex.org/b", "os", "ex.org/c")
		v.root[0] = true
		v.imports[0][1] = vrt.Bool(tag + "ab")
		v.imports[0][2] = vrt.Bool(tag + "ac")
		v.imports[1][3] = true
		v.mod[0] = vrt.Choice(tag+"mod0", 2)
		v.mod[1] = vrt.Choice(tag+"mod1", 3)
		v.ignored[1] = vrt.Choice(tag+"ignored", 2)
		v.finish()
		return v
	}
	v, w := mk("p"), mk("q")
	for _, x := range []*vimports{v, w, v} {
		x.g.use()
		cil := GetCapabilityInfo(x.roots, x.queried(), &Config{Classifier: x.g, Granularity: GranularityFunction})
		x.modules(cil.GetModuleInfo())
		x.packages(cil.GetPackageInfo())
	}
	vrt.Cover(v.imports[0][1] && !w.imports[0][1] && v.mod[0] == 0 && w.mod[0] == 1, "different inventories")
}
