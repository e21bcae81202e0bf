package analyzer

import (
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/ssa"
)

//verif:use analyzer/syntaxlib.go

// c08Cats are the classifications tried for the examined function.
var c08Cats = []cpb.Capability{
	cpb.Capability_CAPABILITY_UNSPECIFIED,
	cpb.Capability_CAPABILITY_SAFE,
	cpb.Capability_CAPABILITY_NETWORK,
	cpb.Capability_CAPABILITY_UNSAFE_POINTER,
	cpb.Capability_CAPABILITY_REFLECT,
	cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION,
	cpb.Capability_CAPABILITY_UNANALYZED,
}

// vfeat says what the source of a function looks like.
type vfeat struct {
	body, synthetic, unsafe, reflect bool
}

// feature gives function i a source with the chosen features.
func (g *vgraph) feature(i int, f vfeat) {
	fn := g.fns[i].fn
	if f.synthetic {
		fn.Synthetic = "from type information"
	}
	p := g.pkgs[max(g.fns[i].home, 0)]
	if !f.body {
		fn.Blocks = nil
		d := vsDecl("D", nil)
		vsFile(p, d)
		vsSyntax(fn, d)
		return
	}
	operand, stored := types.Type(types.Typ[types.Int]), types.Type(types.Typ[types.Int])
	if f.unsafe {
		operand = vsUnsafe()
	}
	if f.reflect {
		stored = vsReflectValue()
	}
	d := vsDecl("D", vsBlock(vsStmt(vsConv(p, vsPtrInt(), operand))))
	vsFile(p, d)
	vsSyntax(fn, d)
	fn.Blocks[0].Instrs = []ssa.Instruction{vsStore(stored)}
}

// c08Own reports whether a function has a capability itself.
func c08Own(cat cpb.Capability, f vfeat, derive bool, c cpb.Capability) bool {
	derived := false
	switch c {
	case cpb.Capability_CAPABILITY_UNSAFE_POINTER:
		derived = f.body && f.unsafe
	case cpb.Capability_CAPABILITY_REFLECT:
		derived = f.body && f.reflect
	case cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION:
		derived = !f.body && !f.synthetic
	}
	return vrt.If(cat == vgNone, derive && derived, cat == c && cat != vgSafe)
}

// c08Run examines function 1 of a graph in which function 0 calls it and it
// calls function 2, which has a capability.
func c08Run(g *vgraph) {
	f := vfeat{vrt.Bool("body"), vrt.Bool("synthetic"), vrt.Bool("unsafe"), vrt.Bool("reflect")}
	disable := vrt.Bool("disable")
	cat := c08Cats[vrt.Choice("cat", len(c08Cats))]
	g.fns[1].cat = cat
	g.fns[2].cat = cpb.Capability_CAPABILITY_FILES
	g.feature(1, f)
	g.edge(0, 1, 1)
	g.edge(1, 2, 2)
	g.finish()
	qm := make(map[*types.Package]struct{})
	for _, p := range g.tpkgs {
		qm[p] = struct{}{}
	}
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction, DisableBuiltin: disable})
	res := cil.GetCapabilityInfo()
	var count [3][15]int
	for i := 0; i < len(res); i++ {
		for k, fn := range g.fns {
			for c := 0; c < 15; c++ {
				if res[i].GetPath()[0].GetName() == fn.name && res[i].GetCapability() == cpb.Capability(c) {
					count[k][c]++
				}
			}
		}
	}
	for c := 0; c < 15; c++ {
		own := c08Own(cat, f, !disable, cpb.Capability(c))
		through := cpb.Capability(c) == cpb.Capability_CAPABILITY_FILES && cat == vgNone
		want := vrt.If(own || through, 1, 0)
		vrt.Assert(count[0][c] == want, "a caller has exactly the explicit capability, or the derived ones and those behind the function")
		if g.fns[1].pkg >= 0 {
			vrt.Assert(count[1][c] == want, "a function has exactly its explicit capability, or the derived ones and those behind it")
		}
		vrt.Assert(count[2][c] == vrt.If(c == int(cpb.Capability_CAPABILITY_FILES), 1, 0), "an explicitly classified function has its capability alone")
		vrt.Cover(own && cat == vgNone, "a derived capability")
	}
}

// VerifC08Plain: a function unclassified, safe or explicitly given one of five
// capabilities, with or without a body, synthetic or not, with or without an
// unsafe pointer conversion and a store of a reflection value, source checks
// on or off.
//
//verif:harness C08 both
func VerifC08Plain() {
	g := newVgraph("ex.org/a", "ex.org/b")
	vsInfo(g)
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(1, "F2")
	c08Run(g)
}

// VerifC08Method: the same for a method of the queried package itself.
//
//verif:harness C08 both
func VerifC08Method() {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	g.fun(0, "F0")
	g.method(0, "T", "F1")
	g.method(0, "T", "F2")
	c08Run(g)
}

// VerifC08Generic: the same for an instantiation of a generic function, which
// is classified by the name of the generic function.
//
//verif:harness C08 both
func VerifC08Generic() {
	g := newVgraph("ex.org/a", "ex.org/b")
	vsInfo(g)
	g.fun(0, "F0")
	g.instance(1, "F1", "int")
	g.fun(1, "F2")
	c08Run(g)
}

// VerifC08Pair: two functions that call each other freely, each with any of
// four classifications and any source features.
//
//verif:harness C08 both
func VerifC08Pair() {
	g := newVgraph("ex.org/a", "ex.org/b")
	vsInfo(g)
	g.fun(0, "F")
	g.fun(1, "F")
	disable := vrt.Bool("disable")
	var feats [2]vfeat
	feats[0] = vfeat{vrt.Bool("body0"), vrt.Bool("synthetic0"), vrt.Bool("unsafe0"), vrt.Bool("reflect0")}
	feats[1] = vfeat{vrt.Bool("body1"), vrt.Bool("synthetic1"), vrt.Bool("unsafe1"), vrt.Bool("reflect1")}
	g.fns[0].cat = c08Cats[vrt.Choice("cat0", 4)]
	g.fns[1].cat = c08Cats[vrt.Choice("cat1", 4)]
	for i := range feats {
		g.feature(i, feats[i])
	}
	g.edge(0, 1, 1).incl = vrt.Bool("incl01")
	g.edge(1, 0, 2).incl = vrt.Bool("incl10")
	g.finish()
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}, g.tpkgs[1]: {}}
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction, DisableBuiltin: disable})
	res := cil.GetCapabilityInfo()
	for c := 2; c < 15; c++ {
		var own [2]bool
		for k := range own {
			own[k] = c08Own(g.fns[k].cat, feats[k], !disable, cpb.Capability(c))
		}
		for k := range own {
			n := 0
			for i := 0; i < len(res); i++ {
				if res[i].GetPath()[0].GetName() == g.fns[k].name && res[i].GetCapability() == cpb.Capability(c) {
					n++
				}
			}
			e := g.edges[k]
			want := own[k] || (g.fns[k].cat == vgNone && e.incl && own[1-k])
			vrt.Assert(n == vrt.If(want, 1, 0), "a function has its own capabilities and, unless classified, those of the function it calls")
			vrt.Cover(want && !own[k] && c == int(cpb.Capability_CAPABILITY_REFLECT), "a derived capability of the called function")
		}
	}
}
