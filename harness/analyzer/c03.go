package analyzer

import (
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use analyzer/pathlib.go

func c03Dotted(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] == '.' {
			return true
		}
	}
	return false
}

// c03Direct computes the label from the reported path.
func c03Direct(g *vgraph, path []*cpb.Function) bool {
	own := ""
	direct := true
	for i := 0; i < len(path); i++ {
		k := g.index(path[i].GetName())
		home := ""
		for j, f := range g.fns {
			if j == k && f.home >= 0 {
				home = g.tpkgs[max(f.home, 0)].Path()
			}
		}
		if i == 0 {
			own = home
		} else if home != own && c03Dotted(home) {
			direct = false
		}
	}
	return direct
}

func c03Run(g *vgraph, gran Granularity) {
	_, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gran})
	bare := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gran, OmitPaths: true})
	res, res2 := cil.GetCapabilityInfo(), bare.GetCapabilityInfo()
	vrt.Assert(len(res) == len(res2), "omitting paths keeps the number of entries")
	for i := 0; i < len(res); i++ {
		direct := c03Direct(g, res[i].GetPath())
		want := cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
		if direct {
			want = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
		}
		vrt.Assert(res[i].GetCapabilityType() == want, "the label says whether the path stays in the package")
		if i < len(res2) {
			vrt.Assert(res2[i].GetCapabilityType() == want, "the label is the same without paths")
		}
		vrt.Cover(direct && len(res[i].GetPath()) == 3, "direct with a chain")
		vrt.Cover(!direct, "transitive")
	}
}

func c03Graph(gran Granularity, all bool) {
	g := newVgraph("ex.org/a", "ex.org/b", "lib/x")
	g.fun(0, "F0")
	for i := 1; i < 4; i++ {
		switch vrt.Choice("pkg"+vgItoa(i), 3) {
		case 0:
			g.fun(0, "F"+vgItoa(i))
		case 1:
			g.fun(1, "F"+vgItoa(i))
		case 2:
			g.fun(2, "F"+vgItoa(i))
		}
	}
	if all {
		vgComplete(g, false)
	} else {
		for i := 0; i < 3; i++ {
			for j := 1; j < 4; j++ {
				if i != j {
					e := g.edge(i, j, 1+i*4+j)
					e.incl = vrt.Bool("incl" + vgItoa(i) + vgItoa(j))
				}
			}
		}
	}
	g.fns[3].cat = cpb.Capability_CAPABILITY_FILES
	g.finish()
	c03Run(g, gran)
}

// VerifC03Function: four functions, the first in a package whose import path
// has a dot, the others in that package, in another one with a dot, or in one
// without a dot; the last has a capability; the seven calls not made by the
// last or to the first function are freely included; any packages queried.
//
//verif:harness C03 quick split=pkg01:3,pkg02:3,pkg03:3
func VerifC03Function() { c03Graph(GranularityFunction, false) }

// VerifC03Package: the same at package granularity.
//
//verif:harness C03 quick split=pkg01:3,pkg02:3,pkg03:3
func VerifC03Package() { c03Graph(GranularityPackage, false) }

// VerifC03FunctionAll: as VerifC03Function with all twelve calls.
//
//verif:harness C03 thorough split=pkg01:3,pkg02:3,pkg03:3
func VerifC03FunctionAll() { c03Graph(GranularityFunction, true) }

// VerifC03PackageAll: as VerifC03Package with all twelve calls.
//
//verif:harness C03 thorough split=pkg01:3,pkg02:3,pkg03:3
func VerifC03PackageAll() { c03Graph(GranularityPackage, true) }

// VerifC03Kinds: chains through an instantiation of a generic function, a
// method and a wrapper without package, in packages chosen freely; the
// reported function may be in a package without a dot.
//
//verif:harness C03 both split=home:3,gen:3,cat:2
func VerifC03Kinds() {
	g := newVgraph("ex.org/a", "y.org", "lib")
	home, gen := vrt.Choice("home", 3), vrt.Choice("gen", 3)
	g.fun(home, "F0")
	g.instance(gen, "G", "int")
	g.wrapper("W")
	g.method(1, "T", "M")
	if vrt.Choice("cat", 2) == 0 {
		g.fns[1].cat = cpb.Capability_CAPABILITY_FILES
	}
	g.fns[3].cat = cpb.Capability_CAPABILITY_NETWORK
	vgComplete(g, false)
	g.finish()
	c03Run(g, GranularityFunction)
}

// VerifC03Instance: chains through an instantiation of a generic function and a
// literal inside it, in packages chosen freely.
//
//verif:harness C03 both split=gen:3,cat:2
func VerifC03Instance() {
	g := newVgraph("ex.org/a", "y.org", "lib")
	gen := vrt.Choice("gen", 3)
	g.fun(0, "F0")
	g.instance(gen, "G", "int")
	g.literal(1)
	g.fun(2, "H")
	if vrt.Choice("cat", 2) == 0 {
		g.fns[2].cat = cpb.Capability_CAPABILITY_FILES
	}
	g.fns[3].cat = cpb.Capability_CAPABILITY_NETWORK
	vgComplete(g, false)
	g.finish()
	c03Run(g, GranularityFunction)
}

// VerifC03Names: a call from one package to another, for import paths chosen
// from a list with dots in any position, prefixes of each other and equal last
// elements.
//
//verif:harness C03 both
func VerifC03Names() {
	paths := []string{"a", "a/b", "a.b", "a.b/c", "a/b.c", "x/v2.1/y", ".", "std.", "b", "a.bc", "command-line-arguments"}
	i := vrt.Choice("from", len(paths))
	j := vrt.Choice("to", len(paths))
	vrt.Assume(i != j)
	from, to := paths[i], paths[j]
	g := newVgraph(from, to)
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.edge(0, 1, 1)
	g.fns[1].cat = cpb.Capability_CAPABILITY_FILES
	g.finish()
	qm := GetQueriedPackages(g.pkgs[:1])
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	res := cil.GetCapabilityInfo()
	vrt.Assert(len(res) == 1, "one entry")
	if len(res) != 1 {
		return
	}
	dotted := c03Dotted(to)
	vrt.Assert((res[0].GetCapabilityType() == cpb.CapabilityType_CAPABILITY_TYPE_DIRECT) == !dotted, "the label depends on a dot in the callee's import path")
	vrt.Cover(dotted, "dotted")
	vrt.Cover(!dotted, "not dotted")
}

// VerifC03Mixed: a function, a literal inside it, the initializer and a method
// of a package inside its own, and a function with one of two capabilities;
// nine free calls.
//
//verif:harness C03 both split=cat04:2,cat02:2
func VerifC03Mixed() {
	c03Run(vgMixed(), GranularityFunction)
}

// VerifC03Deep: a chain of 70 functions of an undotted package, the first in the
// queried one, whose 41st or 69th may belong to another one; any one of the
// calls is possibly excluded.
//
//verif:harness C03 both split=foreign:3
func VerifC03Deep() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	foreign := []int{-1, 40, 68}[vrt.Choice("foreign", 3)]
	n := 70
	for i := 0; i < n; i++ {
		p := 2
		if i == 0 {
			p = 0
		}
		if i == foreign {
			p = 1
		}
		g.fun(p, "F"+vgItoa(i))
	}
	for i := 0; i+1 < n; i++ {
		g.edge(i, i+1, 0)
	}
	cut := vrt.Choice("cut", n)
	for i, e := range g.edges {
		e.incl = cut != i
	}
	g.fns[n-1].cat = cpb.Capability_CAPABILITY_FILES
	g.finish()
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	for _, gran := range []Granularity{GranularityFunction, GranularityPackage} {
		res := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gran, OmitPaths: true}).GetCapabilityInfo()
		full := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gran}).GetCapabilityInfo()
		vrt.Assert(len(res) == len(full), "omitting paths keeps the number of entries")
		for i := 0; i < len(full) && i < len(res); i++ {
			direct := true
			p := full[i].GetPath()
			for k := 0; k < len(p); k++ {
				if p[k].GetPackage() == "ex.org/b" {
					direct = false
				}
			}
			want := vrt.If(direct, cpb.CapabilityType_CAPABILITY_TYPE_DIRECT, cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE)
			vrt.Assert(full[i].GetCapabilityType() == want, "the label says whether the path stays in the package")
			vrt.Assert(res[i].GetCapabilityType() == want, "the label is the same without paths")
			vrt.Cover(!direct && len(p) > 65, "a long path outside")
			vrt.Cover(direct && len(p) > 20, "a long path inside")
		}
	}
}
