package analyzer

import (
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use analyzer/pathlib.go
//verif:use analyzer/bothlib.go

// c02Check checks the paths of a result; longest is the length of the longest
// path that the call graph can have.
func c02Check(g *vgraph, res []*cpb.CapabilityInfo, caps []cpb.Capability, longest int) {
	n := len(g.fns)
	within := make([][][]bool, len(caps))
	for k, c := range caps {
		within[k] = vgWithin(g.adj(), g.targets(c), n-1)
	}
	for i := 0; i < len(res); i++ {
		ci := res[i]
		genuine, described, steps := vgPath(g, ci.GetPath(), ci.GetCapability())
		vrt.Assert(genuine, "a path is a chain of included calls ending at the capability")
		vrt.Assert(described, "path elements carry their own name, package and call position")
		first := -1
		if len(steps) > 0 {
			first = steps[0].idx
		}
		owner := false
		for k, f := range g.fns {
			if k == first && f.pkg >= 0 && ci.GetPackageDir() == g.tpkgs[max(f.pkg, 0)].Path() {
				owner = true
			}
		}
		vrt.Assert(owner, "a path starts at a function of the reported package")
		shorter := false
		for k := range caps {
			for j := 0; j < n; j++ {
				if caps[k] == ci.GetCapability() && j == first {
					// a chain of at most l calls exists for some l < len-1
					for l := 0; l < n; l++ {
						shorter = vrt.If(l+1 < len(steps) && within[k][l][j], true, shorter)
					}
				}
			}
		}
		vrt.Assert(!shorter, "a path is as short as any chain")
		text := ""
		for j := 0; j < len(ci.GetPath()); j++ {
			if j > 0 {
				text += " "
			}
			text += ci.GetPath()[j].GetName()
		}
		vrt.Assert(ci.GetDepPath() == text, "the flat path is the names in order")
		vrt.Cover(len(steps) == longest, "a longest possible path")
		vrt.Cover(len(steps) == 1, "a path of one function")
	}
}

// VerifC02Three: every call graph over three functions in three packages, all
// nine possible calls freely included or excluded, every function
// unclassified, safe or with a capability; any set of packages queried.
//
//verif:harness C02 both split=cat00:3,cat01:3,cat02:3
func VerifC02Three() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(2, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 3)]
	}
	vgComplete(g, true)
	g.finish()
	_, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c02Check(g, cil.GetCapabilityInfo(), vgCats[2:3], len(g.fns))
}

// VerifC02TwoCaps: the same for two capabilities, without recursive calls; the
// first function is unclassified and queried.
//
//verif:harness C02 both split=cat01:4,cat02:4
func VerifC02TwoCaps() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(2, "F2")
	for i := 1; i < 3; i++ {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 4)]
	}
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	qm[g.tpkgs[0]] = struct{}{}
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c02Check(g, cil.GetCapabilityInfo(), vgCats[2:], len(g.fns))
}

// VerifC02Derived: three functions with all calls between them, each
// unclassified, with one of two explicit capabilities or with one of these
// because of what its source does.
//
//verif:harness C02 both split=cat00:4,cat01:4,cat02:4
func VerifC02Derived() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.method(1, "T", "F1")
	g.fun(2, "F2")
	g.derived()
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c02Check(g, cil.GetCapabilityInfo(), g.caps, len(g.fns))
}

// VerifC02Both: three functions with all calls between them, the source of each
// giving it no capability, one of two or both.
//
//verif:harness C02 both split=cat00:4,cat01:4,cat02:4
func VerifC02Both() {
	g := vgBoth()
	_, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c02Check(g, cil.GetCapabilityInfo(), g.caps, len(g.fns))
}

// VerifC02Sites: two functions calling each other and a third through several
// parallel call sites, in any subset, some of them without a position.
//
//verif:harness C02 both
func VerifC02Sites() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.instance(1, "G", "string")
	g.fun(1, "F2")
	g.fns[2].cat = cpb.Capability_CAPABILITY_FILES
	k := 0
	for _, e := range [][3]int{{0, 1, 5}, {0, 1, 3}, {0, 1, 0}, {1, 2, 9}, {1, 2, 8}, {0, 2, 0}, {0, 2, 7}, {1, 0, 2}} {
		g.edge(e[0], e[1], e[2]).incl = vrt.Bool("incl" + vgItoa(k))
		k++
	}
	g.finish()
	_, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c02Check(g, cil.GetCapabilityInfo(), vgCats[2:3], len(g.fns))
}

// VerifC02Package: at package granularity, over three functions of which two
// share a package.
//
//verif:harness C02 both split=cat00:3,cat01:3,cat02:3
func VerifC02Package() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.fun(0, "F1")
	g.fun(1, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 3)]
	}
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityPackage})
	c02Check(g, cil.GetCapabilityInfo(), vgCats[2:3], len(g.fns))
}

// VerifC02Four: four functions, the last one has the capability, the others
// are unclassified or safe; no recursive calls.
//
//verif:harness C02 both split=cat00:2,cat01:2,cat02:2
func VerifC02Four() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.fun(0, "F1")
	g.fun(1, "F2")
	g.fun(2, "F3")
	for i := 0; i < 3; i++ {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 2)]
	}
	g.fns[3].cat = cpb.Capability_CAPABILITY_FILES
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c02Check(g, cil.GetCapabilityInfo(), vgCats[2:3], len(g.fns))
}

// VerifC02Names: functions, methods and instantiations with the same short
// name; nine free calls, two of the functions freely classified.
//
//verif:harness C02 both split=cat01:4,cat03:4
func VerifC02Names() {
	g := vgNames()
	_, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c02Check(g, cil.GetCapabilityInfo(), vgCats[2:], 3)
}

// VerifC02Layers: six functions whose calls only go from earlier to later ones
// (fifteen free calls), the last one has a capability and all are queried.
//
//verif:harness C02 both split=incl0005:2,incl0105:2,incl0205:2,incl0305:2,incl0405:2
func VerifC02Layers() {
	g := vgLayers()
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}, g.tpkgs[1]: {}}
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c02Check(g, cil.GetCapabilityInfo(), vgCats[2:3], len(g.fns))
}

// VerifC02Mixed: a function, a literal inside it, the initializer and a method
// of a package inside its own, and a function with one of two capabilities;
// nine free calls.
//
//verif:harness C02 both split=cat04:2,cat02:2
func VerifC02Mixed() {
	g := vgMixed()
	_, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c02Check(g, cil.GetCapabilityInfo(), g.caps, len(g.fns))
}

// VerifC02Deep: the paths from two functions of a chain of 70 functions, with
// any one of the calls possibly excluded.
//
//verif:harness C02 both
func VerifC02Deep() {
	g, cut := vgDeep(true)
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	res := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction}).GetCapabilityInfo()
	for i := 0; i < len(res); i++ {
		p := res[i].GetPath()
		start := 0
		if len(p) > 0 && p[0].GetName() != "ex.org/a.F00" {
			start = 35
		}
		vrt.Assert(len(p) == 70-start, "the path leads to the capability")
		for k := 0; k < len(p) && start+k < len(g.fns); k++ {
			s := vgStep(g, p[k])
			vrt.Assert(s.idx == start+k && s.ok, "the path follows the chain")
			vrt.Assert(s.site == (k > 0) && (k == 0 || s.line == 1+(start+k-1)%30), "every call has its position")
		}
	}
	vrt.Cover(len(res) == 1 && cut == 17, "only the second")
	vrt.Cover(len(res) == 2, "both")
}

// VerifC02Wide: the path from a function that calls 40 others which all call
// one that has a capability, any one of the calls possibly excluded.
//
//verif:harness C02 both
func VerifC02Wide() {
	g, cut := vgWide(true)
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	res := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction}).GetCapabilityInfo()
	vrt.Assert(len(res) == 1, "one path is reported")
	if len(res) != 1 {
		return
	}
	p := res[0].GetPath()
	vrt.Assert(len(p) == 3, "the path is as short as any")
	if len(p) != 3 {
		return
	}
	a, b, c := vgStep(g, p[0]), vgStep(g, p[1]), vgStep(g, p[2])
	vrt.Assert(a.idx == 0 && c.idx == 1 && b.idx > 1 && a.ok && b.ok && c.ok, "the path leads to the capability")
	vrt.Assert(g.linked(a, b) && g.linked(b, c), "the path uses included calls at their positions")
	vrt.Cover(cut == 0, "the first call is excluded")
}
