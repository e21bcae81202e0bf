package analyzer

import (
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use analyzer/graphlib.go
//verif:use analyzer/bothlib.go

// c01Check compares a per-function report with the reachability relation.
func c01Check(g *vgraph, queried []bool, cil *cpb.CapabilityInfoList, caps []cpb.Capability) {
	res := cil.GetCapabilityInfo()
	count := make([][]int, len(caps))
	for ci := range caps {
		count[ci] = make([]int, len(g.fns))
	}
	known := true
	sorted := true
	prev := -1
	for i := 0; i < len(res); i++ {
		c := res[i].GetCapability()
		name := ""
		if len(res[i].GetPath()) > 0 {
			name = res[i].GetPath()[0].GetName()
		}
		key := -1
		for k, f := range g.fns {
			for ci := range caps {
				if f.name == name && caps[ci] == c {
					count[ci][k]++
					key = int(c)*100 + f.rank
					if f.pkg < 0 {
						known = false
					} else if res[i].GetPackageDir() != g.tpkgs[f.pkg].Path() || res[i].GetPackageName() != g.tpkgs[f.pkg].Name() {
						known = false
					}
				}
			}
		}
		if key < 0 {
			known = false
		}
		if key < prev {
			sorted = false
		}
		prev = key
	}
	vrt.Assert(known, "entries name their own function, its package and a real capability")
	vrt.Assert(sorted, "entries are ordered by capability, package, methods last, name")
	for ci, c := range caps {
		reach := g.reach(c)
		for k, f := range g.fns {
			want := f.pkg >= 0 && queried[max(f.pkg, 0)] && reach[k]
			vrt.Assert(count[ci][k] == vrt.If(want, 1, 0), "exactly the queried functions that reach the capability have one entry")
			vrt.Cover(want && f.cat == vgNone, "an entry is expected through a chain")
		}
	}
	vrt.Observe("entries", len(res))
}

// vgQueried lets any set of packages be queried.
func vgQueried(g *vgraph) ([]bool, map[*types.Package]struct{}) {
	q := make([]bool, len(g.tpkgs))
	m := make(map[*types.Package]struct{})
	for i, p := range g.tpkgs {
		q[i] = vrt.Bool("queried" + vgItoa(i))
		if q[i] {
			m[p] = struct{}{}
		}
	}
	return q, m
}

// vgComplete adds all possible calls, each freely included or excluded.
func vgComplete(g *vgraph, self bool) {
	n := len(g.fns)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j && !self {
				continue
			}
			e := g.edge(i, j, 1+i*n+j)
			e.incl = vrt.Bool("incl" + vgItoa(i) + vgItoa(j))
		}
	}
}

func c01Run(g *vgraph, caps []cpb.Capability) {
	g.ranks()
	q, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c01Check(g, q, cil, caps)
}

// VerifC01Incl: every call graph over three functions in three packages; all
// nine possible calls (recursive ones included) are present and each is
// included or excluded freely by the classifier; every function is
// unclassified, safe or explicitly given one of two capabilities; any set of
// packages is queried.
//
//verif:harness C01 both split=cat00:4,cat01:4
func VerifC01Incl() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(2, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 4)]
	}
	vgComplete(g, true)
	g.finish()
	c01Run(g, vgCats[2:])
}

// VerifC01Derived: three functions with all calls between them, each
// unclassified, with one of two explicit capabilities or with one of these
// because of what its source does.
//
//verif:harness C01 both split=cat00:4,cat01:4,cat02:4
func VerifC01Derived() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.method(1, "T", "F1")
	g.fun(2, "F2")
	g.derived()
	vgComplete(g, false)
	g.finish()
	c01Run(g, g.caps)
}

// VerifC01Both: three functions with all calls between them, the source of each
// giving it no capability, one of two or both.
//
//verif:harness C01 both split=cat00:4,cat01:4,cat02:4
func VerifC01Both() {
	g := vgBoth()
	c01Run(g, g.caps)
}

// VerifC01Literals: a function, a literal inside it and a function of another
// package with all calls between them, each unclassified, safe or with one of
// two capabilities.
//
//verif:harness C01 both split=cat00:4,cat01:4,cat02:4
func VerifC01Literals() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.literal(0)
	g.fun(1, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 4)]
	}
	vgComplete(g, false)
	g.finish()
	c01Run(g, vgCats[2:])
}

// VerifC01FourQuick: the same over four functions, two of them (one a method)
// in the same package, without recursive calls; one function has a capability
// and the others are unclassified, safe or have another capability.
//
//verif:harness C01 quick split=cat00:3,cat01:3,cat02:3
func VerifC01FourQuick() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.method(0, "T", "F0")
	g.fun(0, "F1")
	g.fun(1, "F2")
	g.fun(2, "F3")
	cats := []cpb.Capability{vgNone, vgSafe, cpb.Capability_CAPABILITY_NETWORK}
	for i := 0; i < 3; i++ {
		g.fns[i].cat = cats[vrt.Choice("cat"+vgItoa(i), 3)]
	}
	g.fns[3].cat = cpb.Capability_CAPABILITY_FILES
	vgComplete(g, false)
	g.finish()
	c01Run(g, vgCats[2:])
}

// VerifC01Four: the same over four functions, two of them in one package, all
// sixteen calls and all classifications of each function.
//
//verif:harness C01 thorough split=cat00:4,cat01:4,cat02:4,cat03:4
func VerifC01Four() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.method(0, "T", "F0")
	g.fun(0, "F1")
	g.fun(1, "F2")
	g.fun(2, "F3")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 4)]
	}
	vgComplete(g, true)
	g.finish()
	c01Run(g, vgCats[2:])
}

// VerifC01Absent: every call graph over three functions where each possible
// call is absent, present, or present and excluded; two functions are in the
// same package.
//
//verif:harness C01 both split=cat00:3,cat01:3,cat02:3
func VerifC01Absent() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.fun(0, "F1")
	g.fun(1, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 3)]
	}
	vgComplete(g, false)
	for _, e := range g.edges {
		e.exists = vrt.Bool("call" + vgItoa(e.from) + vgItoa(e.to))
	}
	g.finish()
	c01Run(g, vgCats[2:3])
}

// VerifC01Kinds: a method, an instantiation of a generic function, a wrapper
// belonging to no package and a plain function, in this order in a chain whose
// last function has a capability, with freely chosen calls skipping or
// returning along the chain.
//
//verif:harness C01 both split=cat00:4,cat01:4,cat02:2,cat03:4
func VerifC01Kinds() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.method(0, "T", "M")
	g.instance(0, "G", "int")
	g.wrapper("W")
	g.fun(1, "F")
	g.fns[0].cat = vgCats[vrt.Choice("cat00", 4)]
	g.fns[1].cat = vgCats[vrt.Choice("cat01", 4)]
	g.fns[3].cat = vgCats[vrt.Choice("cat03", 4)]
	line := 1
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			if j == i+1 || j == i+2 || j == i-1 {
				e := g.edge(i, j, line)
				e.incl = vrt.Bool("incl" + vgItoa(i) + vgItoa(j))
				line++
			}
		}
	}
	if vrt.Choice("cat02", 2) == 0 {
		g.finish()
	} else {
		g.finishReversed()
	}
	c01Run(g, vgCats[2:])
}

// VerifC01AllCaps: a function calling another; each has any capability of the
// fifteen defined ones as its classification, the call is included or not.
//
//verif:harness C01 both
func VerifC01AllCaps() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fns[0].cat = cpb.Capability(vrt.Choice("cat00", 15))
	g.fns[1].cat = cpb.Capability(vrt.Choice("cat01", 15))
	vgComplete(g, false)
	g.finish()
	var caps []cpb.Capability
	for c := 2; c < 15; c++ {
		caps = append(caps, cpb.Capability(c))
	}
	c01Run(g, caps)
}

// VerifC01Chain: a chain of 10 functions in alternating packages whose last
// one has a capability, with one call of the chain possibly excluded and one
// function possibly safe, at any position.
//
//verif:harness C01 both split=cut:10
func VerifC01Chain() {
	g := newVgraph("ex.org/a", "ex.org/b")
	n := 10
	for i := 0; i < n; i++ {
		g.fun(i%2, "F"+vgItoa(i))
	}
	for i := 0; i+1 < n; i++ {
		g.edge(i, i+1, 1+i)
	}
	cut := vrt.Choice("cut", n)
	for i, e := range g.edges {
		e.incl = cut != i
	}
	safe := vrt.Choice("safe", n)
	for i := 0; i < n-1; i++ {
		g.fns[i].cat = vrt.If(safe == i, vgSafe, vgNone)
	}
	g.fns[n-1].cat = cpb.Capability_CAPABILITY_FILES
	g.finish()
	c01Run(g, vgCats[2:3])
}

// vgNames builds a graph whose functions have the same short name: a plain
// function calls methods of two types, two instantiations of one generic
// function and the function of another package of the same package name, and
// each of these calls the last one, which has a capability; all calls are
// freely included and two of the functions are freely classified.
func vgNames() *vgraph {
	g := newVgraph("ex.org/a", "ex.org/b/a")
	g.fun(0, "M")
	g.method(0, "T", "M")
	g.method(0, "U", "M")
	g.instance(1, "M", "int")
	g.instance(1, "M", "uint")
	g.fun(1, "N")
	g.fns[1].cat = vgCats[vrt.Choice("cat01", 4)]
	g.fns[3].cat = vgCats[vrt.Choice("cat03", 4)]
	g.fns[4].cat = g.fns[3].cat
	g.fns[5].cat = cpb.Capability_CAPABILITY_NETWORK
	for i := 1; i < 6; i++ {
		g.edge(0, i, i).incl = vrt.Bool("incl00" + vgItoa(i))
		if i < 5 {
			g.edge(i, 5, 10+i).incl = vrt.Bool("incl" + vgItoa(i) + "05")
		}
	}
	g.finish()
	return g
}

// VerifC01Names: functions, methods and instantiations with the same short
// name; nine free calls, two of the functions freely classified.
//
//verif:harness C01 both split=cat01:4,cat03:4
func VerifC01Names() {
	c01Run(vgNames(), vgCats[2:])
}

// VerifC01Layers: six functions whose calls only go from earlier to later ones
// (fifteen free calls), the last one has a capability and all are queried.
//
//verif:harness C01 both split=incl0005:2,incl0105:2,incl0205:2,incl0305:2,incl0405:2
func VerifC01Layers() {
	g := vgLayers()
	g.ranks()
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}, g.tpkgs[1]: {}}
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	c01Check(g, []bool{true, true}, cil, vgCats[2:3])
}

// vgLayers builds six functions with fifteen calls from earlier to later ones,
// each present or absent; the last function has a capability.
func vgLayers() *vgraph {
	g := newVgraph("ex.org/a", "ex.org/b")
	for i := 0; i < 6; i++ {
		g.fun((i+1)%2, "F"+vgItoa(7-i))
	}
	g.fns[5].cat = cpb.Capability_CAPABILITY_FILES
	for i := 0; i < 6; i++ {
		for j := i + 1; j < 6; j++ {
			g.edge(i, j, 1+6*i+j).exists = vrt.Bool("incl" + vgItoa(i) + vgItoa(j))
		}
	}
	g.finish()
	return g
}

// VerifC01Mixed: a function, a literal inside it, the initializer and a method
// of a package inside its own, and a function with one of two capabilities;
// nine free calls.
//
//verif:harness C01 both split=cat04:2,cat02:2
func VerifC01Mixed() {
	g := vgMixed()
	c01Run(g, g.caps)
}

// vgDeep builds a chain of 70 functions, the first and the 36th in one package
// and the others in another, whose last one has a capability; any one call, or
// one of four, is possibly excluded.  It returns the position of that call, 69
// for none.
func vgDeep(any bool) (*vgraph, int) {
	g := newVgraph("ex.org/a", "ex.org/b")
	n := 70
	for i := 0; i < n; i++ {
		p := 1
		if i == 0 || i == 35 {
			p = 0
		}
		g.fun(p, "F"+vgItoa(i))
	}
	for i := 0; i+1 < n; i++ {
		g.edge(i, i+1, 1+i%30)
	}
	var cut int
	if any {
		cut = vrt.Choice("cut", n)
	} else {
		cut = []int{0, 34, 35, n - 2, n - 1}[vrt.Choice("cut", 5)]
	}
	for i, e := range g.edges {
		e.incl = cut != i
	}
	g.fns[n-1].cat = cpb.Capability_CAPABILITY_FILES
	g.finish()
	return g, cut
}

// VerifC01Deep: a chain of 70 functions of which two are queried, with any one
// of the calls possibly excluded.
//
//verif:harness C01 both
func VerifC01Deep() {
	g, cut := vgDeep(true)
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	first, second := 0, 0
	for i := 0; i < len(cil.GetCapabilityInfo()); i++ {
		ci := cil.GetCapabilityInfo()[i]
		if p := ci.GetPath(); len(p) > 0 && ci.GetCapability() == cpb.Capability_CAPABILITY_FILES {
			if p[0].GetName() == "ex.org/a.F00" {
				first++
			}
			if p[0].GetName() == "ex.org/a.F35" {
				second++
			}
		}
	}
	vrt.Assert(first == vrt.If(cut == 69, 1, 0), "the first function is reported exactly if nothing is excluded")
	vrt.Assert(second == vrt.If(cut < 35 || cut == 69, 1, 0), "the other function is reported exactly if no call after it is excluded")
	vrt.Assert(len(cil.GetCapabilityInfo()) == first+second, "there is nothing else")
	vrt.Cover(first == 0 && second == 1, "only the second")
}

// vgWide builds a function that calls 40 others of another package, each of
// which calls one that has a capability; any one of these calls, or of the
// first or last ones among them, is possibly excluded.  It returns the position
// of that call, 80 for none.
func vgWide(any bool) (*vgraph, int) {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F")
	t := g.fun(2, "T")
	n := 40
	for i := 0; i < n; i++ {
		g.fun(1, "W"+vgItoa(i))
		g.edge(0, i+2, 1+i)
	}
	for i := 0; i < n; i++ {
		g.edge(i+2, t, 1+i)
	}
	var cut int
	if any {
		cut = vrt.Choice("cut", 2*n+1)
	} else {
		cut = []int{0, n - 1, 2*n - 1, 2 * n}[vrt.Choice("cut", 4)]
	}
	for i, e := range g.edges {
		e.incl = cut != i
	}
	g.fns[t].cat = cpb.Capability_CAPABILITY_FILES
	g.finish()
	return g, cut
}

// VerifC01Wide: a function that calls 40 others which all call one that has a
// capability, any one of the calls possibly excluded, all of them queried.
//
//verif:harness C01 both
func VerifC01Wide() {
	g, cut := vgWide(true)
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}, g.tpkgs[1]: {}}
	res := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction}).GetCapabilityInfo()
	for i, f := range g.fns {
		count := 0
		for k := 0; k < len(res); k++ {
			if p := res[k].GetPath(); len(p) > 0 && p[0].GetName() == f.name && res[k].GetCapability() == cpb.Capability_CAPABILITY_FILES {
				count++
			}
		}
		vrt.Assert(count == vrt.If(i == 1 || i > 1 && cut == 40+i-2, 0, 1), "exactly the functions whose call is not excluded are reported")
	}
	vrt.Assert(len(res) == vrt.If(cut >= 40 && cut < 80, 40, 41), "there is nothing else")
	vrt.Cover(len(res) == 41, "all of them")
}
