package analyzer

import (
	"go/token"
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/ssa"
)

//verif:use analyzer/pathlib.go
//verif:use analyzer/bothlib.go

// A vsel is a capability selection with its meaning.
type vsel struct {
	text           string
	files, network bool
	list           []cpb.Capability // if not nil, the listed capabilities
	negated        bool
}

var vgSels = []vsel{
	{text: "", files: true, network: true},
	{text: "FILES", files: true, network: false},
	{text: "-CAPABILITY_FILES", files: false, network: true},
	{text: "NETWORK,FILES", files: true, network: true},
	{text: "-NETWORK,-FILES", files: false, network: false},
}

// vgMixedSels are selections for vgMixed.
var vgMixedSels = []vsel{
	{text: "-UNANALYZED", list: []cpb.Capability{cpb.Capability_CAPABILITY_UNANALYZED}, negated: true},
	{text: "CAPABILITY_UNANALYZED,EXEC", list: []cpb.Capability{cpb.Capability_CAPABILITY_UNANALYZED, cpb.Capability_CAPABILITY_EXEC}},
}

func (s vsel) set() *CapabilitySet {
	cs, err := NewCapabilitySet(s.text)
	vrt.Assert(err == nil, "the selection is accepted")
	return cs
}

func (s vsel) has(c cpb.Capability) bool {
	if s.list != nil {
		listed := false
		for _, l := range s.list {
			listed = vrt.If(l == c, true, listed)
		}
		return listed != s.negated
	}
	return s.text == "" || c == cpb.Capability_CAPABILITY_FILES && s.files || c == cpb.Capability_CAPABILITY_NETWORK && s.network
}

// forward[i]: function i is on a chain starting at a queried function.
func (g *vgraph) forward(queried []bool) []bool {
	n := len(g.fns)
	a := g.adj()
	cur := make([]bool, n)
	for i, f := range g.fns {
		cur[i] = f.pkg >= 0 && queried[max(f.pkg, 0)] && f.cat != vgSafe
	}
	for k := 1; k < n; k++ {
		next := make([]bool, n)
		for i := 0; i < n; i++ {
			b := cur[i]
			for j := 0; j < n; j++ {
				b = vrt.If(cur[j] && a[j][i], true, b)
			}
			next[i] = b
		}
		cur = next
	}
	return cur
}

func c05Check(g *vgraph, queried []bool, sel vsel, cil *cpb.CapabilityInfoList) {
	res := cil.GetCapabilityInfo()
	fwd := g.forward(queried)
	count := map[cpb.Capability][]int{}
	for _, c := range g.caps {
		count[c] = make([]int, len(g.tpkgs))
	}
	known := true
	for i := 0; i < len(res); i++ {
		c := res[i].GetCapability()
		hit := false
		for pi, p := range g.tpkgs {
			for _, k := range g.caps {
				if res[i].GetPackageDir() == p.Path() && res[i].GetPackageName() == p.Name() && c == k {
					count[k][pi]++
					hit = true
				}
			}
		}
		if !hit {
			known = false
		}
		path := res[i].GetPath()
		genuine, described, steps := vgPath(g, path, c)
		vrt.Assert(genuine, "the path is a chain of included calls to a function with the capability")
		vrt.Assert(described, "names, packages and positions on the path are right")
		start, through := false, false
		for si, s := range steps {
			for k, f := range g.fns {
				if s.idx == k {
					if si == 0 && f.pkg >= 0 && queried[max(f.pkg, 0)] {
						start = true
					}
					if f.home >= 0 && g.tpkgs[max(f.home, 0)].Path() == res[i].GetPackageDir() {
						through = true
					}
				}
			}
		}
		vrt.Assert(start, "the path starts in a queried package")
		vrt.Assert(through, "the path contains a function of the package")
		vrt.Cover(len(path) == min(3, len(g.fns)), "a path of three functions")
	}
	vrt.Assert(known, "entries name a package and a capability of the program")
	for _, c := range g.caps {
		reach := g.reach(c)
		for pi := range g.tpkgs {
			want := false
			for k, f := range g.fns {
				want = vrt.If(f.home == pi && fwd[k] && reach[k] && sel.has(c), true, want)
			}
			vrt.Assert(count[c][pi] == vrt.If(want, 1, 0), "exactly the packages on a path of a selected capability have one entry")
			vrt.Cover(want && !queried[pi], "a package outside the queried ones")
		}
	}
}

func c05Run(g *vgraph, sel vsel) {
	q, qm := vgQueried(g)
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityIntermediate, CapabilitySet: sel.set()})
	c05Check(g, q, sel, cil)
}

// VerifC05Three: all call graphs over three functions in three packages with
// recursive calls, all calls freely included, each function unclassified, safe
// or with one of two capabilities, any packages queried, no selection.
//
//verif:harness C05 both split=cat00:4,cat01:4,cat02:4
func VerifC05Three() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(2, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 4)]
	}
	vgComplete(g, true)
	g.finish()
	c05Run(g, vgSels[0])
}

// VerifC05Derived: three functions with all calls between them, each
// unclassified, with one of two explicit capabilities or with one of these
// because of what its source does.
//
//verif:harness C05 both split=cat00:4,cat01:4,cat02:4
func VerifC05Derived() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.method(1, "T", "F1")
	g.fun(2, "F2")
	g.derived()
	vgComplete(g, false)
	g.finish()
	c05Run(g, vgSels[0])
}

// VerifC05Both: three functions with all calls between them, the source of each
// giving it no capability, one of two or both.
//
//verif:harness C05 both split=cat00:4,cat01:4,cat02:4
func VerifC05Both() {
	c05Run(vgBoth(), vgSels[0])
}

// VerifC05Select: the same without recursive calls for five selections, among
// them negated ones; two functions share a package.
//
//verif:harness C05 both split=cat01:4,cat02:4,sel:5
func VerifC05Select() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.method(0, "T", "F1")
	g.fun(1, "F2")
	g.fns[1].cat = vgCats[vrt.Choice("cat01", 4)]
	g.fns[2].cat = vgCats[vrt.Choice("cat02", 4)]
	vgComplete(g, false)
	g.finish()
	c05Run(g, vgSels[vrt.Choice("sel", len(vgSels))])
}

func c05Four(back bool) {
	g := newVgraph("ex.org/a", "ex.org/b", "lib", "ex.org/a/c")
	for i := 0; i < 4; i++ {
		g.fun(i, "F"+vgItoa(i))
	}
	g.fns[1].cat = vgCats[vrt.Choice("cat01", 3)]
	g.fns[2].cat = vgCats[vrt.Choice("cat02", 4)]
	g.fns[3].cat = cpb.Capability_CAPABILITY_FILES
	for i := 0; i < 3; i++ {
		for j := 0; j < 4; j++ {
			if i != j && (back || j > 0) {
				e := g.edge(i, j, 1+i*4+j)
				e.incl = vrt.Bool("incl" + vgItoa(i) + vgItoa(j))
			}
		}
	}
	g.finish()
	c05Run(g, vgSels[0])
}

// VerifC05Four: four functions in four packages, the last with a capability,
// the second and third possibly classified; all calls not made by the last nor
// to the first function freely included.
//
//verif:harness C05 quick split=cat01:3,cat02:4,incl0001:2
func VerifC05Four() { c05Four(false) }

// VerifC05FourBack: the same with calls to the first function.
//
//verif:harness C05 thorough split=cat01:3,cat02:4,incl0001:2,incl0102:2
func VerifC05FourBack() { c05Four(true) }

// wrapperOf adds a wrapper without package whose home is decided by its
// receiver: kind 0 a method expression, 1 a method value, 2 another wrapper;
// through a pointer or an alias of the type or not.
func (g *vgraph) wrapperOf(pkg int, kind int, ptr, alias bool) int {
	tn := types.NewTypeName(token.NoPos, g.tpkgs[pkg], "W", nil)
	var typ types.Type = types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	if alias {
		other := types.NewPackage("ex.org/other", "other")
		typ = types.NewAlias(types.NewTypeName(token.NoPos, other, "A", nil), typ)
	}
	if ptr {
		typ = types.NewPointer(typ)
	}
	fn := &ssa.Function{Signature: vgSig(), Synthetic: "wrapper"}
	name := "M"
	switch kind {
	case 0:
		name = "M$thunk"
		param := &ssa.Parameter{}
		vrt.SetField(param, "object", types.NewVar(token.NoPos, nil, "recv", typ))
		fn.Params = []*ssa.Parameter{param}
	case 1:
		name = "M$bound"
		fv := &ssa.FreeVar{}
		vrt.SetField(fv, "typ", typ)
		fn.FreeVars = []*ssa.FreeVar{fv}
	case 2:
		recv := types.NewVar(token.NoPos, g.tpkgs[pkg], "r", types.Typ[types.Int])
		fn.Signature = types.NewSignatureType(recv, nil, nil, nil, nil, false)
	}
	vrt.SetField(fn, "name", name)
	g.body(fn)
	return g.add(fn, fn.String(), -1, pkg)
}

// VerifC05Wrappers: a queried function calls a wrapper without a package of
// its own (method expression, method value or other, on a named type, a
// pointer to it or an alias of it) which calls a function with a capability;
// a generic instantiation and a package-less wrapper are further ways.
//
//verif:harness C05 both split=kind:3,ptr:2,alias:2
func VerifC05Wrappers() {
	g := newVgraph("ex.org/a", "ex.org/b", "ex.org/c", "ex.org/d")
	g.fun(0, "F0")
	g.wrapperOf(1, vrt.Choice("kind", 3), vrt.Bool("ptr"), vrt.Bool("alias"))
	g.instance(2, "G", "int")
	g.wrapper("W")
	g.fun(3, "F4")
	g.fns[4].cat = cpb.Capability_CAPABILITY_FILES
	line := 1
	for _, p := range [][2]int{{0, 1}, {0, 2}, {1, 4}, {2, 3}, {3, 4}, {2, 1}} {
		e := g.edge(p[0], p[1], line)
		e.incl = vrt.Bool("incl" + vgItoa(p[0]) + vgItoa(p[1]))
		line++
	}
	g.finish()
	c05Run(g, vgSels[0])
}

// VerifC05Instance: a queried function, an instantiation of a generic function
// of another package, a literal inside it and functions with capabilities.
//
//verif:harness C05 both
func VerifC05Instance() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.instance(1, "G", "int")
	g.literal(1)
	g.fun(2, "F3")
	g.fns[3].cat = cpb.Capability_CAPABILITY_FILES
	vgComplete(g, false)
	g.finish()
	c05Run(g, vgSels[0])
}

// VerifC05Names: functions, methods and instantiations with the same short
// name in two packages of the same package name; nine free calls, two of the
// functions freely classified.
//
//verif:harness C05 both split=cat01:4,cat03:4
func VerifC05Names() {
	c05Run(vgNames(), vgSels[0])
}

// VerifC05Mixed: a function, a literal inside it, the initializer and a method
// of a package inside its own, and a function with one of two capabilities;
// nine free calls; unanalyzed functions left out, or only these and another
// capability selected.
//
//verif:harness C05 both split=cat04:2,cat02:2,sel:2
func VerifC05Mixed() {
	c05Run(vgMixed(), vgMixedSels[vrt.Choice("sel", 2)])
}

// vgAnyCaps builds a function calling another that has any capability, and a
// selection of any one capability or of all but that one.
func vgAnyCaps() (*vgraph, vsel) {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fns[1].cat = cpb.Capability(2 + vrt.Choice("cat01", 13))
	vgComplete(g, false)
	g.finish()
	g.caps = []cpb.Capability{g.fns[1].cat}
	chosen := cpb.Capability(2 + vrt.Choice("chosen", 13))
	text, neg := chosen.String(), vrt.Bool("neg")
	if neg {
		text = "-" + text
	}
	return g, vsel{text: text, list: []cpb.Capability{chosen}, negated: neg}
}

// VerifC05AllCaps: a function calling another that has any of the thirteen
// capabilities; any one capability selected, or all but that one.
//
//verif:harness C05 both split=cat01:13
func VerifC05AllCaps() {
	c05Run(vgAnyCaps())
}

// VerifC05Deep: the packages on the way through a chain of 70 functions, one
// of four calls possibly excluded.
//
//verif:harness C05 both
func VerifC05Deep() {
	g, cut := vgDeep(false)
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	res := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityIntermediate}).GetCapabilityInfo()
	want := cut < 35 || cut == 69
	for _, p := range g.tpkgs {
		count := 0
		for i := 0; i < len(res); i++ {
			if res[i].GetPackageDir() == p.Path() && res[i].GetCapability() == cpb.Capability_CAPABILITY_FILES {
				count++
			}
		}
		vrt.Assert(count == vrt.If(want, 1, 0), "exactly the packages on a chain are reported")
	}
	vrt.Assert(len(res) == vrt.If(want, 2, 0), "there is nothing else")
	vrt.Cover(want && cut < 35, "the second half")
}

// VerifC05Wide: the packages between a function and the capability that 40
// others call, the first or last call possibly excluded.
//
//verif:harness C05 both
func VerifC05Wide() {
	g, cut := vgWide(false)
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	res := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityIntermediate}).GetCapabilityInfo()
	vrt.Assert(len(res) == 3, "each package on a chain is reported once")
	for i := 0; i < len(res) && i < 3; i++ {
		vrt.Assert(res[i].GetPackageDir() == g.tpkgs[i].Path(), "exactly the packages on a chain are reported")
	}
	vrt.Cover(cut < 69, "a call is excluded")
}
