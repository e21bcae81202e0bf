package analyzer

import (
	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use analyzer/pathlib.go
//verif:use analyzer/bothlib.go

// c04Check compares the package report with the per-function report.
func c04Check(g *vgraph, fn, pk []*cpb.CapabilityInfo) {
	j := 0
	order := true
	for i := 0; i < len(fn); i++ {
		first := true
		for k := 0; k < i; k++ {
			if fn[k].GetCapability() == fn[i].GetCapability() && fn[k].GetPackageDir() == fn[i].GetPackageDir() {
				first = false
			}
		}
		if !first {
			continue
		}
		if j >= len(pk) {
			order = false
			break
		}
		a, b := fn[i], pk[j]
		if a.GetCapability() != b.GetCapability() || a.GetPackageDir() != b.GetPackageDir() || a.GetPackageName() != b.GetPackageName() ||
			a.GetDepPath() != b.GetDepPath() || a.GetCapabilityType() != b.GetCapabilityType() || len(a.GetPath()) != len(b.GetPath()) {
			order = false
		}
		j++
	}
	vrt.Assert(order, "each package entry is the first per-function entry of its pair, in order")
	vrt.Assert(j == len(pk), "there are no further package entries")
	vrt.Cover(len(pk) < len(fn), "several functions of one package")
	vrt.Cover(len(pk) > 1, "several entries")
}

// VerifC04Three: three functions, two in one package, all calls freely
// included, every function unclassified, safe or with one of two
// capabilities; any packages queried.
//
//verif:harness C04 both split=cat00:4,cat01:4,cat02:4
func VerifC04Three() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F1")
	g.method(0, "T", "F0")
	g.fun(1, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 4)]
	}
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	a := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	b := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityPackage})
	c04Check(g, a.GetCapabilityInfo(), b.GetCapabilityInfo())
}

// VerifC04Derived: the same where a function may have a capability because of
// what its source does.
//
//verif:harness C04 both split=cat00:4,cat01:4,cat02:4
func VerifC04Derived() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F1")
	g.method(0, "T", "F0")
	g.fun(1, "F2")
	g.derived()
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	a := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	b := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityPackage})
	c04Check(g, a.GetCapabilityInfo(), b.GetCapabilityInfo())
}

// VerifC04Both: three functions with all calls between them, the source of each
// giving it no capability, one of two or both.
//
//verif:harness C04 both split=cat00:4,cat01:4,cat02:4
func VerifC04Both() {
	g := vgBoth()
	_, qm := vgQueried(g)
	a := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	b := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityPackage})
	c04Check(g, a.GetCapabilityInfo(), b.GetCapabilityInfo())
}

// VerifC04Unset: the default granularity is the per-function one.
//
//verif:harness C04 both
func VerifC04Unset() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F1")
	g.fun(0, "F0")
	g.fun(1, "F2")
	g.fns[2].cat = cpb.Capability_CAPABILITY_FILES
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	a := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g}).GetCapabilityInfo()
	b := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction}).GetCapabilityInfo()
	vrt.Assert(len(a) == len(b), "same number of entries")
	for i := 0; i < len(a) && i < len(b); i++ {
		vrt.Assert(a[i].GetDepPath() == b[i].GetDepPath() && a[i].GetCapability() == b[i].GetCapability(), "same entries")
	}
	vrt.Cover(len(a) == 3, "three entries")
}

// VerifC04Four: four functions in two packages of which one has the same name
// as the other; the last function has a capability, another may have a second
// one; calls without recursion freely included.
//
//verif:harness C04 both split=cat00:2,cat01:2,cat02:2,pkg:2
func VerifC04Four() {
	g := newVgraph("ex.org/a", "z.org/a")
	g.fun(0, "F0")
	g.fun(1, "F0")
	g.fun(vrt.Choice("pkg", 2), "F2")
	g.fun(1, "F3")
	for i := 0; i < 3; i++ {
		g.fns[i].cat = []cpb.Capability{vgNone, cpb.Capability_CAPABILITY_NETWORK}[vrt.Choice("cat"+vgItoa(i), 2)]
	}
	g.fns[3].cat = cpb.Capability_CAPABILITY_FILES
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	a := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	b := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityPackage})
	c04Check(g, a.GetCapabilityInfo(), b.GetCapabilityInfo())
}

// VerifC04Mixed: a function, a literal inside it, the initializer and a method
// of a package inside its own, and a function with one of two capabilities;
// nine free calls.
//
//verif:harness C04 both split=cat04:2,cat02:2
func VerifC04Mixed() {
	g := vgMixed()
	_, qm := vgQueried(g)
	a := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	b := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityPackage})
	c04Check(g, a.GetCapabilityInfo(), b.GetCapabilityInfo())
}
