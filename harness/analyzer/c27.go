package analyzer

import (
	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use analyzer/pathlib.go

func c27Check(full, bare []*cpb.CapabilityInfo, gran Granularity) {
	vrt.Assert(len(full) == len(bare), "the same number of entries")
	for i := 0; i < len(full) && i < len(bare); i++ {
		a, b := full[i], bare[i]
		vrt.Assert(a.GetCapability() == b.GetCapability() && a.GetPackageDir() == b.GetPackageDir() && a.GetPackageName() == b.GetPackageName(), "the same capability and package in the same order")
		vrt.Assert((a.CapabilityType == nil) == (b.CapabilityType == nil) && a.GetCapabilityType() == b.GetCapabilityType(), "the same label")
		vrt.Assert(b.GetDepPath() == "" && b.DepPath == nil, "no flat path")
		if gran == GranularityFunction || gran == GranularityUnset {
			vrt.Assert(len(b.GetPath()) == 1, "only the function itself is named")
			if len(b.GetPath()) == 1 && len(a.GetPath()) > 0 {
				x, y := a.GetPath()[0], b.GetPath()[0]
				vrt.Assert(x.GetName() == y.GetName() && x.GetPackage() == y.GetPackage() && y.Site == nil, "the same function is named")
			}
		} else {
			vrt.Assert(len(b.GetPath()) == 0, "no path")
		}
		vrt.Assert(len(a.GetPath()) > 0, "paths are present when not omitted")
		vrt.Cover(len(a.GetPath()) == 3, "a path of three functions")
	}
	vrt.Cover(len(full) > 2, "several entries")
}

func c27Run(gran Granularity, ncat int, derived bool) {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.method(0, "T", "F1")
	g.fun(1, "F2")
	if derived {
		g.derived()
	} else {
		for i := range g.fns {
			g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), ncat)]
		}
	}
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	a := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gran})
	b := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gran, OmitPaths: true})
	c27Check(a.GetCapabilityInfo(), b.GetCapabilityInfo(), gran)
}

// VerifC27Function: two runs, with and without paths, at function granularity
// over three functions, two in one package; all calls freely included, each
// function unclassified, safe or with one of two capabilities; any packages
// queried.
//
//verif:harness C27 both split=cat00:4,cat01:4,cat02:4
func VerifC27Function() { c27Run(GranularityFunction, 4, false) }

// VerifC27Package: the same at package granularity.
//
//verif:harness C27 both split=cat00:4,cat01:4,cat02:4
func VerifC27Package() { c27Run(GranularityPackage, 4, false) }

// VerifC27Intermediate: the same at intermediate granularity.
//
//verif:harness C27 both split=cat00:4,cat01:4,cat02:4
func VerifC27Intermediate() { c27Run(GranularityIntermediate, 4, false) }

// VerifC27Default: the same at the default granularity with one capability.
//
//verif:harness C27 both split=cat00:3,cat01:3,cat02:3
func VerifC27Default() { c27Run(GranularityUnset, 3, false) }

// VerifC27Derived: the same at function granularity where a function may have a
// capability because of what its source does.
//
//verif:harness C27 both split=cat00:4,cat01:4,cat02:4
func VerifC27Derived() { c27Run(GranularityFunction, 4, true) }

// VerifC27DerivedIntermediate: the same at intermediate granularity.
//
//verif:harness C27 both split=cat00:4,cat01:4,cat02:4
func VerifC27DerivedIntermediate() { c27Run(GranularityIntermediate, 4, true) }
