package main

import (
	"github.com/google/capslock/vrt"
)

//verif:use cmd/capslock-git-diff/difflib.go

func c20Entries() (int, int) {
	if vrt.Thorough() {
		return 3, 3
	}
	return 2, 3
}

// VerifC20Packages: results of up to two and three (thorough: three and three)
// entries over three packages and two capabilities, with paths of three forms
// that mention other packages, entries without a package, at package and
// intermediate granularity.
//
//verif:harness C20 both
func VerifC20Packages() {
	g := []string{"package", "intermediate"}[vrt.Choice("granularity", 2)]
	vdiffFlags(g, "", ".", ".")
	names := []string{"ex.org/a", "ex.org/b", "ex.org/c"}
	n, m := c20Entries()
	base := newVlist("b", n, names, false, true, 0, 2)
	cur := newVlist("c", m, names, false, true, 1, 4)
	vdiffLists(base, cur)
	vdiffCheck(vdiffRun(), base, cur, names)
}

// VerifC20Functions: the same for functions, at function and at default
// granularity; entries may have no path.
//
//verif:harness C20 both
func VerifC20Functions() {
	g := []string{"function", ""}[vrt.Choice("granularity", 2)]
	vdiffFlags(g, "-UNANALYZED", ".", ".", "./x")
	names := []string{"ex.org/p.F", "ex.org/p.G", "(*ex.org/p.T).M"}
	n, m := c20Entries()
	base := newVlist("b", n, names, true, false, 0, 2)
	cur := newVlist("c", m, names, true, false, 0, 4)
	vdiffLists(base, cur)
	vdiffCheck(vdiffRun(), base, cur, names)
}

// VerifC20Many: four (thorough: five) packages of one capability, present or
// not in either result.
//
//verif:harness C20 both
func VerifC20Many() {
	vdiffFlags("package", "", ".", ".")
	names := []string{"ex.org/a", "ex.org/b", "ex.org/c", "ex.org/d", "ex.org/e"}
	if !vrt.Thorough() {
		names = names[:4]
	}
	list := func(tag string) *vlist {
		v := newVlist(tag, 0, names, false, false, 0, 2)
		for k := range names {
			if vrt.Bool(tag + "has" + vnum[k]) {
				v.add(0, k, names)
			}
		}
		return v
	}
	base, cur := list("b"), list("c")
	vdiffLists(base, cur)
	vdiffCheck(vdiffRun(), base, cur, names)
}
