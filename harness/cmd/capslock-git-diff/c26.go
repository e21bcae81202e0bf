package main

import (
	"github.com/google/capslock/vrt"
)

//verif:use cmd/capslock-git-diff/difflib.go

// c26Lines gives the lines printed.
func c26Lines() []string {
	var r []string
	n := vrt.OutLines("stdout")
	for i := 0; i < n; i++ {
		if present, text := vrt.OutLine("stdout", i); present {
			r = append(r, text)
		}
	}
	return r
}

// VerifC26Revisions: the output of the revision diff for three packages, some of
// which have added uses of two capabilities, one of them possibly used before,
// whatever order maps are iterated in.
//
//verif:harness C26 both split=granularity:2,b0:2,b1:2,c0:2,c1:2,c2:2
func VerifC26Revisions() {
	vdiffFlags([]string{"package", "intermediate"}[vrt.Choice("granularity", 2)], "", ".", ".")
	names := []string{"ex.org/b", "ex.org/a", "ex.org/c"}
	base := newVlist("b", 0, names, false, false, 0, 2)
	cur := newVlist("c", 0, names, false, false, 0, 2)
	cur.add(1, 2, names)
	for k := range names {
		if k < 2 && vrt.Bool("b"+vnum[k]) {
			base.add(k, k, names)
		}
		if vrt.Bool("c" + vnum[k]) {
			cur.add(0, k, names)
		}
	}
	vdiffLists(base, cur)
	vrt.MapOrder(0)
	vdiffRun()
	a := c26Lines()
	vrt.MapOrder(2)
	same := true
	repeat := 60
	if vrt.Symbolic() {
		repeat = 1
	}
	for ; repeat > 0; repeat-- {
		vdiffLists(base, cur)
		vdiffRun()
		b := c26Lines()
		if len(a) != len(b) {
			same = false
		}
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i] != b[i] {
				same = false
			}
		}
	}
	vrt.MapOrder(0)
	vrt.Assert(same, "the same output whatever the iteration order")
	vrt.Cover(len(a) > 12, "several announcements")
}
