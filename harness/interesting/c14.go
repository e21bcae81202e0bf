package interesting

import (
	"github.com/google/capslock/vrt"
)

//verif:use interesting/maplib.go

var (
	c14Pkgs  = []string{"a", "b", "", "a.F"}
	c14Names = []string{"a.F", "a.G", "(*a.T).F", "x.x_F", "", "a", "_F"}
)

func c14Run(lines []vline, pkgs, names []string) {
	vrt.Assume(vFirstBad(lines) < 0)
	c, err := LoadClassifier("map.cm", vTexts(lines), true)
	vrt.Assert(err == nil, "the map is accepted")
	if err != nil {
		return
	}
	pkg := pkgs[vrt.Choice("pkg", len(pkgs))]
	for _, name := range names {
		want := vCategory(lines, pkg, name, vUnspecified)
		vrt.Assert(c.FunctionCategory(pkg, name) == want, "classification follows suffix, function, unanalyzed, package, unspecified")
	}
	vrt.Cover(vCategory(lines, pkg, names[0], vUnspecified) == 10, "cgo")
	vrt.Cover(vCategory(lines, pkg, names[0], vUnspecified) == 2, "files")
	vrt.Cover(vCategory(lines, pkg, names[0], vUnspecified) == 11, "unanalyzed")
}

// VerifC14Two: maps of two lines over five keys and four capabilities, seven
// function names (among them the empty one, a suffix itself and a package
// name) queried with four packages.
//
//verif:harness C14 both
func VerifC14Two() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindSuffix},
		keys:  []string{"a.F", "a", "_F", "b", "F"},
		args:  []string{"CAPABILITY_FILES", "CAPABILITY_UNSPECIFIED", "CAPABILITY_SAFE", "CAPABILITY_UNANALYZED"},
		forms: []int{0},
	})
	c14Run([]vline{vLine("0", t), vLine("1", t)}, c14Pkgs, c14Names)
}

// VerifC14Three: maps of three lines over three keys and two capabilities.
//
//verif:harness C14 both
func VerifC14Three() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindSuffix},
		keys:  []string{"a.F", "a", "G"},
		args:  []string{"CAPABILITY_FILES", "CAPABILITY_UNSPECIFIED"},
		forms: []int{0},
	})
	c14Run([]vline{vLine("0", t), vLine("1", t), vLine("2", t)}, c14Pkgs, c14Names)
}

// VerifC14Four: maps of four lines about the same function and package.
//
//verif:harness C14 both
func VerifC14Four() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindSuffix, kindNone},
		keys:  []string{"a.F", "a"},
		args:  []string{"CAPABILITY_FILES"},
		forms: []int{0},
	})
	c14Run([]vline{vLine("0", t), vLine("1", t), vLine("2", t), vLine("3", t)}, c14Pkgs, c14Names)
}

// VerifC14Nested: maps of two lines over seven keys and three capabilities,
// among them packages inside each other, a method and the prefix of a name;
// eight names of functions, methods, literals and instantiations queried with
// five packages.
//
//verif:harness C14 both
func VerifC14Nested() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindSuffix},
		keys:  []string{"x.y/a", "x.y/a/b.F", "x.y/a/b", "x.y", "(*x.y/a/b.T).F", "b", "x.y/a/b.G"},
		args:  []string{"CAPABILITY_FILES", "CAPABILITY_UNSPECIFIED", "CAPABILITY_UNANALYZED"},
		forms: []int{0},
	})
	c14Run([]vline{vLine("0", t), vLine("1", t)},
		[]string{"x.y/a", "x.y/a/b", "x.y/a/bc", "x.y", "b"},
		[]string{"x.y/a/b.F", "(x.y/a/b.T).F", "(*x.y/a/b.T).F", "x.y/a/b.F$1", "(*x.y/a/b.T).F$1", "x.y/a/b.G[int]", "x.y/a/b.f", "x.y/a/b.FF"})
}
