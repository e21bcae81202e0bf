package interesting

import (
	"strings"

	"github.com/google/capslock/vrt"
)

//verif:use interesting/maplib.go

func c12Check(lines []vline) {
	c, err := LoadClassifier("map.cm", vTexts(lines), true)
	bad := vFirstBad(lines)
	vrt.Assert((err == nil) == (bad < 0), "exactly the well-formed maps are accepted")
	vrt.Assert((err == nil) == (c != nil), "a classifier or an error is returned")
	if err != nil {
		for i := range lines {
			if bad == i {
				vrt.Assert(strings.Contains(err.Error(), "map.cm:"+vItoa(i+1)+":"), "the error names the offending line")
			}
		}
		vrt.Cover(bad == len(lines)-1, "the last line is in error")
		return
	}
	if bad >= 0 {
		return
	}
	fns := []string{"a.F", "a.G", "b.F"}
	for qi := range fns {
		name := fns[qi]
		pkg := []string{"a", "a", "b"}[qi]
		want := vCategory(lines, pkg, name, vUnspecified)
		vrt.Assert(c.FunctionCategory(pkg, name) == want, "each line is recorded as stated")
		vrt.Cover(want == 2, "a function with a capability")
	}
	f, g := vFn("a", "F"), vFn("a", "G")
	for _, rev := range []bool{false, true} {
		x, y := f, g
		if rev {
			x, y = g, f
		}
		want := true
		for _, l := range lines {
			if l.fields >= 3 && l.kind == kindEdge && l.key == x.String() && l.arg == y.String() {
				want = false
			}
		}
		vrt.Assert(c.IncludeCall(vEdge(x, y)) == want, "ignored calls are recorded as stated")
		vrt.Cover(!want, "an ignored call")
	}
}

var c12Pieces = vPieces{
	kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindEdge, kindSuffix, kindBogus, kindNone},
	keys:  []string{"a.F", "a.G", "a"},
	args:  []string{"CAPABILITY_FILES", "a.G", "", "FILES"},
	forms: []int{0, 1, 2, 3, 4, 5},
}

// VerifC12One: one line of any keyword, key, third field and spacing or
// comment form (433 lines).
//
//verif:harness C12 both
func VerifC12One() {
	t := vTable(c12Pieces)
	c12Check([]vline{vLine("0", t)})
}

// VerifC12Two: two lines of any keyword over two names, capabilities and
// comment forms (81 lines each).
//
//verif:harness C12 both
func VerifC12Two() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindEdge, kindSuffix, kindNone},
		keys:  []string{"a.F", "a"},
		args:  []string{"CAPABILITY_FILES", "a.G"},
		forms: []int{0, 1, 3, 5},
	})
	c12Check([]vline{vLine("0", t), vLine("1", t)})
}

// VerifC12Three: three lines (25 each).
//
//verif:harness C12 both
func VerifC12Three() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindEdge, kindBogus, kindNone},
		keys:  []string{"a.F", "a"},
		args:  []string{"CAPABILITY_FILES", "a.G"},
		forms: []int{0},
	})
	c12Check([]vline{vLine("0", t), vLine("1", t), vLine("2", t)})
}

// VerifC12Read: three lines (9 each), reading fails before any of them or at
// the end, or not at all; the failure is reported whatever came before.
//
//verif:harness C12 both split=fail:5
func VerifC12Read() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindUnanalyzed, kindSuffix, kindBogus, kindNone},
		keys:  []string{"a.F", "a"},
		args:  []string{"CAPABILITY_FILES"},
		forms: []int{0},
	})
	lines := []vline{vLine("0", t), vLine("1", t), vLine("2", t)}
	r := vTexts(lines)
	fail := vrt.Choice("fail", 5)
	if fail < 4 {
		r.fail = fail
	}
	exclude := vrt.Bool("exclude")
	c, err := LoadClassifier("map.cm", r, exclude)
	bad := vFirstBad(lines)
	vrt.Assert((err == nil) == (bad < 0 && fail == 4), "a map that could not be read to its end is rejected")
	vrt.Assert((err == nil) == (c != nil), "a classifier or an error is returned")
	vrt.Cover(fail == 3 && bad < 0, "failure after the last line")
	vrt.Cover(fail == 1 && bad < 0, "failure after the first line")
}

// VerifC12Long: a line of 66000 bytes, as a comment or as the key of an entry,
// in the middle of a map: the map is recorded completely or rejected; with 300
// or 5000 bytes it is recorded.
//
//verif:harness C12 both split=form:3,length:3
func VerifC12Long() {
	n := []int{300, 5000, 66000}[vrt.Choice("length", 3)]
	long := strings.Repeat("x", n)
	text := "func a.F CAPABILITY_FILES\n"
	switch vrt.Choice("form", 3) {
	case 0:
		text += "# " + long + "\n"
	case 1:
		text += "unanalyzed " + long + "\n"
	case 2:
		text += "package " + long + " CAPABILITY_NETWORK # x\n"
	}
	text += "func a.G CAPABILITY_NETWORK\n"
	c, err := LoadClassifier("map.cm", strings.NewReader(text), true)
	vrt.Assert((err == nil) == (c != nil), "a classifier or an error is returned")
	vrt.Assert(err == nil || n > 60000, "well-formed maps are accepted")
	if err == nil {
		vrt.Assert(c.FunctionCategory("a", "a.G") == 3, "the lines after a long one are recorded")
	}
	vrt.Cover(true, "reached")
}
