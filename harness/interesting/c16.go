package interesting

import (
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/ssa"
)

//verif:use interesting/maplib.go

var c16Fns = [][2]string{{"a", "F"}, {"a", "G"}, {"crypto/tls", "signedMessage"}, {"io", "WriteString"}, {"b", "F"}}

func c16Run(lines []vline, exclude bool) {
	vrt.Assume(vFirstBad(lines) < 0)
	c, err := LoadClassifier("map.cm", vTexts(lines), exclude)
	vrt.Assert(err == nil, "the map is accepted")
	if err != nil {
		return
	}
	var fns []*ssa.Function
	for _, f := range c16Fns {
		fns = append(fns, vFn(f[0], f[1]))
	}
	i := vrt.Choice("caller", len(fns))
	j := vrt.Choice("callee", len(fns))
	x, y := fns[i], fns[j]
	e := vEdge(x, y)
	nx, ny := c16Fns[i][0]+"."+c16Fns[i][1], c16Fns[j][0]+"."+c16Fns[j][1]
	ignored := false
	for _, l := range lines {
		if l.fields >= 3 && l.kind == kindEdge && l.key == nx && l.arg == ny {
			ignored = true
		}
	}
	builtin := !DefaultClassifier().IncludeCall(e)
	vrt.Assert(!builtin || nx == "crypto/tls.signedMessage" && ny == "io.WriteString", "the built-in map is about that call")
	want := !(ignored || builtin && !exclude)
	vrt.Assert(c.IncludeCall(e) == want, "exactly the listed calls are excluded")
	vrt.Cover(ignored, "excluded by the map")
	vrt.Cover(builtin, "excluded by the built-in map")
	vrt.Cover(want && nx == "a.G" && ny == "a.F", "the reverse call is included")
}

// VerifC16One: one line of any kind about five functions, with or without the
// built-in map, for any call between five functions.
//
//verif:harness C16 both split=exclude:2
func VerifC16One() {
	t := vTable(vPieces{
		kinds: []int{kindEdge, kindUnanalyzed, kindNone, kindSuffix},
		keys:  []string{"a.F", "a.G", "crypto/tls.signedMessage", "io.WriteString", "b.F"},
		args:  []string{"a.F", "a.G", "crypto/tls.signedMessage", "io.WriteString", "b.F"},
		forms: []int{0},
	})
	c16Run([]vline{vLine("0", t)}, vrt.Bool("exclude"))
}

// VerifC16Three: three such lines about three functions.
//
//verif:harness C16 both split=exclude:2
func VerifC16Three() {
	t := vTable(vPieces{
		kinds: []int{kindEdge, kindNone},
		keys:  []string{"a.F", "a.G", "io.WriteString"},
		args:  []string{"a.F", "a.G", "io.WriteString"},
		forms: []int{0},
	})
	c16Run([]vline{vLine("0", t), vLine("1", t), vLine("2", t)}, vrt.Bool("exclude"))
}

// VerifC16Kinds: methods on values and pointers, function literals in functions
// and methods and instantiations of generic functions are matched by their full
// names, for any two lines over nine names.
//
//verif:harness C16 both
func VerifC16Kinds() {
	names := []string{"(*a.T).M", "(a.T).M", "a.F$1", "a.F", "(*a.T).M$2", "a.F$1$1", "a.F[int]", "a.F[string]", "a.T"}
	pm, f := vMethod("a", "T", "M", true), vFn("a", "F")
	f1 := vLit(f, 1)
	fns := []*ssa.Function{pm, vMethod("a", "T", "M", false), f1, f, vLit(pm, 2), vLit(f1, 1), vInstance("a", "F", "int"), vInstance("a", "F", "string")}
	t := vTable(vPieces{kinds: []int{kindEdge}, keys: names, args: names, forms: []int{0}})
	lines := []vline{vLine("0", t), vLine("1", t)}
	vrt.Assume(vFirstBad(lines) < 0)
	c, err := LoadClassifier("map.cm", vTexts(lines), true)
	vrt.Assert(err == nil, "the map is accepted")
	if err != nil {
		return
	}
	for i, x := range fns {
		for j, y := range fns {
			want := true
			for _, l := range lines {
				if l.key == names[i] && l.arg == names[j] {
					want = false
				}
			}
			vrt.Assert(c.IncludeCall(vEdge(x, y)) == want, "exactly the listed calls are excluded")
			vrt.Cover(!want, "excluded")
		}
	}
}
