package interesting

import (
	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use interesting/c13.go

const capUnanalyzed = cpb.Capability_CAPABILITY_UNANALYZED

// c15Without removes the lines that say unanalyzed.
func c15Without(lines []vline) []vline {
	var out []vline
	for _, l := range lines {
		if l.kind == kindUnanalyzed || (l.kind == kindFunc || l.kind == kindPackage) && l.cap == capUnanalyzed {
			l.kind = kindNone
			l.fields = 0
		}
		out = append(out, l)
	}
	return out
}

func c15Run(lines []vline, pkgs, names []string) {
	vrt.Assume(vFirstBad(lines) < 0)
	c, err := LoadClassifier("map.cm", vTexts(lines), true)
	vrt.Assert(err == nil, "the map is accepted")
	if err != nil {
		return
	}
	rest := c15Without(lines)
	pkg := pkgs[vrt.Choice("pkg", len(pkgs))]
	e := vEdge(vFn("a", "F"), vFn("a", "G"))
	edge := c.IncludeCall(e)
	var before []cpb.Capability
	for _, name := range names {
		before = append(before, c.FunctionCategory(pkg, name))
	}
	x := ClassifierExcludingUnanalyzed(c)
	for i, name := range names {
		was, is := before[i], x.FunctionCategory(pkg, name)
		vrt.Assert(is != capUnanalyzed, "never unanalyzed")
		vrt.Assert(was == capUnanalyzed || is == was, "other classifications are unchanged")
		vrt.Assert(is == vCategory(rest, pkg, name, vUnspecified), "the remaining entries apply")
		vrt.Assert(c.FunctionCategory(pkg, name) == was, "the original classifier is unaffected")
		vrt.Cover(was == capUnanalyzed && is == 2, "falls back to another entry")
	}
	vrt.Assert(x.IncludeCall(e) == edge && c.IncludeCall(e) == edge, "excluded calls are the same")
}

// VerifC15Two: maps of two lines over three keys and three capabilities
// including unanalyzed, without the built-in map.
//
//verif:harness C15 both
func VerifC15Two() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindSuffix, kindEdge},
		keys:  []string{"a.F", "a", "G"},
		args:  []string{"CAPABILITY_FILES", "CAPABILITY_UNANALYZED", "CAPABILITY_SAFE", "a.G"},
		forms: []int{0},
	})
	c15Run([]vline{vLine("0", t), vLine("1", t)}, []string{"a", "b"}, []string{"a.F", "a.G", "a"})
}

// VerifC15Three: maps of three lines over two keys and two capabilities.
//
//verif:harness C15 both
func VerifC15Three() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindNone},
		keys:  []string{"a.F", "a"},
		args:  []string{"CAPABILITY_FILES", "CAPABILITY_UNANALYZED"},
		forms: []int{0},
	})
	c15Run([]vline{vLine("0", t), vLine("1", t), vLine("2", t)}, []string{"a", "b"}, []string{"a.F", "a.G", "a"})
}

// VerifC15Builtin: the default classifier, or one with a user map of one line
// on top of it, for 8 functions of which the built-in map says different
// things.
//
//verif:harness C15 both split=load:2
func VerifC15Builtin() {
	c := DefaultClassifier()
	if vrt.Bool("load") {
		t := c13Table([]string{"os.ReadFile", "os/exec", "io", "io.Copy", "example.org/p", "example.org/p.F", "mime/multipart"}, []string{"CAPABILITY_NETWORK", "CAPABILITY_UNANALYZED"})
		l, err := LoadClassifier("map.cm", vTexts([]vline{vLine("0", t)}), false)
		vrt.Assert(err == nil, "the map is accepted")
		if err != nil {
			return
		}
		c = l
	}
	var before []cpb.Capability
	for _, n := range c13Names {
		before = append(before, c.FunctionCategory(n[0], n[1]))
	}
	e := vEdge(vFn("crypto/tls", "signedMessage"), vFn("io", "WriteString"))
	edge := c.IncludeCall(e)
	x := ClassifierExcludingUnanalyzed(c)
	for i, n := range c13Names {
		was, is := before[i], x.FunctionCategory(n[0], n[1])
		vrt.Assert(is != capUnanalyzed, "never unanalyzed")
		vrt.Assert(was == capUnanalyzed || is == was, "other classifications are unchanged")
		vrt.Assert(c.FunctionCategory(n[0], n[1]) == was, "the original classifier is unaffected")
		vrt.Cover(was == capUnanalyzed, "was unanalyzed")
		vrt.Cover(was == 2, "was files")
	}
	vrt.Assert(x.IncludeCall(e) == edge && c.IncludeCall(e) == edge, "excluded calls are the same")
}

// VerifC15Nested: maps of two lines about packages inside each other, a method
// and the prefix of a name, for functions, methods, literals and
// instantiations.
//
//verif:harness C15 both
func VerifC15Nested() {
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindSuffix},
		keys:  []string{"x.y/a", "x.y/a/b.F", "x.y/a/b", "(*x.y/a/b.T).F"},
		args:  []string{"CAPABILITY_FILES", "CAPABILITY_UNANALYZED", "CAPABILITY_UNSPECIFIED"},
		forms: []int{0},
	})
	c15Run([]vline{vLine("0", t), vLine("1", t)},
		[]string{"x.y/a", "x.y/a/b", "x.y/a/bc"},
		[]string{"x.y/a/b.F", "(x.y/a/b.T).F", "(*x.y/a/b.T).F", "x.y/a/b.F$1", "x.y/a/b.F[int]"})
}
