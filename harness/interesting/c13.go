package interesting

import (
	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use interesting/maplib.go

// c13Names are functions about which the built-in map says different kinds of
// things (own entry, unspecified on purpose, unanalyzed, package entry,
// nothing, cgo suffix), with their packages.
var c13Names = [][2]string{
	{"os", "os.ReadFile"},
	{"net/http", "net/http.StatusText"},
	{"io", "io.Copy"},
	{"os/exec", "os/exec.Nonesuch"},
	{"example.org/p", "example.org/p.F"},
	{"example.org/p", "example.org/p._cgo_runtime_cgocall"},
	{"mime/multipart", "mime/multipart.readMIMEHeader"},
	{"strings", "strings.Index"},
}

// c13Own reports whether the built-in map has an entry for the function itself:
// then its answer does not depend on the package.
func c13Own(name string) bool {
	d := DefaultClassifier()
	a, b := d.FunctionCategory("strings", name), d.FunctionCategory("os/exec", name)
	return a == b
}

func c13Want(lines []vline, pkg, name string) cpb.Capability {
	d := DefaultClassifier()
	if d.FunctionCategory("example.org/none", name) == cpb.Capability_CAPABILITY_CGO {
		return cpb.Capability_CAPABILITY_CGO
	}
	own := false
	for _, l := range lines {
		if l.fields >= 2 && (l.kind == kindSuffix && vHasSuffix(name, l.key) || (l.kind == kindFunc || l.kind == kindUnanalyzed) && l.key == name) {
			own = true
		}
	}
	if own || !c13Own(name) {
		return vCategory(lines, pkg, name, func() cpb.Capability { return d.FunctionCategory(pkg, name) })
	}
	return d.FunctionCategory(pkg, name)
}

func c13Table(keys []string, args []string) []vline {
	return vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindSuffix, kindNone},
		keys:  keys,
		args:  args,
		forms: []int{0},
	})
}

func c13Run(lines []vline, names [][2]string) {
	vrt.Assume(vFirstBad(lines) < 0)
	c, err := LoadClassifier("user.cm", vTexts(lines), false)
	vrt.Assert(err == nil, "the map is accepted")
	if err != nil {
		return
	}
	for _, n := range names {
		want := c13Want(lines, n[0], n[1])
		vrt.Assert(c.FunctionCategory(n[0], n[1]) == want, "user entries take effect and everything else is as built in")
		vrt.Cover(want != DefaultClassifier().FunctionCategory(n[0], n[1]), "the user map changes the answer")
	}
}

// VerifC13One: a user map of one line (any keyword but ignore_edge, any of 8
// function names, 4 package names or 2 suffixes, 4 capabilities) on top of the
// built-in map, for 8 functions of which the built-in map knows different
// things.
//
//verif:harness C13 both
func VerifC13One() {
	keys := []string{"os", "os/exec", "io", "example.org/p", "F", "Copy"}
	for _, n := range c13Names {
		keys = append(keys, n[1])
	}
	t := c13Table(keys, []string{"CAPABILITY_NETWORK", "CAPABILITY_SAFE", "CAPABILITY_UNSPECIFIED", "CAPABILITY_UNANALYZED"})
	c13Run([]vline{vLine("0", t)}, c13Names)
}

// VerifC13Two: user maps of two lines over 5 keys and 2 capabilities.
//
//verif:harness C13 both
func VerifC13Two() {
	t := c13Table([]string{"os.ReadFile", "os", "io.Copy", "example.org/p.F", "example.org/p"}, []string{"CAPABILITY_NETWORK", "CAPABILITY_UNSPECIFIED"})
	c13Run([]vline{vLine("0", t), vLine("1", t)}, [][2]string{c13Names[0], c13Names[2], c13Names[4]})
}

// VerifC13Default: loading up to two user maps of one line each, with or
// without the built-in map, one of them possibly malformed, changes neither
// the default classifier nor the first loaded one.
//
//verif:harness C13 both split=excl0:2,excl1:2
func VerifC13Default() {
	names := [][2]string{c13Names[0], c13Names[2], c13Names[4]}
	var before [3]cpb.Capability
	for i, n := range names {
		before[i] = DefaultClassifier().FunctionCategory(n[0], n[1])
	}
	edge := vEdge(vFn("crypto/tls", "signedMessage"), vFn("io", "WriteString"))
	edge2 := vEdge(vFn("a", "F"), vFn("a", "G"))
	included, included2 := DefaultClassifier().IncludeCall(edge), DefaultClassifier().IncludeCall(edge2)
	t := vTable(vPieces{
		kinds: []int{kindFunc, kindPackage, kindUnanalyzed, kindSuffix, kindEdge, kindBogus},
		keys:  []string{"os.ReadFile", "io.Copy", "example.org/p", "F", "a.F"},
		args:  []string{"CAPABILITY_NETWORK", "a.G"},
		forms: []int{0},
	})
	l0, l1 := vLine("0", t), vLine("1", t)
	c0, err0 := LoadClassifier("a.cm", vTexts([]vline{l0}), vrt.Bool("excl0"))
	var first [3]cpb.Capability
	if err0 == nil {
		for i, n := range names {
			first[i] = c0.FunctionCategory(n[0], n[1])
		}
	}
	_, err1 := LoadClassifier("b.cm", vTexts([]vline{l1}), vrt.Bool("excl1"))
	for i, n := range names {
		vrt.Assert(DefaultClassifier().FunctionCategory(n[0], n[1]) == before[i], "the default classifier is unchanged")
		if err0 == nil {
			vrt.Assert(c0.FunctionCategory(n[0], n[1]) == first[i], "the first classifier is unchanged")
		}
	}
	vrt.Assert(DefaultClassifier().IncludeCall(edge) == included && DefaultClassifier().IncludeCall(edge2) == included2, "the default classifier's ignored calls are unchanged")
	vrt.Cover(err0 == nil && err1 == nil, "both load")
	vrt.Cover(err0 == nil && err1 != nil, "one fails")
}

// VerifC13Exclude: with the built-in map excluded a map of one line is all
// there is.
//
//verif:harness C13 both
func VerifC13Exclude() {
	t := c13Table([]string{"os.ReadFile", "os", "io.Copy", "F", "example.org/p"}, []string{"CAPABILITY_NETWORK", "CAPABILITY_UNSPECIFIED"})
	l := []vline{vLine("0", t)}
	c, err := LoadClassifier("user.cm", vTexts(l), true)
	vrt.Assert(err == nil, "the map is accepted")
	if err != nil {
		return
	}
	for _, n := range c13Names {
		vrt.Assert(c.FunctionCategory(n[0], n[1]) == vCategory(l, n[0], n[1], vUnspecified), "only the user's entries apply")
		vrt.Cover(c.FunctionCategory(n[0], n[1]) == cpb.Capability_CAPABILITY_NETWORK, "an entry applies")
	}
}

// VerifC13Nested: user maps of two lines on top of the built-in map, about a
// package inside another of the standard library, a method and a function
// the built-in map knows nothing of; for methods, literals and packages
// inside each other.
//
//verif:harness C13 both
func VerifC13Nested() {
	t := c13Table([]string{"os", "os/exec", "(*os.File).Read", "os/exec.Nonesuch"}, []string{"CAPABILITY_NETWORK", "CAPABILITY_UNANALYZED"})
	c13Run([]vline{vLine("0", t), vLine("1", t)}, [][2]string{
		{"os", "(*os.File).Read"},
		{"os", "(*os.File).Read$1"},
		{"os/exec", "os/exec.Nonesuch"},
		{"os/exec", "(*os/exec.Cmd).Nonesuch"},
		{"os/exec/internal", "os/exec/internal.F"},
	})
}
