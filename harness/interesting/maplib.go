package interesting

import (
	"errors"
	"io"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/ssa"
)

const (
	kindFunc = iota
	kindPackage
	kindUnanalyzed
	kindEdge
	kindSuffix
	kindBogus
	kindNone // nothing on the line
)

var vKeywords = []string{"func", "package", "unanalyzed", "ignore_edge", "cgo_suffix", "functions", ""}

// A vline is one line of a capability map together with its meaning.
type vline struct {
	text   string
	kind   int
	fields int // number of fields on the line
	key    string
	arg    string
	cap    cpb.Capability
	capOK  bool
}

const vSpaces = "                                                                                                "

func vPad(s string) string { return s + vSpaces[len(s):] }

// vPieces are the parts a line is made from.
type vPieces struct {
	kinds []int
	keys  []string
	args  []string
	forms []int
}

func vCap(s string) (cpb.Capability, bool) {
	switch s {
	case "CAPABILITY_FILES":
		return cpb.Capability_CAPABILITY_FILES, true
	case "CAPABILITY_NETWORK":
		return cpb.Capability_CAPABILITY_NETWORK, true
	case "CAPABILITY_SAFE":
		return cpb.Capability_CAPABILITY_SAFE, true
	case "CAPABILITY_UNSPECIFIED":
		return cpb.Capability_CAPABILITY_UNSPECIFIED, true
	case "CAPABILITY_UNANALYZED":
		return cpb.Capability_CAPABILITY_UNANALYZED, true
	}
	return 0, false
}

// vTable lists all lines that can be made from the pieces, all of the same
// length.
func vTable(p vPieces) []vline {
	var out []vline
	for _, kind := range p.kinds {
		if kind == kindNone {
			out = append(out, vline{kind: kind, text: vPad("")})
			continue
		}
		for _, key := range p.keys {
			for _, arg := range p.args {
				for _, form := range p.forms {
					out = append(out, vMake(kind, key, arg, form))
				}
			}
		}
	}
	return out
}

func vMake(kind int, key, arg string, form int) vline {
	l := vline{kind: kind, key: key, arg: arg, fields: 3}
	kw := vKeywords[kind]
	switch form {
	case 0:
		l.text = kw + " " + key + " " + arg
	case 1:
		l.text = "\t " + kw + "\t " + key + "  " + arg + "# x y"
	case 2:
		l.text = "#" + kw + " " + key + " " + arg
		l.fields = 0
	case 3:
		l.text = kw + " " + key + "#" + arg
		l.fields = 2
	case 4:
		l.text = kw + " # " + key
		l.fields = 1
	case 5:
		l.text = kw + " " + key + " " + arg + " more # and"
		l.fields = 4
	}
	if l.fields >= 3 && arg == "" {
		l.fields--
		if form == 5 {
			l.arg = "more"
		}
	}
	l.cap, l.capOK = vCap(l.arg)
	l.text = vPad(l.text)
	return l
}

// vLine chooses one line.
func vLine(id string, table []vline) vline {
	return table[vrt.Choice("line"+id, len(table))]
}

func (l vline) blank() bool { return l.fields == 0 }

// bad reports whether the line is in error whatever the other lines are.
func (l vline) bad() bool {
	if l.fields == 0 {
		return false
	}
	if l.fields == 1 {
		return true
	}
	switch l.kind {
	case kindFunc, kindPackage:
		return l.fields < 3 || !l.capOK
	case kindEdge:
		return l.fields < 3
	case kindUnanalyzed, kindSuffix:
		return false
	}
	return true
}

// repeats reports whether two good lines state the same key.
func (l vline) repeats(m vline) bool {
	if l.fields == 0 || m.fields == 0 || l.kind != m.kind || l.key != m.key {
		return false
	}
	return l.kind == kindFunc || l.kind == kindPackage || l.kind == kindUnanalyzed || l.kind == kindEdge && l.arg == m.arg
}

// vMap says what a list of lines means: the first line in error, or -1.
func vFirstBad(lines []vline) int {
	for i := range lines {
		b := lines[i].bad()
		for j := 0; j < i; j++ {
			if lines[i].repeats(lines[j]) {
				b = true
			}
		}
		if b {
			return i
		}
	}
	return -1
}

// vReader delivers lines one at a time and may fail before one of them.
type vReader struct {
	lines []string
	next  int
	fail  int // -1: never
	rest  string
}

var errVRead = errors.New("read failed")

func (r *vReader) Read(p []byte) (int, error) {
	if r.rest == "" {
		if r.next == r.fail {
			return 0, errVRead
		}
		if r.next >= len(r.lines) {
			return 0, io.EOF
		}
		r.rest = r.lines[r.next] + "\n"
		r.next++
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

func vTexts(lines []vline) *vReader {
	r := &vReader{fail: -1}
	for _, l := range lines {
		r.lines = append(r.lines, l.text)
	}
	return r
}

// vCategory is what the lines say about a function, on top of what the
// function and package have otherwise.
func vCategory(lines []vline, pkg, name string, otherwise func() cpb.Capability) cpb.Capability {
	for _, l := range lines {
		if l.fields >= 2 && l.kind == kindSuffix && vHasSuffix(name, l.key) {
			return cpb.Capability_CAPABILITY_CGO
		}
	}
	for _, l := range lines {
		if l.fields >= 3 && l.kind == kindFunc && l.key == name {
			return l.cap
		}
	}
	for _, l := range lines {
		if l.fields >= 2 && l.kind == kindUnanalyzed && l.key == name {
			return cpb.Capability_CAPABILITY_UNANALYZED
		}
	}
	for _, l := range lines {
		if l.fields >= 3 && l.kind == kindPackage && l.key == pkg {
			return l.cap
		}
	}
	return otherwise()
}

func vHasSuffix(s, suf string) bool {
	return len(s) >= len(suf) && s[len(s)-len(suf):] == suf
}

func vUnspecified() cpb.Capability { return cpb.Capability_CAPABILITY_UNSPECIFIED }

// vFn makes a function with the given package and name.
func vFn(pkg, name string) *ssa.Function {
	fn := &ssa.Function{Signature: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
	tp := types.NewPackage(pkg, pkg)
	fn.Pkg = &ssa.Package{Pkg: tp}
	vrt.SetField(fn, "name", name)
	return fn
}

func vEdge(caller, callee *ssa.Function) *callgraph.Edge {
	return &callgraph.Edge{Caller: &callgraph.Node{Func: caller}, Callee: &callgraph.Node{Func: callee}}
}

// vLit makes the n-th function literal of a function, and those before it.
func vLit(in *ssa.Function, n int) *ssa.Function {
	var l *ssa.Function
	for len(in.AnonFuncs) < n {
		l = &ssa.Function{Signature: types.NewSignatureType(nil, nil, nil, nil, nil, false), Pkg: in.Pkg}
		vrt.SetField(l, "name", in.Name()+"$"+vItoa(len(in.AnonFuncs)+1))
		vrt.SetField(l, "parent", in)
		in.AnonFuncs = append(in.AnonFuncs, l)
	}
	return l
}

func vItoa(i int) string { return string([]byte{byte('0' + i)}) }

// vMethod makes a method of a type, on a pointer or a value.
func vMethod(pkg, typ, name string, ptr bool) *ssa.Function {
	fn := vFn(pkg, name)
	tn := types.NewTypeName(token.NoPos, fn.Pkg.Pkg, typ, nil)
	var t types.Type = types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	if ptr {
		t = types.NewPointer(t)
	}
	fn.Signature = types.NewSignatureType(types.NewVar(token.NoPos, fn.Pkg.Pkg, "r", t), nil, nil, nil, nil, false)
	return fn
}

// vInstance makes an instantiation of a generic function.
func vInstance(pkg, name, targ string) *ssa.Function {
	orig, fn := vFn(pkg, name), vFn(pkg, name+"["+targ+"]")
	fn.Pkg = nil
	obj := types.NewFunc(token.NoPos, orig.Pkg.Pkg, name, orig.Signature)
	vrt.SetField(orig, "object", obj)
	vrt.SetField(fn, "object", obj)
	vrt.SetField(fn, "topLevelOrigin", orig)
	vrt.SetField(fn, "typeargs", []types.Type{types.Typ[types.Int]})
	return fn
}
