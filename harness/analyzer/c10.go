package analyzer

import (
	"go/token"
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/ssa"
)

//verif:use analyzer/syntaxlib.go

// c10Found runs the analysis and reports whether function 0, and no other, has
// the reflect finding.
func c10Found(g *vgraph) bool {
	g.finish()
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	cil := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction})
	res := cil.GetCapabilityInfo()
	n := 0
	for i := 0; i < len(res); i++ {
		ok := res[i].GetCapability() == cpb.Capability_CAPABILITY_REFLECT && res[i].GetPath()[0].GetName() == g.fns[0].name
		vrt.Assert(ok, "nothing but the storing function is reported")
		n++
	}
	vrt.Assert(n <= 1, "the function is reported once")
	return n > 0
}

// c10Base are the innermost types; the first is the one looked for.
func c10Base(g *vgraph, k int) (types.Type, bool) {
	switch k {
	case 0:
		return vsReflectValue(), true
	case 1:
		return types.Typ[types.Int], false
	case 2:
		return vsNamed(g.tpkgs[0], "Value", types.NewStruct(nil, nil)), false
	case 3:
		// a package of the same name
		return vsNamed(types.NewPackage("ex.org/reflect", "reflect"), "Value", types.NewStruct(nil, nil)), false
	}
	return vsNamed(types.NewPackage("reflect", "reflect"), "Method", types.NewStruct(nil, nil)), false
}

const c10Ctors = 14

// c10Wrap builds a type around another one; it says whether the result has a
// value of the inner type stored in place.
func c10Wrap(g *vgraph, k int, name string, t types.Type) (types.Type, bool) {
	field := func(n string, t types.Type) *types.Var {
		return types.NewField(token.NoPos, g.tpkgs[0], n, t, false)
	}
	switch k {
	case 0:
		return vsNamed(g.tpkgs[0], "N"+name, t.Underlying()), true
	case 1:
		return vsAlias(g.tpkgs[0], "A"+name, t), true
	case 2:
		return types.NewStruct([]*types.Var{field("x", t)}, nil), true
	case 3:
		return types.NewStruct([]*types.Var{field("y", types.Typ[types.String]), field("z", t)}, nil), true
	case 4:
		return types.NewArray(t, 2), true
	case 5:
		return vsNamed(g.tpkgs[0], "S"+name, types.NewStruct([]*types.Var{field("x", t), field("n", types.Typ[types.Int])}, nil)), true
	case 6:
		return types.NewPointer(t), false
	case 7:
		return types.NewSlice(t), false
	case 8:
		return types.NewMap(types.Typ[types.Int], t), false
	case 9:
		return types.NewChan(types.SendRecv, t), false
	case 10:
		v := types.NewVar(token.NoPos, g.tpkgs[0], "v", t)
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(v), nil, false), false
	case 11:
		return types.NewArray(t, 1), true
	case 12:
		// embedded, under the name of the type or of an alias of it
		return types.NewStruct([]*types.Var{types.NewField(token.NoPos, g.tpkgs[0], "e", t, true), field("n", types.Typ[types.Int])}, nil), true
	}
	return types.NewInterfaceType(nil, nil), false
}

// c10Type builds a type from a basic one by n freely chosen constructors, and
// says whether a store of it is a finding.
func c10Type(g *vgraph, bases int, names ...string) (types.Type, bool) {
	t, is := c10Base(g, vrt.Choice("base", bases))
	plain := true // so far only aliases and names of the basic type
	for _, name := range names {
		k := vrt.Choice(name, c10Ctors)
		u, inPlace := c10Wrap(g, k, name, t)
		// a type defined as reflect.Value, directly or by an alias, is another
		// type; defined as a struct or array containing it, it still contains it
		is = is && inPlace && !(plain && k == 0)
		plain = plain && k <= 1
		t = u
	}
	return t, is
}

// VerifC10Types: a store through a parameter of a type built from five basic
// types by two of fourteen constructors: named types, aliases, structs with one
// or two fields, embedded or not, arrays, named structs, pointers, slices, maps, channels,
// functions and interfaces; another function stores an integer.
//
//verif:harness C10 both
func VerifC10Types() {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	g.fun(0, "F")
	g.fun(0, "G")
	t, want := c10Type(g, 5, "inner", "outer")
	g.fns[0].fn.Blocks[0].Instrs = []ssa.Instruction{vsStore(t)}
	g.fns[1].fn.Blocks[0].Instrs = []ssa.Instruction{vsStore(types.Typ[types.Int])}
	vrt.Assert(c10Found(g) == want, "exactly a stored type that contains a reflection value is found")
	vrt.Cover(want, "a reflection value at depth two")
}

// VerifC10Deep: the same with three of the constructors around reflect.Value
// or another type.
//
//verif:harness C10 both
func VerifC10Deep() {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	g.fun(0, "F")
	t, want := c10Type(g, 2, "inner", "middle", "outer")
	g.fns[0].fn.Blocks[0].Instrs = []ssa.Instruction{vsStore(t)}
	vrt.Assert(c10Found(g) == want, "exactly a stored type that contains a reflection value is found")
	vrt.Cover(want, "a reflection value at depth three")
}

// VerifC10Recursive: stores of a recursive struct type that refers to itself
// through a pointer, slice, map, channel, function, array of pointers or named
// array type, before or after a field that may be a reflection value; stored
// as itself, in an array or as a pointer.
//
//verif:harness C10 both
func VerifC10Recursive() {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	g.fun(0, "F")
	tn := types.NewTypeName(token.NoPos, g.tpkgs[0], "R", nil)
	r := types.NewNamed(tn, nil, nil)
	ptr := types.NewPointer(r)
	vias := []types.Type{
		ptr,
		types.NewSlice(r),
		types.NewMap(types.Typ[types.Int], ptr),
		types.NewChan(types.SendRecv, r),
		types.NewArray(ptr, 3),
		vsNamed(g.tpkgs[0], "L", types.NewArray(types.NewSlice(r), 1)),
	}
	b, is := c10Base(g, vrt.Choice("base", 3))
	self := types.NewField(token.NoPos, g.tpkgs[0], "self", vias[vrt.Choice("via", len(vias))], false)
	self2 := types.NewField(token.NoPos, g.tpkgs[0], "next", ptr, false)
	val := types.NewField(token.NoPos, g.tpkgs[0], "val", b, false)
	if vrt.Bool("before") {
		r.SetUnderlying(types.NewStruct([]*types.Var{self, val}, nil))
	} else {
		r.SetUnderlying(types.NewStruct([]*types.Var{self2, val, self}, nil))
	}
	var t types.Type = r
	as := vrt.Choice("as", 3)
	if as == 1 {
		t = types.NewArray(r, 2)
	} else if as == 2 {
		t = ptr
	}
	g.fns[0].fn.Blocks[0].Instrs = []ssa.Instruction{vsStore(t)}
	want := is && as != 2
	vrt.Assert(c10Found(g) == want, "a recursive type is searched completely and once")
	vrt.Cover(want && as == 1, "an array of recursive structs")
}

// VerifC10Locals: a function with two local variables that escape or not and a
// pointer parameter, three address computations of a field or an element of
// any earlier address or loads through it, and two stores to any address, the type at the
// destinations containing a reflection value or not; the instructions are
// spread over one or two blocks.
//
//verif:harness C10 both
func VerifC10Locals() {
	g := newVgraph("ex.org/a")
	vsInfo(g)
	g.fun(0, "F")
	fn := g.fns[0].fn
	refl := types.NewPointer(types.NewStruct([]*types.Var{types.NewField(token.NoPos, g.tpkgs[0], "v", vsReflectValue(), false)}, nil))
	plain := types.NewPointer(types.Typ[types.Int])
	var vals []ssa.Value
	var local, holds []bool
	typed := func(v any, name string) types.Type {
		h := vrt.Bool(name)
		holds = append(holds, h)
		var t types.Type = plain
		if h {
			t = refl
		}
		vrt.SetField(v, "typ", t)
		return t
	}
	for i := 0; i < 2; i++ {
		a := &ssa.Alloc{Heap: vrt.Bool("heap" + vgItoa(i))}
		typed(a, "type"+vgItoa(i))
		if !a.Heap {
			fn.Locals = append(fn.Locals, a)
		}
		vals = append(vals, a)
		local = append(local, !a.Heap)
	}
	param := &ssa.Parameter{}
	typed(param, "type02")
	vals = append(vals, param)
	local = append(local, false)
	var instrs []ssa.Instruction
	for i := 0; i < 3; i++ {
		k := vrt.Choice("x"+vgItoa(i)[1:], len(vals))
		isLocal := false
		for j := range local {
			if j == k {
				isLocal = local[j]
			}
		}
		switch vrt.Choice("form"+vgItoa(i)[1:], 3) {
		case 0:
			a := &ssa.IndexAddr{X: vals[k]}
			typed(a, "itype"+vgItoa(i))
			vals = append(vals, a)
			instrs = append(instrs, a)
		case 1:
			a := &ssa.UnOp{Op: token.MUL, X: vals[k]}
			typed(a, "utype"+vgItoa(i))
			vals = append(vals, a)
			instrs = append(instrs, a)
			isLocal = false // whatever an address kept there refers to
		default:
			a := &ssa.FieldAddr{X: vals[k], Field: vrt.Choice("field"+vgItoa(i)[1:], 3)}
			typed(a, "ftype"+vgItoa(i))
			vals = append(vals, a)
			instrs = append(instrs, a)
		}
		local = append(local, isLocal)
	}
	want := false
	for i := 0; i < 2; i++ {
		k := vrt.Choice("store"+vgItoa(i)[1:], len(vals))
		instrs = append(instrs, &ssa.Store{Addr: vals[k]})
		for j := range vals {
			if j == k && !local[j] && holds[j] {
				want = true
			}
		}
	}
	at := vrt.Choice("block", len(instrs)+1)
	fn.Blocks = []*ssa.BasicBlock{{Instrs: instrs[:at]}, {Instrs: instrs[at:]}}
	vrt.Assert(c10Found(g) == want, "exactly stores outside the locals and their parts are found")
	vrt.Cover(want, "a store that is found")
	vrt.Cover(!want, "stores that are not found")
}
