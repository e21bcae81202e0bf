package main

import (
	"fmt"
	gotoken "go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- formatting ----

const maxStrAlts = 6000

func opaqueStr(why string) Value { return &Opaque{why} }

func (ex *Exec) cat(st *State, a, b Value) Value {
	if _, ok := a.(*Opaque); ok {
		return a
	}
	if _, ok := b.(*Opaque); ok {
		return b
	}
	return ex.concat(st, a, b)
}

func (ex *Exec) hasMethod(t types.Type, name string) bool {
	ex.ld.mu.Lock()
	defer ex.ld.mu.Unlock()
	return ex.prog.MethodSets.MethodSet(t).Lookup(nil, name) != nil
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
var stringerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(gotoken.NoPos, nil, "String",
	types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(gotoken.NoPos, nil, "", types.Typ[types.String])), false))}, nil).Complete()

// textOf formats a (possibly multi-valued) interface value.
func (ex *Exec) textOf(st *State, v Value, verb byte, plus, sharp bool) Value {
	if o, ok := v.(*Opaque); ok {
		return o
	}
	var out []Alt
	for _, a := range ex.alternatives(v) {
		i, ok := a.v.(Iface)
		if !ok {
			return opaqueStr("format operand")
		}
		if i.t != nil {
			if _, basic := i.t.(*types.Basic); !basic && !ex.feasible(ex.tt.And(st.pc, a.g)) {
				continue
			}
		}
		s := &State{pc: ex.tt.And(st.pc, a.g), heap: st.heap, logs: st.logs}
		t := ex.text1(s, i, verb, plus, sharp, 0)
		if o, ok := t.(*Opaque); ok {
			return o
		}
		out = append(out, Alt{a.g, t})
	}
	if len(out) == 0 {
		panic(deadPath{})
	}
	return ex.mergeAlts(out)
}

func (ex *Exec) text1(st *State, i Iface, verb byte, plus, sharp bool, depth int) Value {
	if i.t == nil {
		if verb == 'v' || verb == 'w' {
			return Str("<nil>")
		}
		return Str("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return Str(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'w' {
		verb = 'v'
	}
	if !sharp && (verb == 'v' || verb == 's' || verb == 'q') {
		name := ""
		if ex.implements(i.t, errorIface) {
			name = "Error"
		} else if ex.implements(i.t, stringerIface) {
			name = "String"
		}
		if name != "" {
			if p, ok := i.v.(Ptr); ok && p.obj == 0 {
				return Str("<nil>")
			}
			s := st.fork()
			var v Value
			v, ok := ex.guarded(s, func() (Value, bool) { return ex.callByName(s, i, name) })
			if !ok {
				return opaqueStr("formatting method " + name)
			}
			return ex.verbStr(v, verb)
		}
	}
	return ex.textT(st, i.t, i.v, verb, plus, sharp, depth)
}

func (ex *Exec) verbStr(v Value, verb byte) Value {
	return ex.lift(v, func(v Value) Value {
		switch s := v.(type) {
		case Str:
			switch verb {
			case 'v', 's':
				return s
			case 'q':
				return Str(strconv.Quote(string(s)))
			case 'x':
				return Str(fmt.Sprintf("%x", string(s)))
			}
			return Str(fmt.Sprintf("%"+string(verb), string(s)))
		case *SymStr:
			if verb == 'v' || verb == 's' {
				return s
			}
		}
		return opaqueStr("string verb")
	})
}

func (ex *Exec) textT(st *State, t types.Type, v Value, verb byte, plus, sharp bool, depth int) Value {
	if depth > 4 {
		return opaqueStr("nested format")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if sharp && verb == 'v' {
				verb = 'q'
			}
			return ex.verbStr(v, verb)
		case u.Info()&types.IsBoolean != 0:
			b, ok := v.(*Term)
			if !ok {
				return opaqueStr("bool")
			}
			return ex.mergeAlts([]Alt{{b, Str("true")}, {ex.tt.Not(b), Str("false")}})
		case u.Info()&types.IsInteger != 0:
			return ex.lift(v, func(v Value) Value {
				x, ok := v.(*Term)
				if !ok || !x.isConst() {
					return opaqueStr("integer")
				}
				f := "%" + string(verb)
				if _, signed, _ := bitsOf(t); signed {
					return Str(fmt.Sprintf(f, sext64(x.val, x.w)))
				}
				return Str(fmt.Sprintf(f, x.val))
			})
		}
	case *types.Interface:
		var out []Alt
		for _, a := range ex.alternatives(v) {
			i, ok := a.v.(Iface)
			if !ok {
				return opaqueStr("format")
			}
			r := ex.text1(st, i, verb, plus, sharp, depth+1)
			if o, ok := r.(*Opaque); ok {
				return o
			}
			out = append(out, Alt{a.g, r})
		}
		return ex.mergeAlts(out)
	case *types.Slice, *types.Array:
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		if isByteSlice(t) && (verb == 's' || verb == 'q' || verb == 'x') {
			return ex.verbStr(ex.bytesToStr(st, v), verb)
		}
		if sharp {
			return opaqueStr("%#v")
		}
		var out []Alt
		for _, a := range ex.alternatives(v) {
			var el []Value
			switch x := a.v.(type) {
			case Slice:
				el = ex.sliceElems(st, x)
			case *Agg:
				el = x.e
			default:
				return opaqueStr("format slice")
			}
			var r Value = Str("[")
			for k, e := range el {
				if k > 0 {
					r = ex.cat(st, r, Str(" "))
				}
				r = ex.cat(st, r, ex.elemText(st, et, e, verb, plus, sharp, depth+1))
			}
			r = ex.cat(st, r, Str("]"))
			if o, ok := r.(*Opaque); ok {
				return o
			}
			out = append(out, Alt{a.g, r})
		}
		return ex.mergeAlts(out)
	case *types.Struct:
		ag, ok := v.(*Agg)
		if !ok || sharp || plus {
			return opaqueStr("format struct")
		}
		var r Value = Str("{")
		for k := 0; k < u.NumFields(); k++ {
			if k > 0 {
				r = ex.cat(st, r, Str(" "))
			}
			r = ex.cat(st, r, ex.elemText(st, u.Field(k).Type(), ag.e[k], verb, plus, sharp, depth+1))
		}
		return ex.cat(st, r, Str("}"))
	case *types.Pointer:
		if p, ok := v.(Ptr); ok && p.obj == 0 && verb == 'v' {
			return Str("<nil>")
		}
	}
	return opaqueStr("format of " + t.String())
}

func (ex *Exec) elemText(st *State, t types.Type, v Value, verb byte, plus, sharp bool, depth int) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return ex.textT(st, t, v, verb, plus, sharp, depth)
	}
	return ex.lift(v, func(v Value) Value { return ex.text1(st, Iface{ex.canon(t), v}, verb, plus, sharp, depth) })
}

// sprintf formats; wrapped receives the operands of %w verbs.
func (ex *Exec) sprintf(st *State, format string, args []Value, wrapped *[]Value) Value {
	var r Value = Str("")
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			r = ex.cat(st, r, Str(format[i:]))
			break
		}
		r = ex.cat(st, r, Str(format[i:i+j]))
		i += j + 1
		fl := i
		plus, sharp := false, false
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			plus = plus || format[i] == '+'
			sharp = sharp || format[i] == '#'
			i++
		}
		for i < len(format) && (format[i] >= '0' && format[i] <= '9' || format[i] == '.') {
			i++
		}
		if i >= len(format) {
			r = ex.cat(st, r, Str("%!(NOVERB)"))
			break
		}
		mods := format[fl:i]
		verb := format[i]
		i++
		if verb == '%' {
			r = ex.cat(st, r, Str("%"))
			continue
		}
		if verb == '*' || verb == '[' {
			return opaqueStr("format modifiers")
		}
		if n >= len(args) {
			r = ex.cat(st, r, Str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		if verb == 'w' && wrapped != nil {
			*wrapped = append(*wrapped, a)
		}
		t := ex.textOf(st, a, verb, plus, sharp)
		if strings.Trim(mods, "+#") != "" {
			f := "%" + mods + "s"
			t = ex.lift(t, func(v Value) Value {
				s, ok := v.(Str)
				if !ok || verb != 's' && verb != 'v' && verb != 'd' || strings.Contains(mods, "0") && verb == 'd' && strings.HasPrefix(mods, "0") {
					return opaqueStr("format width")
				}
				return Str(fmt.Sprintf(f, string(s)))
			})
		}
		r = ex.cat(st, r, t)
	}
	if n < len(args) {
		return opaqueStr("extra format operands")
	}
	return r
}

func (ex *Exec) sprint(st *State, args []Value, ln bool) Value {
	var r Value = Str("")
	prevStr := true
	for i, a := range args {
		isStr := false
		for _, al := range ex.alternatives(a) {
			if f, ok := al.v.(Iface); ok && f.t != nil && isString(f.t) {
				isStr = true
			}
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			r = ex.cat(st, r, Str(" "))
		}
		prevStr = isStr
		r = ex.cat(st, r, ex.textOf(st, a, 'v', false, false))
	}
	if ln {
		r = ex.cat(st, r, Str("\n"))
	}
	return r
}

// varargs returns the elements of a variadic argument.
func (ex *Exec) varargs(st *State, v Value) []Value {
	s, ok := v.(Slice)
	if !ok {
		panic(unsupported("variadic argument union"))
	}
	return ex.sliceElems(st, s)
}

func (ex *Exec) fmtString(st *State, format Value, args []Value, wrapped *[]Value) Value {
	if f, ok := format.(Str); ok {
		return ex.sprintf(st, string(f), args, wrapped)
	}
	return ex.lift(format, func(v Value) Value {
		f, ok := v.(Str)
		if !ok {
			return opaqueStr("symbolic format")
		}
		return ex.sprintf(st, string(f), args, wrapped)
	})
}

func fakeMethod(name string) *types.Func { return types.NewFunc(gotoken.NoPos, nil, name, nil) }

// writeTo writes text to an io.Writer value.
func (ex *Exec) writeTo(st *State, w, text Value) (Value, int) {
	all := true
	for _, a := range ex.feasibleAlts(st, w) {
		i, ok := a.v.(Iface)
		if !ok {
			panic(unsupported("write to opaque"))
		}
		if i.t != nil && !ex.hasMethod(i.t, "WriteString") {
			all = false
		}
	}
	var v Value
	var ok bool
	if all {
		v, ok = ex.invoke(st, w, fakeMethod("WriteString"), []Value{text})
	} else {
		if _, ok := text.(*Opaque); ok {
			panic(unsupported("write of opaque text"))
		}
		v, ok = ex.invoke(st, w, fakeMethod("Write"), []Value{ex.strToBytes(st, text)})
	}
	if !ok {
		return nil, rDead
	}
	return v, rOK
}

func (ex *Exec) newObj(st *State, pkg, name string, fields ...Value) Value {
	p := ex.ld.pkgs[pkg]
	if p == nil || p.Type(name) == nil {
		panic(unsupported("type " + pkg + "." + name))
	}
	id := ex.alloc(st, &Agg{e: fields})
	return Iface{ex.canon(types.NewPointer(p.Type(name).Type())), Ptr{obj: id}}
}

func regFmt(reg func(intrinsic, ...string)) {
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.fmtString(st, args[0], ex.varargs(st, args[1]), nil), rOK
	}, "fmt.Sprintf")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.sprint(st, ex.varargs(st, args[0]), false), rOK
	}, "fmt.Sprint")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.sprint(st, ex.varargs(st, args[0]), true), rOK
	}, "fmt.Sprintln")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.writeTo(st, args[0], ex.fmtString(st, args[1], ex.varargs(st, args[2]), nil))
	}, "fmt.Fprintf")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.writeTo(st, args[0], ex.sprint(st, ex.varargs(st, args[1]), false))
	}, "fmt.Fprint")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.writeTo(st, args[0], ex.sprint(st, ex.varargs(st, args[1]), true))
	}, "fmt.Fprintln")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.writeTo(st, args[0], args[1])
	}, "io.WriteString")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		var wrapped []Value
		msg := ex.fmtString(st, args[0], ex.varargs(st, args[1]), &wrapped)
		switch len(wrapped) {
		case 0:
			return ex.newObj(st, "errors", "errorString", msg), rOK
		case 1:
			return ex.newObj(st, "fmt", "wrapError", msg, wrapped[0]), rOK
		}
		et := types.Universe.Lookup("error").Type()
		return ex.newObj(st, "fmt", "wrapErrors", msg, ex.newSlice(st, et, wrapped)), rOK
	}, "fmt.Errorf")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		is := ex.ld.pkgs["errors"].Func("is")
		if is == nil {
			return nil, rFall
		}
		v, ok := ex.callFn(st, is, []Value{args[0], args[1], ex.tt.True}, nil)
		if !ok {
			return nil, rDead
		}
		return v, rOK
	}, "errors.Is")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		tg, ok := args[1].(Iface)
		if !ok || tg.t == nil {
			panic(unsupported("errors.As target"))
		}
		p, ok := tg.v.(Ptr)
		if !ok {
			panic(unsupported("errors.As target"))
		}
		return ex.errorsAs(st, ex.tt.True, args[0], tg.t.Underlying().(*types.Pointer).Elem(), p, 0), rOK
	}, "errors.As")
}

func (ex *Exec) errorsAs(st *State, g *Term, err Value, to types.Type, p Ptr, depth int) *Term {
	if depth > 12 {
		panic(unsupported("errors.As depth"))
	}
	res := ex.tt.False
	_, toIface := to.Underlying().(*types.Interface)
	for _, a := range ex.alternatives(err) {
		ag := ex.tt.And(g, a.g)
		if !ex.feasible(ex.tt.And(st.pc, ag)) {
			continue
		}
		i := a.v.(Iface)
		if i.t == nil {
			continue
		}
		if ex.assertOK(i, to) {
			var v Value = i.v
			if toIface {
				v = i
			}
			ex.storeG(st, ag, p, v)
			res = ex.tt.Or(res, ag)
			continue
		}
		if ex.hasMethod(i.t, "As") {
			panic(unsupported("As method"))
		}
		if ex.hasMethod(i.t, "Unwrap") {
			s := st.fork()
			s.pc = ex.tt.And(st.pc, ag)
			v, ok := ex.callByName(s, i, "Unwrap")
			if !ok {
				panic(unsupported("Unwrap"))
			}
			if _, ok := v.(Slice); ok {
				panic(unsupported("Unwrap []error"))
			}
			res = ex.tt.Or(res, ex.errorsAs(st, ag, v, to, p, depth+1))
		}
	}
	return res
}

// ---- reflect ----

var kinds = map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8,
	types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16,
	types.String: 24, types.UnsafePointer: 26}

func kindOf(t types.Type) uint64 {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kinds[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (ex *Exec) rv(v Value) *RVal {
	switch x := v.(type) {
	case *RVal:
		return x
	case *Agg:
		return &RVal{}
	}
	panic(unsupported(fmt.Sprintf("reflect value %T", v)))
}

func (ex *Exec) rget(st *State, r *RVal) Value {
	if r.addr {
		return ex.load1(st, r.v.(Ptr))
	}
	return r.v
}

// rlift applies f to each alternative of the receiver
func rlift(f func(ex *Exec, st *State, r *RVal, args []Value) Value) intrinsic {
	return func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		if r, ok := args[0].(*RVal); ok {
			return f(ex, st, r, args[1:]), rOK
		}
		var out []Alt
		for _, a := range ex.feasibleAlts(st, args[0]) {
			out = append(out, Alt{a.g, f(ex, st, ex.rv(a.v), args[1:])})
		}
		return ex.mergeAlts(out), rOK
	}
}

func cint(v Value) int32 {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		panic(unsupported("symbolic integer"))
	}
	return int32(t.val)
}

func regReflect(reg func(intrinsic, ...string)) {
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.lift(args[0], func(v Value) Value { i := v.(Iface); return &RVal{t: i.t, v: i.v} }), rOK
	}, "reflect.ValueOf")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value { return ex.tt.BV(64, kindOf(r.t)) }), "(reflect.Value).Kind")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value { return ex.tt.Bool(r.t != nil) }), "(reflect.Value).IsValid")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value {
		return ex.eq(st, ex.rget(st, r), ex.zero(r.t))
	}), "(reflect.Value).IsNil", "(reflect.Value).IsZero")
	elem := func(ex *Exec, st *State, r *RVal) Value {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			return ex.lift(ex.rget(st, r), func(v Value) Value {
				if v.(Ptr).obj == 0 {
					return &RVal{}
				}
				return &RVal{t: ex.canon(u.Elem()), v: v, addr: true}
			})
		case *types.Interface:
			return ex.lift(ex.rget(st, r), func(v Value) Value { i := v.(Iface); return &RVal{t: i.t, v: i.v} })
		}
		panic(unsupported("reflect Elem"))
	}
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value { return elem(ex, st, r) }), "(reflect.Value).Elem")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value {
		if kindOf(r.t) == 22 {
			return elem(ex, st, r)
		}
		return r
	}), "reflect.Indirect")
	field := func(ex *Exec, st *State, r *RVal, i int) Value {
		u := r.t.Underlying().(*types.Struct)
		ft := ex.canon(u.Field(i).Type())
		if r.addr {
			p := r.v.(Ptr)
			return &RVal{t: ft, v: Ptr{p.obj, ex.subPath(p.path, int32(i))}, addr: true}
		}
		return ex.lift(elemGet(r.v, int32(i)), func(v Value) Value { return &RVal{t: ft, v: v} })
	}
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value {
		u := r.t.Underlying().(*types.Struct)
		n := constStr(args[0])
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == n {
				return field(ex, st, r, i)
			}
		}
		return &RVal{}
	}), "(reflect.Value).FieldByName")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value { return field(ex, st, r, int(cint(args[0]))) }), "(reflect.Value).Field")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value {
		return ex.intv(int64(r.t.Underlying().(*types.Struct).NumFields()))
	}), "(reflect.Value).NumField")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value { return ex.vlen(ex.rget(st, r)) }), "(reflect.Value).Len")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value {
		et := ex.canon(r.t.Underlying().(*types.Slice).Elem())
		var out []Alt
		for _, a := range ex.feasibleAlts(st, ex.rget(st, r)) {
			for _, b := range ex.feasibleAlts(st, args[0]) {
				s, i := a.v.(Slice), cint(b.v)
				g := ex.tt.And(a.g, b.g)
				if i < 0 || i >= s.n {
					if ex.feasible(ex.tt.And(st.pc, g)) {
						panic(unsupported("reflect index out of range"))
					}
					continue
				}
				out = append(out, Alt{g, &RVal{t: et, v: Ptr{s.obj, ex.subPath(s.path, s.off+i)}, addr: true}})
			}
		}
		return ex.mergeAlts(out)
	}), "(reflect.Value).Index")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value {
		return ex.liftN(st, []Value{ex.rget(st, r), args[0], args[1]}, func(vs []Value) Value {
			s := vs[0].(Slice)
			i, j := cint(vs[1]), cint(vs[2])
			return &RVal{t: r.t, v: Slice{s.obj, s.path, s.off + i, j - i, s.c - i}}
		})
	}), "(reflect.Value).Slice")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		r := ex.rv(args[0])
		s, ok := ex.rget(st, r).(Slice)
		if !ok {
			panic(unsupported("SetLen"))
		}
		s.n = cint(args[1])
		ex.store(st, r.v, s)
		return nil, rOK
	}, "(reflect.Value).SetLen")
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value {
		if kindOf(r.t) == 20 {
			return ex.rget(st, r)
		}
		return ex.lift(ex.rget(st, r), func(v Value) Value { return Iface{r.t, v} })
	}), "(reflect.Value).Interface")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		type w struct {
			g *Term
			p Ptr
			v Value
		}
		var ws []w
		ex.product(st, args[:2], func(g *Term, vs []Value) {
			d, s := ex.rv(vs[0]), ex.rv(vs[1])
			if !d.addr {
				panic(unsupported("Set of unaddressable"))
			}
			v := ex.rget(st, s)
			if kindOf(d.t) == 20 && kindOf(s.t) != 20 {
				v = ex.lift(v, func(v Value) Value { return Iface{s.t, v} })
			}
			ws = append(ws, w{g, d.v.(Ptr), v})
		})
		for _, x := range ws {
			ex.storeG(st, x.g, x.p, x.v)
		}
		return nil, rOK
	}, "(reflect.Value).Set")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		d, s := ex.rv(args[0]), ex.rv(args[1])
		return ex.copyTo(st, ex.rget(st, d), ex.rget(st, s)), rOK
	}, "reflect.Copy")
	// types: represented as RVal with a nil value inside an interface are not
	// needed; Type().Elem() is only used with Zero.
	reg(rlift(func(ex *Exec, st *State, r *RVal, args []Value) Value {
		return Iface{ex.canon(types.Typ[types.UnsafePointer]), &RVal{t: r.t}}
	}), "(reflect.Value).Type")
}

// ---- everything else ----

func regMisc(reg func(intrinsic, ...string)) {
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		// (Capability).String via the generated name table
		g, ok := fn.Pkg.Members["Capability_name"].(*ssa.Global)
		if !ok {
			return nil, rFall
		}
		m := ex.load(st, ex.global(st, g))
		v, okT := ex.mapLookup(st, m, args[0], Str(""))
		if !okT.isTrue() {
			v = ex.mergeAlts([]Alt{{okT, v}, {ex.tt.Not(okT), Str("?")}})
		}
		return v, rOK
	}, "("+modPath+"/proto.Capability).String")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		g, ok := fn.Pkg.Members["CapabilityType_name"].(*ssa.Global)
		if !ok {
			return nil, rFall
		}
		m := ex.load(st, ex.global(st, g))
		v, _ := ex.mapLookup(st, m, args[0], Str("?"))
		return v, rOK
	}, "("+modPath+"/proto.CapabilityType).String")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		p, ok := args[0].(Ptr)
		if !ok || p.obj == 0 {
			return nil, rFall
		}
		on, ok := ex.load1(st, Ptr{p.obj, ex.subPath(p.path, 2)}).(Slice)
		if !ok {
			return nil, rFall
		}
		var pairs []string
		for _, e := range ex.sliceElems(st, on) {
			s, ok := e.(Str)
			if !ok {
				panic(unsupported("symbolic replacer"))
			}
			pairs = append(pairs, string(s))
		}
		rp := strings.NewReplacer(pairs...)
		return ex.lift(args[1], func(v Value) Value {
			s, ok := v.(Str)
			if !ok {
				panic(unsupported("replacer on symbolic string"))
			}
			return Str(rp.Replace(string(s)))
		}), rOK
	}, "(*strings.Replacer).Replace")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		// sync.Pool: never caches
		p, ok := args[0].(Ptr)
		if !ok {
			return nil, rFall
		}
		stt := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == "New" {
				f := ex.load1(st, Ptr{p.obj, ex.subPath(p.path, int32(i))})
				if c, ok := f.(*Closure); ok && c == nil {
					return nilIface, rOK
				}
				v, ok := ex.callValue(st, f, nil)
				if !ok {
					return nil, rDead
				}
				return v, rOK
			}
		}
		return nil, rFall
	}, "(*sync.Pool).Get")
	reg(noop, "(*sync.Pool).Put")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) { return &Opaque{"stack"}, rOK }, "runtime/debug.Stack")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) { return Str("linux"), rOK }, "runtime.GOOS")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) { return ex.intv(8), rOK }, "runtime.NumCPU", "runtime.GOMAXPROCS")
}

var deniedPrefixes = []string{"runtime", "internal/", "os", "syscall", "reflect", "time", "net", "crypto", "encoding/", "google.golang.org/", "text/", "html",
	"golang.org/x/tools/go/packages", "golang.org/x/tools/internal/", "golang.org/x/tools/go/internal", "golang.org/x/tools/go/gcexportdata", "log", "embed", "math/rand", "compress/", "hash", "regexp", "testing", "flag", "context", "go/build",
	"github.com/fatih", "github.com/mattn", "golang.org/x/sys", "golang.org/x/mod", "vendor/", "fmt", "io/", "sync", "unique", "weak", "iter", "mime", "database"}

func initDenied(path string) bool {
	if path == "text/template/parse" {
		return false
	}
	for _, d := range deniedPrefixes {
		if path == d || strings.HasPrefix(path, d+"/") || strings.HasSuffix(d, "/") && strings.HasPrefix(path, d) {
			return true
		}
	}
	return false
}

func specialGlobal(ex *Exec, st *State, g *ssa.Global) (Value, bool) {
	el := g.Type().(*types.Pointer).Elem()
	switch g.String() {
	case "internal/cpu.X86", "internal/cpu.DebugOptions", "internal/race.Enabled":
		return ex.zero(el), true
	case "internal/bytealg.MaxLen":
		return ex.intv(64), true
	case "golang.org/x/tools/internal/typeparams.init$guard":
		return ex.tt.False, true
	}
	if g.Name() == "init$guard" {
		return ex.tt.False, true
	}
	// counters and caches without initial value start at zero when the
	// package has no initialiser for them
	return nil, false
}
