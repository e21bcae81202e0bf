package main

import (
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics of the template stand-in (vrt/tmpl.go): values of any type are
// taken apart the way the template library does it by reflection.

// embedFiles lists the files below the directories of the checked packages
// that match an embedding pattern.
func (ld *Loaded) embedFiles(pattern string) []string {
	var out []string
	for _, d := range ld.dirs {
		m, _ := filepath.Glob(filepath.Join(d, filepath.FromSlash(pattern)))
		sort.Strings(m)
		for _, f := range m {
			if i, err := os.Stat(f); err == nil && i.Mode().IsRegular() {
				out = append(out, f)
			}
		}
	}
	return out
}

// each calls f for the concrete interface values v can be.
func (ex *Exec) eachIface(st *State, v Value, f func(i Iface) Value) Value {
	var alts []Alt
	for _, a := range ex.feasibleAlts(st, v) {
		i, ok := a.v.(Iface)
		if !ok {
			panic(unsupported("template value"))
		}
		if i.t == nil {
			alts = append(alts, Alt{a.g, f(i)})
			continue
		}
		for _, b := range ex.alternatives(i.v) {
			g := ex.tt.And(a.g, b.g)
			if !g.isTrue() && !ex.feasible(ex.tt.And(st.pc, g)) {
				continue
			}
			alts = append(alts, Alt{g, f(Iface{i.t, b.v})})
		}
	}
	return ex.mergeAlts(alts)
}

func structOf(t types.Type) (*types.Struct, bool) {
	p, isPtr := t.Underlying().(*types.Pointer)
	if isPtr {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s, isPtr
}

func (ex *Exec) tmplMethod(t types.Type, name string) *types.Signature {
	ex.ld.mu.Lock()
	defer ex.ld.mu.Unlock()
	sel := ex.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sig := sel.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		panic(unsupported("method in template"))
	}
	return sig
}

// boxed makes an interface value of a value of static type t.
func (ex *Exec) boxed(t types.Type, v Value) Value {
	if types.IsInterface(t) {
		return v
	}
	return ex.mkIface(ex.canon(t), v)
}

func regTmpl(reg func(intrinsic, ...string)) {
	p := vrtPath + "."
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) { return ex.tt.False, rOK }, "github.com/fatih/color.noColorIsSet")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		fs := ex.ld.embedFiles(constStr(args[0]))
		i := int(args[1].(*Term).val)
		if i >= len(fs) {
			return Str(""), rOK
		}
		return Str(path.Base(fs[i])), rOK
	}, p+"embedName")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		fs := ex.ld.embedFiles(constStr(args[0]))
		b, err := os.ReadFile(fs[int(args[1].(*Term).val)])
		if err != nil {
			panic(unsupported("embedded file: " + err.Error()))
		}
		return Str(b), rOK
	}, p+"embedText")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		panic(unsupported(ex.labelOf(args[0])))
	}, p+"Unsupported")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		name := constStr(args[1])
		return ex.eachIface(st, args[0], func(i Iface) Value {
			if i.t == nil {
				return ex.tt.False
			}
			if ex.tmplMethod(i.t, name) != nil {
				return ex.tt.True
			}
			s, isPtr := structOf(i.t)
			if s == nil {
				return ex.tt.False
			}
			if q, ok := i.v.(Ptr); isPtr && ok && q.obj == 0 {
				return ex.tt.False
			}
			f, _ := findField(s, name)
			return ex.tt.Bool(f != nil)
		}), rOK
	}, p+"tmplHas")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		name := constStr(args[1])
		var ok = true
		v := ex.eachIface(st, args[0], func(i Iface) Value {
			if i.t == nil {
				return Iface{}
			}
			if sig := ex.tmplMethod(i.t, name); sig != nil {
				r, live := ex.callByName(st, i, name)
				if !live {
					ok = false
					return Iface{}
				}
				return ex.boxed(sig.Results().At(0).Type(), r)
			}
			s, isPtr := structOf(i.t)
			f, ft := findField(s, name)
			if f == nil {
				return Iface{}
			}
			if !isPtr {
				v := i.v
				for _, k := range f {
					v = v.(*Agg).e[k]
				}
				return ex.boxed(ft, v)
			}
			q := i.v.(Ptr)
			if q.obj == 0 {
				return Iface{}
			}
			fp := q.path
			for _, k := range f {
				fp = ex.subPath(fp, k)
			}
			return ex.boxed(ft, ex.load1(st, Ptr{q.obj, fp}))
		})
		if !ok {
			return nil, rDead
		}
		return v, rOK
	}, p+"tmplField")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.eachIface(st, args[0], func(i Iface) Value {
			if i.t == nil {
				panic(unsupported("len of nil in template"))
			}
			return ex.lenOf(st, i.t, i.v)
		}), rOK
	}, p+"tmplLen")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.eachIface(st, args[0], func(i Iface) Value {
			s, ok := i.v.(Slice)
			if !ok {
				panic(unsupported("template loop over " + i.t.String()))
			}
			el := i.t.Underlying().(*types.Slice).Elem()
			return ex.lift(args[1], func(k Value) Value {
				t, ok := k.(*Term)
				if !ok || !t.isConst() {
					panic(unsupported("symbolic index in template"))
				}
				if t.val >= uint64(s.n) {
					return Iface{}
				}
				return ex.boxed(el, ex.load1(st, Ptr{s.obj, ex.subPath(s.path, s.off+int32(t.val))}))
			})
		}), rOK
	}, p+"tmplAt")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.eachIface(st, args[0], func(i Iface) Value {
			if i.t == nil {
				return ex.tt.False
			}
			switch i.t.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Array:
				return ex.tt.Not(ex.eq(st, ex.lenOf(st, i.t, i.v), ex.intv(0)))
			case *types.Pointer:
				return ex.tt.Bool(i.v.(Ptr).obj != 0)
			case *types.Struct:
				return ex.tt.True
			case *types.Basic:
				switch v := i.v.(type) {
				case Str, *SymStr:
					return ex.tt.Bool(strLen(v) != 0)
				case *Term:
					if v.w == 0 {
						return v
					}
					return ex.tt.Not(ex.tt.Eq(v, ex.bv(v.w, 0)))
				}
			}
			panic(unsupported("truth of " + i.t.String()))
		}), rOK
	}, p+"tmplTruth")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		v := args[0]
		for n := 0; n < 4; n++ {
			v = ex.eachIface(st, v, func(i Iface) Value {
				if i.t == nil {
					return i
				}
				pt, ok := i.t.Underlying().(*types.Pointer)
				if !ok {
					return i
				}
				q := i.v.(Ptr)
				if q.obj == 0 {
					return i
				}
				return ex.boxed(pt.Elem(), ex.load1(st, q))
			})
		}
		return v, rOK
	}, p+"tmplDeref")
}
