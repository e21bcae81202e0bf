package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

const (
	rOK = iota
	rDead
	rFall
)

// intrinsic replaces the body of a function.
type intrinsic func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int)

// prepCall evaluates the callee and the arguments of a call.
func (a *activation) prepCall(fs *fstate, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(c.Args)+1)
	fn := a.get(fs, c.Value)
	for _, x := range c.Args {
		args = append(args, a.get(fs, x))
	}
	return fn, args
}

func (a *activation) call(fs *fstate, c *ssa.CallCommon) (Value, bool) {
	fn, args := a.prepCall(fs, c)
	if b, ok := fn.(BuiltinV); ok {
		return a.ex.builtin(fs.State, b.b, c, args)
	}
	return a.ex.doCall(fs.State, c, fn, args)
}

func (a *activation) runDefer(fs *fstate, r deferRec) {
	ex := a.ex
	do := func(st *State) bool {
		if b, ok := r.fn.(BuiltinV); ok {
			_, ok := ex.builtin(st, b.b, r.call, r.args)
			return ok
		}
		_, ok := ex.doCall(st, r.call, r.fn, r.args)
		return ok
	}
	st := fs.State
	g := ex.tt.And(st.pc, r.g)
	if r.g.isTrue() {
		if !do(st) {
			panic(deadPath{})
		}
		return
	}
	ng := ex.tt.And(st.pc, ex.tt.Not(r.g))
	fg, fn := ex.feasible(g), ex.feasible(ng)
	if !fg {
		return
	}
	if !fn {
		if !do(st) {
			panic(deadPath{})
		}
		return
	}
	s2 := st.fork()
	s2.pc = ng
	s1 := &State{pc: g, heap: st.heap, logs: st.logs}
	loss0, pc0 := ex.loss, st.pc
	if !do(s1) {
		*st = *s2
		return
	}
	m, _ := ex.mergeStates([]*State{s1, s2})
	*st = *m
	if ex.loss == loss0 {
		st.pc = pc0
	}
}

// doCall performs a (possibly dynamic) call.
func (ex *Exec) doCall(st *State, c *ssa.CallCommon, fn Value, args []Value) (Value, bool) {
	if c.IsInvoke() {
		return ex.invoke(st, fn, c.Method, args)
	}
	return ex.callValue(st, fn, args)
}

type target struct {
	g    *Term
	fn   *ssa.Function
	intr *Closure
	recv []Alt // receivers, for method calls
	bind [][]Alt
}

func (ex *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ex.ld.mu.Lock()
	defer ex.ld.mu.Unlock()
	ms := ex.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return ex.prog.MethodValue(sel)
}

func (ex *Exec) invoke(st *State, recv Value, m *types.Func, args []Value) (Value, bool) {
	if o, ok := recv.(*Opaque); ok {
		panic(unsupported("method " + m.Name() + " on opaque " + o.why))
	}
	if i, ok := recv.(Iface); ok && i.t != nil {
		return ex.callMethod(st, i, m, args)
	}
	var ts []*target
	for _, a := range ex.feasibleAlts(st, recv) {
		i, ok := a.v.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", a.v)))
		}
		if i.t == nil {
			ex.failIf(st, a.g, "nil pointer dereference")
			continue
		}
		if iv, ok := i.v.(*Closure); ok && iv != nil && iv.intr != nil {
			panic(unsupported("intrinsic receiver"))
		}
		f := ex.methodOf(i.t, m)
		if f == nil {
			panic(unsupported("no method " + m.Name() + " on " + i.t.String()))
		}
		var t *target
		for _, x := range ts {
			if x.fn == f {
				t = x
			}
		}
		if t == nil {
			t = &target{fn: f}
			ts = append(ts, t)
		}
		t.recv = append(t.recv, Alt{a.g, i.v})
	}
	for _, t := range ts {
		t.g = ex.orAlts(t.recv)
	}
	return ex.dispatch(st, ts, args)
}

func (ex *Exec) callMethod(st *State, i Iface, m *types.Func, args []Value) (Value, bool) {
	f := ex.methodOf(i.t, m)
	if f == nil {
		panic(unsupported("no method " + m.Name() + " on " + i.t.String()))
	}
	return ex.callFn(st, f, append([]Value{i.v}, args...), nil)
}

// callByName calls method name on interface value i (used by formatting).
func (ex *Exec) callByName(st *State, i Iface, name string) (Value, bool) {
	ex.ld.mu.Lock()
	ms := ex.prog.MethodSets.MethodSet(i.t)
	sel := ms.Lookup(nil, name)
	var f *ssa.Function
	if sel != nil {
		f = ex.prog.MethodValue(sel)
	}
	ex.ld.mu.Unlock()
	if f == nil {
		panic(unsupported("no method " + name))
	}
	return ex.callFn(st, f, []Value{i.v}, nil)
}

func (ex *Exec) callValue(st *State, fn Value, args []Value) (Value, bool) {
	switch f := fn.(type) {
	case *Closure:
		if f == nil {
			ex.failIf(st, ex.tt.True, "call of nil function")
		}
		if f.intr != nil {
			return f.intr(ex, st, args)
		}
		return ex.callFn(st, f.fn, args, f.bind)
	case *Union:
		var ts []*target
		for _, a := range ex.feasibleAlts(st, f) {
			c, ok := a.v.(*Closure)
			if !ok {
				panic(unsupported(fmt.Sprintf("call of %T", a.v)))
			}
			if c == nil {
				ex.failIf(st, a.g, "call of nil function")
				continue
			}
			var t *target
			for _, x := range ts {
				if c.fn != nil && x.fn == c.fn || c.fn == nil && x.intr == c {
					t = x
				}
			}
			if t == nil {
				t = &target{fn: c.fn, bind: make([][]Alt, len(c.bind))}
				if c.fn == nil {
					t.intr = c
				}
				ts = append(ts, t)
				t.g = ex.tt.False
			}
			t.g = ex.tt.Or(t.g, a.g)
			for i, b := range c.bind {
				t.bind[i] = append(t.bind[i], Alt{a.g, b})
			}
		}
		return ex.dispatch(st, ts, args)
	case *Opaque:
		panic(unsupported("call of opaque " + f.why))
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

// dispatch runs the call for each target in its own fork and merges the results.
func (ex *Exec) dispatch(st *State, ts []*target, args []Value) (Value, bool) {
	if len(ts) == 0 {
		return nil, false
	}
	do := func(s *State, t *target) (Value, bool) {
		if t.intr != nil {
			return t.intr.intr(ex, s, args)
		}
		as := args
		if t.recv != nil {
			as = append([]Value{ex.mergeAlts(t.recv)}, args...)
		}
		var bind []Value
		for _, b := range t.bind {
			bind = append(bind, ex.mergeAlts(b))
		}
		return ex.callFn(s, t.fn, as, bind)
	}
	if len(ts) == 1 {
		return do(st, ts[0])
	}
	pc0, loss0 := st.pc, ex.loss
	var sts []*State
	var vals []Value
	for i, t := range ts {
		g := ex.tt.And(pc0, t.g)
		var s *State
		if i < len(ts)-1 {
			s = st.fork()
		} else {
			s = &State{pc: st.pc, heap: st.heap, logs: st.logs}
		}
		s.pc = g
		v, ok := ex.guarded(s, func() (Value, bool) { return do(s, t) })
		if !ok {
			continue
		}
		sts = append(sts, s)
		vals = append(vals, v)
	}
	return ex.joinCalls(st, pc0, loss0, sts, vals)
}

func (ex *Exec) joinCalls(st *State, pc0 *Term, loss0 int, sts []*State, vals []Value) (Value, bool) {
	if len(sts) == 0 {
		return nil, false
	}
	m, gs := ex.mergeStates(sts)
	var res Value
	if vals[0] != nil {
		alts := make([]Alt, len(vals))
		for i, v := range vals {
			alts[i] = Alt{gs[i], v}
		}
		res = ex.mergeAlts(alts)
	}
	*st = *m
	if ex.loss == loss0 {
		st.pc = pc0
	}
	return res, true
}

// guarded runs f, turning an abandoned path into ok=false.
func (ex *Exec) guarded(s *State, f func() (Value, bool)) (v Value, ok bool) {
	depth, sl, sinks := ex.depth, len(ex.stack), len(ex.exits)
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case deadPath:
				ex.loss++
			case unsupErr:
				if ex.incon[e.msg] == 0 && ex.verbose {
					fmt.Fprintln(os.Stderr, "unsupported:", e.msg, "|", ex.where())
				}
				ex.incon[e.msg]++
				ex.vc("inconclusive", e.msg, s.pc, ex.where())
				ex.loss++
			default:
				panic(r)
			}
			ex.depth = depth
			ex.stack = ex.stack[:sl]
			ex.exits = ex.exits[:sinks]
			v, ok = nil, false
		}
	}()
	return f()
}

// splitCall runs one fork per feasible combination of argument alternatives.
func (ex *Exec) splitCall(st *State, fn *ssa.Function, args, bind []Value) (Value, bool) {
	type combo struct {
		g  *Term
		as []Value
	}
	var cs []combo
	ex.product(st, args, func(g *Term, as []Value) { cs = append(cs, combo{g, as}) })
	if len(cs) == 0 {
		return nil, false
	}
	if len(cs) == 1 {
		return ex.callBody(st, fn, cs[0].as, bind)
	}
	pc0, loss0 := st.pc, ex.loss
	var sts []*State
	var vals []Value
	for i, c := range cs {
		var s *State
		if i < len(cs)-1 {
			s = st.fork()
		} else {
			s = &State{pc: st.pc, heap: st.heap, logs: st.logs}
		}
		s.pc = ex.tt.And(pc0, c.g)
		v, ok := ex.guarded(s, func() (Value, bool) { return ex.callBody(s, fn, c.as, bind) })
		if ok {
			sts = append(sts, s)
			vals = append(vals, v)
		}
	}
	return ex.joinCalls(st, pc0, loss0, sts, vals)
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args, bind []Value) (Value, bool) {
	in := ex.info(fn)
	if in.split {
		for _, a := range args {
			if _, ok := a.(*Union); ok {
				return ex.splitCall(st, fn, args, bind)
			}
		}
	}
	return ex.callBody(st, fn, args, bind)
}

func (ex *Exec) callBody(st *State, fn *ssa.Function, args, bind []Value) (Value, bool) {
	in := ex.info(fn)
	if in.intr != nil {
		v, r := in.intr(ex, st, fn, args)
		switch r {
		case rOK:
			return v, true
		case rDead:
			return nil, false
		}
	}
	if fn.Synthetic == "package initializer" && ex.depth > 0 {
		return nil, true
	}
	return ex.run(st, fn, args, bind)
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value) (Value, bool) {
	switch b.Name() {
	case "len":
		return ex.lenOf(st, c.Args[0].Type(), args[0]), true
	case "cap":
		return ex.lift(args[0], func(v Value) Value {
			switch v := v.(type) {
			case Slice:
				return ex.intv(int64(v.c))
			case *Agg:
				return ex.intv(int64(len(v.e)))
			case *PVec:
				return ex.intv(int64(v.n))
			}
			panic(unsupported(fmt.Sprintf("cap of %T", v)))
		}), true
	case "append":
		if len(args) == 1 {
			return args[0], true
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		return ex.appendTo(st, et, args[0], args[1]), true
	case "copy":
		return ex.copyTo(st, args[0], args[1]), true
	case "delete":
		ex.product(st, args, func(g *Term, vs []Value) {
			m, ok := vs[0].(MapV)
			if !ok {
				panic(unsupported("delete from opaque map"))
			}
			if m.obj != 0 {
				ex.mapDelete1(st, m.obj, g, vs[1])
			}
		})
		return nil, true
	case "clear":
		for _, a := range ex.feasibleAlts(st, args[0]) {
			switch x := a.v.(type) {
			case MapV:
				if x.obj != 0 {
					m := ex.mapWritable(st, x.obj)
					for i := range m.ents {
						m.ents[i].pres = ex.tt.And(m.ents[i].pres, ex.tt.Not(a.g))
					}
				}
			case Slice:
				et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := int32(0); i < x.n; i++ {
					ex.storeG(st, a.g, Ptr{x.obj, ex.subPath(x.path, x.off+i)}, ex.zero(et))
				}
			default:
				panic(unsupported("clear"))
			}
		}
		return nil, true
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		for _, y := range args[1:] {
			r = ex.liftN(st, []Value{r, y}, func(vs []Value) Value {
				x, ok := vs[0].(*Term)
				if !ok {
					s1, s2 := vs[0].(Str), vs[1].(Str)
					if (s1 < s2) == (b.Name() == "min") {
						return s1
					}
					return s2
				}
				_, signed, _ := bitsOf(t)
				y := vs[1].(*Term)
				l := ex.less(signed, x, y)
				if b.Name() == "min" {
					return ex.tt.Ite(l, x, y)
				}
				return ex.tt.Ite(l, y, x)
			})
		}
		return r, true
	case "print", "println":
		return nil, true
	case "recover":
		return nilIface, true
	case "ssa:wrapnilchk":
		for _, a := range ex.alternatives(args[0]) {
			if p, ok := a.v.(Ptr); ok && p.obj == 0 {
				ex.failIf(st, a.g, "nil pointer dereference")
			}
		}
		return args[0], true
	case "String": // unsafe.String
		return ex.liftN(st, args, func(vs []Value) Value {
			p := vs[0].(Ptr)
			n, ok := vs[1].(*Term)
			if !ok || !n.isConst() {
				panic(unsupported("unsafe.String with symbolic length"))
			}
			if n.val == 0 {
				return Str("")
			}
			if p.path == nil {
				panic(unsupported("unsafe.String pointer"))
			}
			return ex.bytesToStr(st, Slice{p.obj, p.path.parent, p.path.idx, int32(n.val), int32(n.val)})
		}), true
	case "StringData":
		v := ex.strToBytes(st, args[0])
		return ex.lift(v, func(v Value) Value {
			s := v.(Slice)
			if s.n == 0 {
				return nilPtr
			}
			return Ptr{s.obj, ex.subPath(s.path, s.off)}
		}), true
	case "SliceData":
		return ex.lift(args[0], func(v Value) Value {
			s := v.(Slice)
			if s.obj == 0 {
				return nilPtr
			}
			if s.c == 0 {
				return Ptr{s.obj, s.path}
			}
			return Ptr{s.obj, ex.subPath(s.path, s.off)}
		}), true
	case "Slice": // unsafe.Slice
		return ex.liftN(st, args, func(vs []Value) Value {
			p, ok := vs[0].(Ptr)
			n, ok2 := vs[1].(*Term)
			if !ok || !ok2 || !n.isConst() {
				panic(unsupported("unsafe.Slice"))
			}
			if p.obj == 0 {
				return Slice{}
			}
			if p.path == nil {
				panic(unsupported("unsafe.Slice pointer"))
			}
			return Slice{p.obj, p.path.parent, p.path.idx, int32(n.val), int32(n.val)}
		}), true
	case "close":
		return nil, true
	}
	panic(unsupported("builtin " + b.Name()))
}

func (ex *Exec) lenOf(st *State, t types.Type, v Value) Value {
	return ex.lift(v, func(v Value) Value {
		switch v := v.(type) {
		case Slice:
			return ex.intv(int64(v.n))
		case *Agg:
			return ex.intv(int64(len(v.e)))
		case *PVec:
			return ex.intv(int64(v.n))
		case Str, *SymStr:
			return ex.intv(int64(strLen(v)))
		case MapV:
			if v.obj == 0 {
				return ex.intv(0)
			}
			m, ok := st.heap.get(v.obj).(*MapObj)
			if !ok {
				return nil
			}
			return ex.mapLen(m)
		case Ptr:
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return ex.intv(p.Elem().Underlying().(*types.Array).Len())
			}
		case *Opaque:
			panic(unsupported("len of opaque " + v.why))
		}
		panic(unsupported(fmt.Sprintf("len of %T", v)))
	})
}

// mapLen returns the number of present entries, as a union of constants with
// at most n+1 alternatives.
func (ex *Exec) mapLen(m *MapObj) Value {
	base := 0
	counts := []*Term{ex.tt.True}
	for _, e := range m.ents {
		if e.pres.isTrue() {
			base++
			continue
		}
		if e.pres.isFalse() {
			continue
		}
		next := make([]*Term, len(counts)+1)
		for i := range next {
			var a, b *Term = ex.tt.False, ex.tt.False
			if i < len(counts) {
				a = ex.tt.And(counts[i], ex.tt.Not(e.pres))
			}
			if i > 0 {
				b = ex.tt.And(counts[i-1], e.pres)
			}
			next[i] = ex.tt.Or(a, b)
		}
		counts = next
	}
	var alts []Alt
	for i, c := range counts {
		if !c.isFalse() {
			alts = append(alts, Alt{c, ex.intv(int64(base + i))})
		}
	}
	return ex.mergeAlts(alts)
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var gcSizes = types.SizesFor("gc", "amd64")

func growCap(oldCap, newLen int64, et types.Type) int64 {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	es := gcSizes.Sizeof(et)
	if es == 0 {
		return newLen
	}
	mem := nc * es
	if mem <= 32768 {
		for _, s := range sizeClasses {
			if s >= mem {
				mem = s
				break
			}
		}
	} else {
		mem = (mem + 8191) / 8192 * 8192
	}
	return mem / es
}

func (ex *Exec) appendTo(st *State, et types.Type, s, t Value) Value {
	type alt struct {
		g    *Term
		s    Slice
		vals []Value
		old  []Value
	}
	var as []alt
	ex.product(st, []Value{s, t}, func(g *Term, vs []Value) {
		x, ok := vs[0].(Slice)
		if !ok {
			panic(unsupported(fmt.Sprintf("append to %T", vs[0])))
		}
		a := alt{g: g, s: x}
		switch y := vs[1].(type) {
		case Slice:
			if y.obj != 0 && st.heap.get(y.obj) == nil {
				return
			}
			a.vals = ex.sliceElems(st, y)
		case Str, *SymStr:
			for _, b := range ex.strBytes(y) {
				a.vals = append(a.vals, b)
			}
		default:
			panic(unsupported(fmt.Sprintf("append of %T", vs[1])))
		}
		if x.obj != 0 && st.heap.get(x.obj) == nil {
			return
		}
		if x.n+int32(len(a.vals)) > x.c {
			a.old = ex.sliceElems(st, x)
		}
		as = append(as, a)
	})
	var alts []Alt
	type nk struct{ n, c int32 }
	fresh := map[nk][]int{}
	var order []nk
	for i, a := range as {
		n := a.s.n + int32(len(a.vals))
		if len(a.vals) == 0 {
			alts = append(alts, Alt{a.g, a.s})
			continue
		}
		if n <= a.s.c {
			if a.g.isTrue() {
				ex.arrWrite(st, a.s.obj, a.s.path, a.s.off+a.s.n, a.vals)
			} else {
				for k, v := range a.vals {
					ex.storeG(st, a.g, Ptr{a.s.obj, ex.subPath(a.s.path, a.s.off+a.s.n+int32(k))}, v)
				}
			}
			r := a.s
			r.n = n
			alts = append(alts, Alt{a.g, r})
			continue
		}
		c := int32(growCap(int64(a.s.c), int64(n), et))
		k := nk{n, c}
		if fresh[k] == nil {
			order = append(order, k)
		}
		fresh[k] = append(fresh[k], i)
	}
	for _, k := range order {
		idx := fresh[k]
		vs := make([]Value, k.n)
		var gs []Alt
		for p := range vs {
			col := make([]Alt, 0, len(idx))
			for _, i := range idx {
				a := as[i]
				var v Value
				if p < len(a.old) {
					v = a.old[p]
				} else {
					v = a.vals[p-len(a.old)]
				}
				col = append(col, Alt{a.g, v})
			}
			vs[p] = ex.mergeAlts(col)
		}
		for _, i := range idx {
			gs = append(gs, Alt{as[i].g, nil})
		}
		arr := ex.newArray(et, k.c)
		switch x := arr.(type) {
		case *Agg:
			na := &Agg{e: append([]Value(nil), x.e...)}
			copy(na.e, vs)
			arr = na
		case *PVec:
			arr = x.setRange(0, vs)
		}
		alts = append(alts, Alt{ex.orAlts(gs), Slice{obj: ex.alloc(st, arr), n: k.n, c: k.c}})
	}
	if len(alts) == 0 {
		panic(deadPath{})
	}
	return ex.mergeAlts(alts)
}

func (ex *Exec) copyTo(st *State, d, s Value) Value {
	type alt struct {
		g    *Term
		d    Slice
		vals []Value
	}
	var as []alt
	if u, ok := s.(*Union); ok {
		if _, ok := u.alts[0].v.(Slice); !ok {
			// keep bytes of symbolic strings lazy
			s = ex.strToBytes(st, s)
		}
	}
	ex.product(st, []Value{d, s}, func(g *Term, vs []Value) {
		x, ok := vs[0].(Slice)
		if !ok {
			panic(unsupported("copy to opaque"))
		}
		var el []Value
		switch y := vs[1].(type) {
		case Slice:
			el = ex.sliceElems(st, y)
		case Str, *SymStr:
			for _, b := range ex.strBytes(y) {
				el = append(el, b)
			}
		default:
			panic(unsupported("copy from opaque"))
		}
		if len(el) > int(x.n) {
			el = el[:x.n]
		}
		as = append(as, alt{g, x, el})
	})
	var alts []Alt
	for _, a := range as {
		if a.g.isTrue() {
			ex.arrWrite(st, a.d.obj, a.d.path, a.d.off, a.vals)
		} else {
			for k, v := range a.vals {
				ex.storeG(st, a.g, Ptr{a.d.obj, ex.subPath(a.d.path, a.d.off+int32(k))}, v)
			}
		}
		alts = append(alts, Alt{a.g, ex.intv(int64(len(a.vals)))})
	}
	if len(alts) == 0 {
		panic(deadPath{})
	}
	return ex.mergeAlts(alts)
}
