package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) intv(i int64) *Term { return ex.bv(64, uint64(i)) }
func (ex *Exec) bv(w uint8, v uint64) *Term {
	var k int
	switch w {
	case 64:
		k = 0
	case 8:
		k = 1
	case 32:
		k = 2
	default:
		return ex.tt.BV(w, v)
	}
	if v < 1024 {
		if ex.smallBV[k] == nil {
			ex.smallBV[k] = make([]*Term, 1024)
		}
		if t := ex.smallBV[k][v]; t != nil {
			return t
		}
		t := ex.tt.BV(w, v)
		ex.smallBV[k][v] = t
		return t
	}
	return ex.tt.BV(w, v)
}

func (ex *Exec) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c := ex.typeCan.At(t); c != nil {
		return c.(types.Type)
	}
	u := types.Unalias(t)
	if u != t {
		if c := ex.typeCan.At(u); c != nil {
			return c.(types.Type)
		}
	}
	ex.typeCan.Set(t, u)
	return u
}

func (ex *Exec) typeID(t types.Type) int {
	if id := ex.typeIDs.At(t); id != nil {
		return id.(int)
	}
	ex.typeSeq++
	ex.typeIDs.Set(t, ex.typeSeq)
	return ex.typeSeq
}

func bitsOf(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func (ex *Exec) zero(t types.Type) Value {
	if z := ex.zeros.At(t); z != nil {
		return z.(Value)
	}
	z := ex.zero0(t)
	ex.zeros.Set(t, z)
	return z
}

func (ex *Exec) zero0(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := bitsOf(u); ok {
			return ex.bv(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ex.tt.False
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return Float(0)
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		}
		return &Opaque{"zero of " + t.String()}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapV{}
	case *types.Signature:
		return nilFunc
	case *types.Interface:
		return nilIface
	case *types.Struct:
		a := &Agg{e: make([]Value, u.NumFields())}
		for i := range a.e {
			a.e[i] = ex.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		return ex.newArray(u.Elem(), int32(u.Len()))
	case *types.Tuple:
		a := &Agg{e: make([]Value, u.Len())}
		for i := range a.e {
			a.e[i] = ex.zero(u.At(i).Type())
		}
		return a
	case *types.Chan:
		return nilPtr
	}
	return &Opaque{"zero of " + t.String()}
}

func (ex *Exec) newArray(elem types.Type, n int32) Value {
	z := ex.zero(elem)
	if n > 24 {
		return newPVec(n, z)
	}
	a := &Agg{e: make([]Value, n)}
	for i := range a.e {
		a.e[i] = z
	}
	return a
}

func (ex *Exec) alloc(st *State, v Value) int32 {
	ex.nextObj++
	if ex.nextObj >= 1<<(hBits*hLevels) {
		panic(budgetErr{"too many heap objects"})
	}
	st.heap.set(ex.nextObj, v)
	return ex.nextObj
}

func (ex *Exec) subPath(p *Path, i int32) *Path {
	pid := int32(0)
	d := int32(0)
	if p != nil {
		pid = p.id
		d = p.depth
	}
	k := [2]int32{pid, i}
	if q, ok := ex.paths[k]; ok {
		return q
	}
	ex.pathSeq++
	q := &Path{parent: p, idx: i, id: ex.pathSeq, depth: d + 1}
	ex.paths[k] = q
	return q
}

func readPath(v Value, p *Path) Value {
	if p == nil {
		return v
	}
	return elemGet(readPath(v, p.parent), p.idx)
}

func writePath(v Value, p *Path, x Value) Value {
	if p == nil {
		return x
	}
	// collect indices
	var idx [16]int32
	n := 0
	for q := p; q != nil; q = q.parent {
		if n >= len(idx) {
			panic(unsupported("deep path"))
		}
		idx[n] = q.idx
		n++
	}
	var rec func(v Value, k int) Value
	rec = func(v Value, k int) Value {
		if k < 0 {
			return x
		}
		return elemSet(v, idx[k], rec(elemGet(v, idx[k]), k-1))
	}
	return rec(v, n-1)
}

func (ex *Exec) load1(st *State, p Ptr) Value {
	o := st.heap.get(p.obj)
	if o == nil {
		panic(deadPath{})
	}
	return readPath(o, p.path)
}

func (ex *Exec) load(st *State, v Value) Value {
	switch p := v.(type) {
	case Ptr:
		if p.obj == 0 {
			ex.failIf(st, ex.tt.True, "nil pointer dereference")
		}
		return ex.load1(st, p)
	case *Union:
		var alts []Alt
		for _, a := range p.alts {
			q, ok := a.v.(Ptr)
			if !ok {
				panic(unsupported(fmt.Sprintf("load through %T", a.v)))
			}
			if q.obj == 0 {
				ex.failIf(st, a.g, "nil pointer dereference")
				continue
			}
			if st.heap.get(q.obj) == nil {
				continue
			}
			alts = append(alts, Alt{a.g, ex.load1(st, q)})
		}
		if len(alts) == 0 {
			panic(deadPath{})
		}
		return ex.mergeAlts(alts)
	case *Opaque:
		return p
	}
	panic(unsupported(fmt.Sprintf("load through %T", v)))
}

func (ex *Exec) store(st *State, v Value, x Value) {
	switch p := v.(type) {
	case Ptr:
		if p.obj == 0 {
			ex.failIf(st, ex.tt.True, "nil pointer dereference")
		}
		ex.storeG(st, ex.tt.True, p, x)
		return
	case *Union:
		for _, a := range p.alts {
			q, ok := a.v.(Ptr)
			if !ok {
				panic(unsupported(fmt.Sprintf("store through %T", a.v)))
			}
			if q.obj == 0 {
				ex.failIf(st, a.g, "nil pointer dereference")
				continue
			}
			if st.heap.get(q.obj) == nil {
				continue
			}
			ex.storeG(st, a.g, q, x)
		}
		return
	case *Opaque:
		panic(unsupported("store through opaque pointer " + p.why))
	}
	panic(unsupported(fmt.Sprintf("store through %T", v)))
}

func (ex *Exec) storeG(st *State, g *Term, p Ptr, x Value) {
	o := st.heap.get(p.obj)
	if o == nil {
		panic(deadPath{})
	}
	if !g.isTrue() {
		old := readPath(o, p.path)
		x = ex.mergeAlts([]Alt{{g, x}, {ex.tt.Not(g), old}})
	}
	st.heap.set(p.obj, writePath(o, p.path, x))
}

// ---- operand access ----

func (a *activation) get(fs *fstate, v ssa.Value) Value {
	if r, ok := a.in.regs[v]; ok {
		x := fs.regs[r]
		if x == nil {
			panic(fmt.Sprintf("undefined register %s in %s", v.Name(), a.in.name))
		}
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		return a.ex.constant(v)
	case *ssa.Global:
		return a.ex.global(fs.State, v)
	case *ssa.Function:
		return a.ex.fnValue(v)
	case *ssa.Builtin:
		return BuiltinV{v}
	}
	panic(unsupported(fmt.Sprintf("operand %T", v)))
}

func (ex *Exec) fnValue(f *ssa.Function) *Closure {
	c, ok := ex.fnValues[f]
	if !ok {
		c = &Closure{fn: f}
		ex.fnValues[f] = c
	}
	return c
}

func (ex *Exec) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return ex.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsupported("type param const " + tp.String()))
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("const type " + t.String()))
	}
	if w, signed, ok := bitsOf(b); ok {
		if signed {
			return ex.bv(w, uint64(c.Int64())&mask(w))
		}
		return ex.bv(w, c.Uint64()&mask(w))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return ex.tt.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return Str(constant.StringVal(c.Value))
		}
		return Str(string(rune(c.Int64())))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return Float(f)
	}
	return &Opaque{"const " + c.String()}
}

func (ex *Exec) global(st *State, g *ssa.Global) Value {
	id, ok := ex.globals[g]
	if !ok {
		ex.nextObj++
		id = ex.nextObj
		ex.globals[g] = id
	}
	if st.heap.get(id) == nil {
		el := g.Type().(*types.Pointer).Elem()
		if !ex.initDone[g.Pkg] && !initDenied(g.Pkg.Pkg.Path()) && g.Name() != "init$guard" {
			panic(needInit{g.Pkg})
		}
		if initDenied(g.Pkg.Pkg.Path()) {
			if v, ok := specialGlobal(ex, st, g); ok {
				st.heap.set(id, v)
			} else {
				st.heap.set(id, &Opaque{"global " + g.String()})
			}
		} else {
			if e, ok := ex.ld.embeds[g.String()]; ok {
				st.heap.set(id, Str(e))
			} else {
				st.heap.set(id, ex.zero(el))
			}
		}
	}
	return Ptr{obj: id}
}

func (a *activation) boolOf(fs *fstate, v Value) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	if o, ok := v.(*Opaque); ok {
		panic(unsupported("branch on opaque " + o.why))
	}
	panic(unsupported(fmt.Sprintf("branch on %T", v)))
}

// ---- equality and ordering ----

func (ex *Exec) eq(st *State, a, b Value) *Term {
	if sameValue(a, b) {
		if _, ok := a.(Float); !ok {
			return ex.tt.True
		}
	}
	if x, ok := a.(StrByte); ok {
		return ex.eq(st, ex.expandByte(x), b)
	}
	if x, ok := b.(StrByte); ok {
		return ex.eq(st, a, ex.expandByte(x))
	}
	ua, oka := a.(*Union)
	ub, okb := b.(*Union)
	switch {
	case oka && okb:
		var ts []*Term
		for _, x := range ua.alts {
			for _, y := range ub.alts {
				e := ex.eq(st, x.v, y.v)
				if e.isFalse() {
					continue
				}
				ts = append(ts, ex.tt.And(x.g, y.g, e))
			}
		}
		return ex.orTerms(ts)
	case oka:
		var ts []*Term
		for _, x := range ua.alts {
			e := ex.eq(st, x.v, b)
			if !e.isFalse() {
				ts = append(ts, ex.tt.And(x.g, e))
			}
		}
		return ex.orTerms(ts)
	case okb:
		return ex.eq(st, b, a)
	}
	switch x := a.(type) {
	case *Term:
		return ex.tt.Eq(x, b.(*Term))
	case Str:
		switch y := b.(type) {
		case Str:
			return ex.tt.Bool(x == y)
		case *SymStr:
			return ex.symEq(y, x)
		}
	case *SymStr:
		switch y := b.(type) {
		case Str:
			return ex.symEq(x, y)
		case *SymStr:
			if len(x.b) != len(y.b) {
				return ex.tt.False
			}
			r := ex.tt.True
			for i := range x.b {
				r = ex.tt.And(r, ex.tt.Eq(x.b[i], y.b[i]))
			}
			return r
		}
	case Float:
		return ex.tt.Bool(x == b.(Float))
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return ex.tt.Bool(x == y)
		}
	case MapV:
		return ex.tt.Bool(x == b.(MapV))
	case Slice:
		y := b.(Slice)
		if x.obj == 0 || y.obj == 0 {
			return ex.tt.Bool(x.obj == y.obj)
		}
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return ex.tt.Bool(x == nil && y == nil)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return ex.tt.Bool(x.t == nil && y.t == nil)
		}
		if x.t != y.t {
			return ex.tt.False
		}
		return ex.eq(st, x.v, y.v)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok {
			break
		}
		r := ex.tt.True
		for i := range x.e {
			r = ex.tt.And(r, ex.eq(st, x.e[i], y.e[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *PVec:
		y, ok := b.(*PVec)
		if !ok {
			break
		}
		r := ex.tt.True
		for i := int32(0); i < x.n; i++ {
			r = ex.tt.And(r, ex.eq(st, x.get(i), y.get(i)))
		}
		return r
	}
	if o, ok := a.(*Opaque); ok {
		panic(unsupported("compare opaque " + o.why))
	}
	if o, ok := b.(*Opaque); ok {
		panic(unsupported("compare opaque " + o.why))
	}
	panic(unsupported(fmt.Sprintf("compare %T with %T", a, b)))
}

func (ex *Exec) symEq(x *SymStr, y Str) *Term {
	if len(x.b) != len(y) {
		return ex.tt.False
	}
	r := ex.tt.True
	for i := range x.b {
		r = ex.tt.And(r, ex.tt.Eq(x.b[i], ex.bv(8, uint64(y[i]))))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (ex *Exec) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case Str:
		out := make([]*Term, len(s))
		for i := range out {
			out[i] = ex.bv(8, uint64(s[i]))
		}
		return out
	case *SymStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("string bytes of %T", v)))
}

// mkStr builds a string from byte terms, concrete when possible.
func (ex *Exec) mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b: append([]*Term(nil), b...)}
		}
	}
	s := make([]byte, len(b))
	for i, t := range b {
		s[i] = byte(t.val)
	}
	return Str(s)
}

func (ex *Exec) strLess(a, b Value) *Term {
	if x, ok := a.(Str); ok {
		if y, ok := b.(Str); ok {
			return ex.tt.Bool(x < y)
		}
	}
	x, y := ex.strBytes(a), ex.strBytes(b)
	// lexicographic from the end
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := ex.tt.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = ex.tt.Or(ex.tt.Ult(x[i], y[i]), ex.tt.And(ex.tt.Eq(x[i], y[i]), r))
	}
	return r
}

func strLen(v Value) int {
	switch s := v.(type) {
	case Str:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *Opaque:
		panic(unsupported("len of opaque " + s.why))
	}
	panic(unsupported(fmt.Sprintf("string length of %T", v)))
}

func (ex *Exec) subStr(v Value, i, j int) Value {
	switch s := v.(type) {
	case Str:
		return s[i:j]
	case *SymStr:
		return ex.mkStr(s.b[i:j])
	}
	panic(unsupported(fmt.Sprintf("substring of %T", v)))
}

func (ex *Exec) concat(st *State, a, b Value) Value {
	if s, ok := a.(Str); ok && s == "" {
		return b
	}
	if s, ok := b.(Str); ok && s == "" {
		return a
	}
	if o, ok := a.(*Opaque); ok {
		return o
	}
	if o, ok := b.(*Opaque); ok {
		return o
	}
	if len(ex.alternatives(a))*len(ex.alternatives(b)) > 40*maxStrAlts {
		return &Opaque{"string with too many alternatives"}
	}
	return ex.liftN(st, []Value{a, b}, func(vs []Value) Value {
		for _, v := range vs {
			if o, ok := v.(*Opaque); ok {
				return o
			}
		}
		x, ok1 := vs[0].(Str)
		y, ok2 := vs[1].(Str)
		if ok1 && ok2 {
			return x + y
		}
		return ex.mkStr(append(append([]*Term(nil), ex.strBytes(vs[0])...), ex.strBytes(vs[1])...))
	})
}

// nextRune returns the (ok, index, rune) tuple at pos and the next position.
func (ex *Exec) nextRune(s Value, pos int) (Value, Value) {
	n := strLen(s)
	if pos >= n {
		return &Agg{e: []Value{ex.tt.False, ex.intv(0), ex.bv(32, 0)}}, ex.intv(int64(pos))
	}
	switch s := s.(type) {
	case Str:
		r, w := utf8.DecodeRuneInString(string(s[pos:]))
		return &Agg{e: []Value{ex.tt.True, ex.intv(int64(pos)), ex.bv(32, uint64(uint32(r)))}}, ex.intv(int64(pos + w))
	case *SymStr:
		b := s.b[pos]
		if b.isConst() && b.val >= 0x80 {
			panic(unsupported("multi-byte rune in symbolic string"))
		}
		// symbolic bytes are assumed ASCII by construction (see Byte inputs)
		return &Agg{e: []Value{ex.tt.True, ex.intv(int64(pos)), ex.tt.Ext(b, 32, false)}}, ex.intv(int64(pos + 1))
	}
	panic(unsupported("range over string"))
}

// ---- instructions ----

func (a *activation) set(fs *fstate, v ssa.Value, x Value) {
	if x == nil {
		// calls without results
		x = &Agg{}
	}
	fs.regs[a.in.regs[v]] = x
}

func (a *activation) step(fs *fstate, ins ssa.Instruction) {
	ex := a.ex
	st := fs.State
	switch x := ins.(type) {
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		a.set(fs, x, Ptr{obj: ex.alloc(st, ex.zero(el))})
	case *ssa.BinOp:
		a.set(fs, x, ex.binop(st, x.Op, x.X.Type(), x.Y.Type(), a.get(fs, x.X), a.get(fs, x.Y)))
	case *ssa.UnOp:
		v := a.get(fs, x.X)
		switch x.Op {
		case token.MUL:
			a.set(fs, x, ex.load(st, v))
		case token.NOT:
			t, ok := v.(*Term)
			if !ok {
				panic(unsupported("not of opaque"))
			}
			a.set(fs, x, ex.tt.Not(t))
		case token.SUB:
			a.set(fs, x, ex.lift(v, func(v Value) Value {
				switch t := v.(type) {
				case *Term:
					return ex.tt.Bin(opSub, ex.tt.BV(t.w, 0), t)
				case Float:
					return -t
				}
				panic(unsupported("neg"))
			}))
		case token.XOR:
			a.set(fs, x, ex.lift(v, func(v Value) Value {
				t := v.(*Term)
				return ex.tt.Bin(opBxor, t, ex.tt.BV(t.w, mask(t.w)))
			}))
		default:
			panic(unsupported("unop " + x.Op.String()))
		}
	case *ssa.Call:
		v, ok := a.call(fs, &x.Call)
		if !ok {
			panic(deadPath{})
		}
		a.set(fs, x, v)
	case *ssa.ChangeInterface:
		a.set(fs, x, a.get(fs, x.X))
	case *ssa.ChangeType:
		a.set(fs, x, a.get(fs, x.X))
	case *ssa.Convert:
		a.set(fs, x, ex.convert(st, x.X.Type(), x.Type(), a.get(fs, x.X)))
	case *ssa.MultiConvert:
		a.set(fs, x, ex.convert(st, x.X.Type(), x.Type(), a.get(fs, x.X)))
	case *ssa.Defer:
		rec := deferRec{g: ex.tt.True, call: &x.Call}
		rec.fn, rec.args = a.prepCall(fs, &x.Call)
		n := 1
		if fs.defers != nil {
			n = fs.defers.n + 1
		}
		fs.defers = &deferList{prev: fs.defers, rec: rec, n: n}
	case *ssa.RunDefers:
		for d := fs.defers; d != nil; d = d.prev {
			a.runDefer(fs, d.rec)
		}
		fs.defers = nil
	case *ssa.Extract:
		t := a.get(fs, x.Tuple)
		if o, ok := t.(*Opaque); ok {
			a.set(fs, x, o)
			return
		}
		a.set(fs, x, ex.lift(t, func(v Value) Value { return elemGet(v, int32(x.Index)) }))
	case *ssa.Field:
		a.set(fs, x, ex.lift(a.get(fs, x.X), func(v Value) Value { return elemGet(v, int32(x.Field)) }))
	case *ssa.FieldAddr:
		a.set(fs, x, a.addrOf(fs, a.get(fs, x.X), int32(x.Field)))
	case *ssa.Index:
		a.set(fs, x, ex.index(st, a.get(fs, x.X), a.get(fs, x.Index), x.Index.Type()))
	case *ssa.IndexAddr:
		a.set(fs, x, ex.indexAddr(st, x.X.Type(), a.get(fs, x.X), a.get(fs, x.Index), x.Index.Type()))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			a.set(fs, x, ex.index(st, a.get(fs, x.X), a.get(fs, x.Index), x.Index.Type()))
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		v, p := ex.mapLookup(st, a.get(fs, x.X), a.get(fs, x.Index), ex.zero(mt.Elem()))
		if x.CommaOk {
			a.set(fs, x, &Agg{e: []Value{v, p}})
		} else {
			a.set(fs, x, v)
		}
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, a.get(fs, b))
		}
		a.set(fs, x, c)
	case *ssa.MakeInterface:
		v := a.get(fs, x.X)
		t := ex.canon(x.X.Type())
		a.set(fs, x, ex.mkIface(t, v))
	case *ssa.MakeMap:
		a.set(fs, x, MapV{obj: ex.alloc(st, newMapObj(st.heap.owner))})
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		ln, cp := a.get(fs, x.Len), a.get(fs, x.Cap)
		v := ex.liftN(st, []Value{ln, cp}, func(vs []Value) Value {
			l, c := vs[0].(*Term), vs[1].(*Term)
			if !l.isConst() || !c.isConst() {
				panic(unsupported("make with symbolic length"))
			}
			n := int32(sext64(l.val, l.w))
			m := int32(sext64(c.val, c.w))
			if n < 0 || m < n || m > 1<<22 {
				panic(unsupported("make with bad length"))
			}
			return Slice{obj: ex.alloc(st, ex.newArray(el, m)), n: n, c: m}
		})
		a.set(fs, x, v)
	case *ssa.MapUpdate:
		ex.mapUpdate(st, a.get(fs, x.Map), a.get(fs, x.Key), a.get(fs, x.Value))
	case *ssa.Range:
		a.set(fs, x, ex.makeRange(st, a.get(fs, x.X)))
	case *ssa.Slice:
		get := func(v ssa.Value) Value {
			if v == nil {
				return nil
			}
			return a.get(fs, v)
		}
		a.set(fs, x, ex.slice(st, x.X.Type(), a.get(fs, x.X), get(x.Low), get(x.High), get(x.Max)))
	case *ssa.SliceToArrayPointer:
		n := int32(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		a.set(fs, x, ex.lift(a.get(fs, x.X), func(v Value) Value {
			s := v.(Slice)
			if s.n < n {
				panic(unsupported("slice to array pointer"))
			}
			if s.off != 0 {
				panic(unsupported("slice to array pointer with offset"))
			}
			return Ptr{s.obj, s.path}
		}))
	case *ssa.Store:
		ex.store(st, a.get(fs, x.Addr), a.get(fs, x.Val))
	case *ssa.TypeAssert:
		a.set(fs, x, ex.typeAssert(st, x, a.get(fs, x.X)))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
}

func (ex *Exec) mkIface(t types.Type, v Value) Value {
	if u, ok := v.(*Union); ok {
		alts := make([]Alt, len(u.alts))
		for i, a := range u.alts {
			alts[i] = Alt{a.g, Iface{t, a.v}}
		}
		return &Union{alts}
	}
	if b, ok := v.(StrByte); ok {
		return ex.mkIface(t, ex.expandByte(b))
	}
	return Iface{t, v}
}

func (a *activation) addrOf(fs *fstate, v Value, field int32) Value {
	ex := a.ex
	if p, ok := v.(Ptr); ok {
		if p.obj == 0 {
			ex.failIf(fs.State, ex.tt.True, "nil pointer dereference")
		}
		return Ptr{p.obj, ex.subPath(p.path, field)}
	}
	if o, ok := v.(*Opaque); ok {
		return o
	}
	u, ok := v.(*Union)
	if !ok {
		panic(unsupported(fmt.Sprintf("field address of %T", v)))
	}
	var alts []Alt
	for _, al := range u.alts {
		p, ok := al.v.(Ptr)
		if !ok {
			panic(unsupported(fmt.Sprintf("field address of %T", al.v)))
		}
		if p.obj == 0 {
			ex.failIf(fs.State, al.g, "nil pointer dereference")
			continue
		}
		alts = append(alts, Alt{al.g, Ptr{p.obj, ex.subPath(p.path, field)}})
	}
	if len(alts) == 0 {
		panic(deadPath{})
	}
	if len(alts) == 1 {
		return alts[0].v
	}
	return &Union{alts}
}

// idx64 widens an index to a 64-bit term.
func (ex *Exec) idx64(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	_, signed, _ := bitsOf(typ)
	return ex.tt.Ext(t, 64, signed)
}

// forIndex enumerates the possible concrete indices below n, failing on the rest.
func (ex *Exec) forIndex(st *State, i Value, typ types.Type, n func(c Value) int, cont Value, f func(cont Value, i int) Value) Value {
	v := ex.liftBounds(st, cont, i, typ, n, f)
	return v
}

func (ex *Exec) liftBounds(st *State, cont, i Value, typ types.Type, n func(Value) int, f func(Value, int) Value) Value {
	var alts []Alt
	ex.product(st, []Value{cont, i}, func(g *Term, vs []Value) {
		if o, ok := vs[0].(*Opaque); ok {
			panic(unsupported("index opaque " + o.why))
		}
		ln := n(vs[0])
		t, ok := vs[1].(*Term)
		if !ok {
			panic(unsupported("index by opaque"))
		}
		t = ex.idx64(t, typ)
		if t.isConst() {
			k := int64(t.val)
			if k < 0 || k >= int64(ln) {
				ex.failIf(st, g, "index out of range")
				return
			}
			alts = append(alts, Alt{g, f(vs[0], int(k))})
			return
		}
		if ln > 512 {
			panic(unsupported("symbolic index into a large array"))
		}
		in := ex.tt.False
		for k := 0; k < ln; k++ {
			e := ex.tt.Eq(t, ex.intv(int64(k)))
			if e.isFalse() || !ex.feasible(ex.tt.And(st.pc, g, e)) {
				continue
			}
			in = ex.tt.Or(in, e)
			alts = append(alts, Alt{ex.tt.And(g, e), f(vs[0], k)})
		}
		ex.failIf(st, ex.tt.And(g, ex.tt.Not(in)), "index out of range")
	})
	if len(alts) == 0 {
		panic(deadPath{})
	}
	return ex.mergeAlts(alts)
}

func (ex *Exec) index(st *State, c, i Value, it types.Type) Value {
	return ex.liftBounds(st, c, i, it, func(c Value) int {
		switch c := c.(type) {
		case *Agg:
			return len(c.e)
		case *PVec:
			return int(c.n)
		}
		return strLen(c)
	}, func(c Value, k int) Value {
		switch c := c.(type) {
		case *Agg:
			return c.e[k]
		case *PVec:
			return c.get(int32(k))
		case Str:
			return ex.bv(8, uint64(c[k]))
		case *SymStr:
			return c.b[k]
		}
		panic(unsupported("index"))
	})
}

func (ex *Exec) indexAddr(st *State, ct types.Type, c, i Value, it types.Type) Value {
	if s, ok := c.(Slice); ok {
		if t, ok := i.(*Term); ok && t.isConst() {
			k := int64(ex.idx64(t, it).val)
			if k < 0 || k >= int64(s.n) {
				ex.failIf(st, ex.tt.True, "index out of range")
			}
			return Ptr{s.obj, ex.subPath(s.path, s.off+int32(k))}
		}
	}
	return ex.liftBounds(st, c, i, it, func(c Value) int {
		switch c := c.(type) {
		case Slice:
			return int(c.n)
		case Ptr:
			if c.obj == 0 {
				return 0
			}
			return int(ct.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
		panic(unsupported(fmt.Sprintf("index address of %T", c)))
	}, func(c Value, k int) Value {
		switch c := c.(type) {
		case Slice:
			return Ptr{c.obj, ex.subPath(c.path, c.off+int32(k))}
		case Ptr:
			return Ptr{c.obj, ex.subPath(c.path, int32(k))}
		}
		panic("unreachable")
	})
}

func (ex *Exec) sliceGet(st *State, s Slice, i int32) Value {
	return elemGet(readPath(st.heap.get(s.obj), s.path), s.off+i)
}

func (ex *Exec) sliceElems(st *State, s Slice) []Value {
	out := make([]Value, s.n)
	if s.n == 0 {
		return out
	}
	arr := readPath(st.heap.get(s.obj), s.path)
	for i := range out {
		out[i] = elemGet(arr, s.off+int32(i))
	}
	return out
}

// arrWrite stores vs at arr[off:], where arr is located at (obj,path).
func (ex *Exec) arrWrite(st *State, obj int32, path *Path, off int32, vs []Value) {
	if len(vs) == 0 {
		return
	}
	o := st.heap.get(obj)
	arr := readPath(o, path)
	switch x := arr.(type) {
	case *Agg:
		n := &Agg{e: append([]Value(nil), x.e...)}
		copy(n.e[off:], vs)
		arr = n
	case *PVec:
		arr = x.setRange(off, vs)
	default:
		panic(unsupported(fmt.Sprintf("array write to %T", arr)))
	}
	st.heap.set(obj, writePath(o, path, arr))
}

func (ex *Exec) slice(st *State, xt types.Type, x, lo, hi, max Value) Value {
	vs := []Value{x}
	idx := [3]int{-1, -1, -1}
	for i, v := range []Value{lo, hi, max} {
		if v != nil {
			idx[i] = len(vs)
			vs = append(vs, v)
		}
	}
	var alts []Alt
	ex.product(st, vs, func(g *Term, c []Value) {
		b := c[0]
		var ln, cp int64
		switch s := b.(type) {
		case Slice:
			ln, cp = int64(s.n), int64(s.c)
		case Ptr:
			if s.obj == 0 {
				ex.failIf(st, g, "nil pointer dereference")
				return
			}
			ln = xt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			cp = ln
		default:
			ln = int64(strLen(b))
			cp = ln
		}
		arg := [3]int64{0, ln, cp}
		var sym [3]*Term
		for i := range arg {
			if idx[i] >= 0 {
				t, ok := c[idx[i]].(*Term)
				if !ok {
					panic(unsupported("slice by opaque"))
				}
				if t.isConst() {
					arg[i] = sext64(t.val, t.w)
				} else {
					sym[i] = t
				}
			}
		}
		var rec func(i int, g *Term)
		rec = func(i int, g *Term) {
			if i == 3 {
				l, h, m := arg[0], arg[1], arg[2]
				if l < 0 || h < l || m < h || m > cp {
					ex.failIf(st, g, "slice bounds out of range")
					return
				}
				var r Value
				switch s := b.(type) {
				case Slice:
					if s.obj == 0 {
						r = Slice{}
					} else {
						r = Slice{s.obj, s.path, s.off + int32(l), int32(h - l), int32(m - l)}
					}
				case Ptr:
					r = Slice{s.obj, s.path, int32(l), int32(h - l), int32(m - l)}
				default:
					r = ex.subStr(b, int(l), int(h))
				}
				alts = append(alts, Alt{g, r})
				return
			}
			if sym[i] == nil {
				rec(i+1, g)
				return
			}
			in := ex.tt.False
			for k := int64(0); k <= cp; k++ {
				e := ex.tt.Eq(sym[i], ex.tt.BV(sym[i].w, uint64(k)))
				if e.isFalse() || !ex.feasible(ex.tt.And(st.pc, g, e)) {
					continue
				}
				in = ex.tt.Or(in, e)
				arg[i] = k
				rec(i+1, ex.tt.And(g, e))
			}
			ex.failIf(st, ex.tt.And(g, ex.tt.Not(in)), "slice bounds out of range")
		}
		rec(0, g)
	})
	if len(alts) == 0 {
		panic(deadPath{})
	}
	return ex.mergeAlts(alts)
}

func (ex *Exec) mapLookup(st *State, m, k, zero Value) (Value, *Term) {
	var va []Alt
	var ps []*Term
	any := false
	ex.product(st, []Value{m, k}, func(g *Term, vs []Value) {
		any = true
		if o, ok := vs[0].(*Opaque); ok {
			panic(unsupported("lookup in opaque map " + o.why))
		}
		mv := vs[0].(MapV)
		if mv.obj == 0 {
			va = append(va, Alt{g, zero})
			return
		}
		v, p := ex.mapGet1(st, st.heap.get(mv.obj).(*MapObj), vs[1], zero)
		va = append(va, Alt{g, v})
		ps = append(ps, ex.tt.And(g, p))
	})
	if !any {
		panic(deadPath{})
	}
	return ex.mergeAlts(va), ex.orTerms(ps)
}

func (ex *Exec) mapUpdate(st *State, m, k, v Value) {
	ex.product(st, []Value{m, k}, func(g *Term, vs []Value) {
		mv, ok := vs[0].(MapV)
		if !ok {
			panic(unsupported("update of opaque map"))
		}
		if mv.obj == 0 {
			ex.failIf(st, g, "assignment to entry in nil map")
			return
		}
		ex.mapSet1(st, mv.obj, g, vs[1], v)
	})
}

func (ex *Exec) makeRange(st *State, v Value) Value {
	switch x := v.(type) {
	case Str, *SymStr:
		return Ptr{obj: ex.alloc(st, &Agg{e: []Value{v, ex.intv(0)}})}
	case MapV:
		if ex.mapOrder != 0 && x.obj != 0 {
			return Ptr{obj: ex.alloc(st, &Agg{e: []Value{ex.reorder(st, x), ex.intv(0)}})}
		}
		return Ptr{obj: ex.alloc(st, &Agg{e: []Value{v, ex.intv(0)}})}
	case *Union:
		if _, ok := x.alts[0].v.(MapV); ok {
			var alts []Alt
			for _, a := range x.alts {
				mv := a.v.(MapV)
				if mv.obj == 0 {
					alts = append(alts, Alt{a.g, newMapObj(nil)})
					continue
				}
				if st.heap.get(mv.obj) == nil {
					continue
				}
				alts = append(alts, Alt{a.g, st.heap.get(mv.obj)})
			}
			snap := ex.mergeMaps(alts).(*MapObj)
			snap.fixed = ex.allFixed(st, x)
			mv := MapV{obj: ex.alloc(st, snap)}
			if ex.mapOrder != 0 {
				mv = ex.reorder(st, mv)
			}
			return Ptr{obj: ex.alloc(st, &Agg{e: []Value{mv, ex.intv(0)}})}
		}
		return Ptr{obj: ex.alloc(st, &Agg{e: []Value{v, ex.intv(0)}})}
	}
	panic(unsupported(fmt.Sprintf("range over %T", v)))
}

// reorder returns a snapshot of the map with the entries in another order:
// reversed (mode 1) or any order, symbolically (mode 2).
func (ex *Exec) reorder(st *State, mv MapV) MapV {
	m := st.heap.get(mv.obj).(*MapObj)
	if m.fixed {
		return mv
	}
	var ents []MapEnt
	for _, e := range m.ents {
		if !e.pres.isFalse() {
			ents = append(ents, e)
		}
	}
	n := len(ents)
	if n < 2 {
		return mv
	}
	out := newMapObj(st.heap.owner)
	out.sym = true
	if ex.mapOrder == 1 || n > 24 {
		for i := n - 1; i >= 0; i-- {
			out.ents = append(out.ents, ents[i])
		}
		return MapV{obj: ex.alloc(st, out)}
	}
	var perms [][]int
	if n <= 3 {
		perms = allPerms(n)
	} else {
		// rotations and their reversals
		for r := 0; r < n; r++ {
			p, q := make([]int, n), make([]int, n)
			for i := range p {
				p[i] = (i + r) % n
				q[n-1-i] = p[i]
			}
			perms = append(perms, p, q)
		}
	}
	ex.orderSeq++
	c := ex.choice(fmt.Sprintf("order!%d", ex.orderSeq), len(perms))
	for i := 0; i < n; i++ {
		var ka, va []Alt
		var ps []*Term
		for pi, p := range perms {
			e := ents[p[i]]
			ka = append(ka, Alt{c[pi], e.k})
			va = append(va, Alt{c[pi], e.v})
			ps = append(ps, ex.tt.And(c[pi], e.pres))
		}
		pres := ex.orTerms(ps)
		allTrue := true
		for _, e := range ents {
			if !e.pres.isTrue() {
				allTrue = false
			}
		}
		if allTrue {
			pres = ex.tt.True
		}
		out.ents = append(out.ents, MapEnt{k: ex.mergeAlts(ka), v: ex.mergeAlts(va), pres: pres})
	}
	return MapV{obj: ex.alloc(st, out)}
}

// ordered returns a snapshot of the map whose iteration is in the order of its
// keys, if these are concrete strings.
func (ex *Exec) ordered(st *State, mv MapV) MapV {
	if mv.obj == 0 {
		return mv
	}
	out := st.heap.get(mv.obj).(*MapObj).clone(st.heap.owner)
	for _, e := range out.ents {
		if _, ok := e.k.(Str); !ok {
			return mv
		}
	}
	sort.SliceStable(out.ents, func(i, j int) bool { return string(out.ents[i].k.(Str)) < string(out.ents[j].k.(Str)) })
	out.idx, out.sym, out.fixed = map[string]int{}, true, true
	return MapV{obj: ex.alloc(st, out)}
}

// allFixed reports whether the order of all alternatives is fixed.
func (ex *Exec) allFixed(st *State, u *Union) bool {
	for _, a := range u.alts {
		mv := a.v.(MapV)
		if mv.obj == 0 || st.heap.get(mv.obj) == nil {
			continue
		}
		if !st.heap.get(mv.obj).(*MapObj).fixed {
			return false
		}
	}
	return true
}

func allPerms(n int) [][]int {
	var out [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>uint(i)&1 == 0 {
				rec(append(cur, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return out
}

// choice returns guards for the values 0..n-1 of a fresh or existing input.
func (ex *Exec) choice(name string, n int) []*Term {
	if n == 1 {
		return []*Term{ex.tt.True}
	}
	if k, ok := ex.preset[name]; ok {
		out := make([]*Term, n)
		for i := range out {
			out[i] = ex.tt.Bool(uint64(i) == k)
		}
		return out
	}
	w := uint8(1)
	for 1<<w < n {
		w++
	}
	in := ex.inputBy[name]
	if in == nil {
		var t *Term
		if n == 2 {
			t = ex.tt.Var(name, 0)
		} else {
			t = ex.tt.Var(name, w)
			if n != 1<<w {
				ex.tt.axioms = append(ex.tt.axioms, ex.tt.Ult(t, ex.tt.BV(w, uint64(n))))
			}
		}
		in = &Input{name: name, kind: "choice", n: n, t: t}
		ex.inputBy[name] = in
		ex.inputs = append(ex.inputs, in)
	}
	if in.kind != "choice" || in.n != n {
		panic("input redeclared: " + name)
	}
	if n == 2 {
		return []*Term{ex.tt.Not(in.t), in.t}
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = ex.tt.Eq(in.t, ex.tt.BV(w, uint64(i)))
	}
	return out
}

// ---- binary operators ----

func (ex *Exec) binop(st *State, op token.Token, xt, yt types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return ex.eq(st, a, b)
	case token.NEQ:
		return ex.tt.Not(ex.eq(st, a, b))
	}
	// fast path
	if x, ok := a.(*Term); ok {
		if y, ok := b.(*Term); ok {
			return ex.binTerm(st, op, xt, yt, x, y)
		}
	}
	if op == token.ADD {
		if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return ex.concat(st, a, b)
		}
	}
	return ex.liftN(st, []Value{a, b}, func(vs []Value) Value {
		switch x := vs[0].(type) {
		case *Term:
			y, ok := vs[1].(*Term)
			if !ok {
				break
			}
			return ex.binTerm(st, op, xt, yt, x, y)
		case Float:
			y, ok := vs[1].(Float)
			if !ok {
				break
			}
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			case token.LSS:
				return ex.tt.Bool(x < y)
			case token.LEQ:
				return ex.tt.Bool(x <= y)
			case token.GTR:
				return ex.tt.Bool(x > y)
			case token.GEQ:
				return ex.tt.Bool(x >= y)
			}
		case Str, *SymStr:
			switch op {
			case token.LSS:
				return ex.strLess(vs[0], vs[1])
			case token.GTR:
				return ex.strLess(vs[1], vs[0])
			case token.LEQ:
				return ex.tt.Not(ex.strLess(vs[1], vs[0]))
			case token.GEQ:
				return ex.tt.Not(ex.strLess(vs[0], vs[1]))
			}
		}
		panic(unsupported(fmt.Sprintf("binop %v on %T, %T", op, vs[0], vs[1])))
	})
}

func (ex *Exec) binTerm(st *State, op token.Token, xt, yt types.Type, x, y *Term) Value {
	tt := ex.tt
	if x.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return tt.And(x, y)
		case token.OR, token.LOR:
			return tt.Or(x, y)
		}
		panic(unsupported("bool op " + op.String()))
	}
	w, signed, ok := bitsOf(xt)
	if !ok {
		// floats etc. do not reach here
		panic(unsupported("int op on " + xt.String()))
	}
	_ = w
	switch op {
	case token.SHL, token.SHR:
		_, ys, _ := bitsOf(yt)
		if ys {
			neg := tt.Slt(y, tt.BV(y.w, 0))
			ex.failIf(st, neg, "negative shift amount")
		}
		// bring the count to x's width, saturating
		var c *Term
		if y.w > x.w {
			big := tt.Not(tt.Ult(y, tt.BV(y.w, uint64(x.w))))
			c = tt.Ite(big, tt.BV(x.w, uint64(x.w)), tt.Extract(y, x.w))
			if x.w == 8 || x.w == 16 || x.w == 32 {
				// width fits in the type
			}
		} else {
			c = tt.Ext(y, x.w, false)
		}
		if op == token.SHL {
			return tt.Bin(opShl, x, c)
		}
		if signed {
			return tt.Bin(opAshr, x, c)
		}
		return tt.Bin(opLshr, x, c)
	}
	switch op {
	case token.ADD:
		return tt.Bin(opAdd, x, y)
	case token.SUB:
		return tt.Bin(opSub, x, y)
	case token.MUL:
		return tt.Bin(opMul, x, y)
	case token.QUO, token.REM:
		ex.failIf(st, tt.Eq(y, tt.BV(y.w, 0)), "integer divide by zero")
		switch {
		case op == token.QUO && signed:
			return tt.Bin(opSdiv, x, y)
		case op == token.QUO:
			return tt.Bin(opUdiv, x, y)
		case signed:
			return tt.Bin(opSrem, x, y)
		}
		return tt.Bin(opUrem, x, y)
	case token.AND:
		return tt.Bin(opBand, x, y)
	case token.OR:
		return tt.Bin(opBor, x, y)
	case token.XOR:
		return tt.Bin(opBxor, x, y)
	case token.AND_NOT:
		return tt.Bin(opBand, x, tt.Bin(opBxor, y, tt.BV(y.w, mask(y.w))))
	case token.LSS:
		return ex.less(signed, x, y)
	case token.GTR:
		return ex.less(signed, y, x)
	case token.LEQ:
		return tt.Not(ex.less(signed, y, x))
	case token.GEQ:
		return tt.Not(ex.less(signed, x, y))
	}
	panic(unsupported("int op " + op.String()))
}

func (ex *Exec) less(signed bool, x, y *Term) *Term {
	if signed {
		return ex.tt.Slt(x, y)
	}
	return ex.tt.Ult(x, y)
}

// ---- conversions ----

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (ex *Exec) convert(st *State, from, to types.Type, v Value) Value {
	if o, ok := v.(*Opaque); ok {
		return o
	}
	wt, _, tok := bitsOf(to)
	_, fs, fok := bitsOf(from)
	switch {
	case tok && fok:
		return ex.lift(v, func(v Value) Value {
			t, ok := v.(*Term)
			if !ok {
				panic(unsupported(fmt.Sprintf("convert %T", v)))
			}
			if t.w > wt {
				return ex.tt.Extract(t, wt)
			}
			return ex.tt.Ext(t, wt, fs)
		})
	case isString(to) && isString(from):
		return v
	case isString(to) && fok:
		return ex.lift(v, func(v Value) Value {
			t := v.(*Term)
			if !t.isConst() {
				panic(unsupported("string of symbolic rune"))
			}
			return Str(string(rune(sext64(t.val, t.w))))
		})
	case isString(to) && isByteSlice(from):
		return ex.bytesToStr(st, v)
	case isByteSlice(to) && isString(from):
		return ex.strToBytes(st, v)
	case isString(to) && isRuneSlice(from):
		return ex.lift(v, func(v Value) Value {
			var rs []rune
			for _, e := range ex.sliceElems(st, v.(Slice)) {
				t, ok := e.(*Term)
				if !ok || !t.isConst() {
					panic(unsupported("string of symbolic runes"))
				}
				rs = append(rs, rune(int32(t.val)))
			}
			return Str(string(rs))
		})
	case isRuneSlice(to) && isString(from):
		return ex.lift(v, func(v Value) Value {
			var vs []Value
			switch s := v.(type) {
			case Str:
				for _, r := range string(s) {
					vs = append(vs, ex.bv(32, uint64(uint32(r))))
				}
			case *SymStr:
				for _, b := range s.b {
					vs = append(vs, ex.tt.Ext(b, 32, false))
				}
			}
			return ex.newSlice(st, to.Underlying().(*types.Slice).Elem(), vs)
		})
	}
	fb, fbok := from.Underlying().(*types.Basic)
	tb, tbok := to.Underlying().(*types.Basic)
	// unsafe.Pointer conversions pass the pointer through
	if fbok && fb.Kind() == types.UnsafePointer || tbok && tb.Kind() == types.UnsafePointer {
		if tok {
			return &Opaque{"uintptr of pointer"}
		}
		if fok {
			return &Opaque{"pointer of uintptr"}
		}
		return v
	}
	if tbok && tb.Info()&types.IsFloat != 0 {
		return ex.lift(v, func(v Value) Value {
			switch x := v.(type) {
			case Float:
				if tb.Kind() == types.Float32 {
					return Float(float32(x))
				}
				return x
			case *Term:
				if x.isConst() {
					if fs {
						return Float(float64(sext64(x.val, x.w)))
					}
					return Float(float64(x.val))
				}
			}
			panic(unsupported("float conversion"))
		})
	}
	if tok && fbok && fb.Info()&types.IsFloat != 0 {
		return ex.lift(v, func(v Value) Value {
			return ex.tt.BV(wt, uint64(int64(v.(Float))))
		})
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

func (ex *Exec) newSlice(st *State, elem types.Type, vs []Value) Slice {
	n := int32(len(vs))
	arr := ex.newArray(elem, n)
	switch x := arr.(type) {
	case *Agg:
		arr = &Agg{e: append([]Value(nil), vs...)}
	case *PVec:
		arr = x.setRange(0, vs)
	}
	return Slice{obj: ex.alloc(st, arr), n: n, c: n}
}

var byteType = types.Typ[types.Uint8]

func (ex *Exec) strToBytes(st *State, v Value) Value {
	u, ok := v.(*Union)
	if !ok {
		bs := ex.strBytes(v)
		vs := make([]Value, len(bs))
		for i, b := range bs {
			vs[i] = b
		}
		return ex.newSlice(st, byteType, vs)
	}
	// group alternatives by length, one array per length
	byLen := map[int][]Alt{}
	var lens []int
	for _, a := range u.alts {
		n := strLen(a.v)
		if byLen[n] == nil {
			lens = append(lens, n)
		}
		byLen[n] = append(byLen[n], a)
	}
	var alts []Alt
	for _, n := range lens {
		as := byLen[n]
		var src *Union
		if len(as) > 1 {
			src = &Union{as}
		}
		vs := make([]Value, n)
		for i := range vs {
			if src == nil {
				vs[i] = ex.strBytes(as[0].v)[i]
			} else {
				vs[i] = StrByte{src, int32(i)}
			}
		}
		alts = append(alts, Alt{ex.orAlts(as), ex.newSlice(st, byteType, vs)})
	}
	return ex.mergeAlts(alts)
}

func (ex *Exec) bytesToStr(st *State, v Value) Value {
	if u, ok := v.(*Union); ok {
		var alts []Alt
		for _, a := range u.alts {
			alts = append(alts, Alt{a.g, nil})
			alts[len(alts)-1].v = ex.bytesToStr(st, a.v)
		}
		return ex.mergeAlts(alts)
	}
	s, ok := v.(Slice)
	if !ok {
		panic(unsupported(fmt.Sprintf("bytes to string of %T", v)))
	}
	return ex.elemsToStr(st, ex.sliceElems(st, s))
}

func (ex *Exec) elemsToStr(st *State, el []Value) Value {
	var res Value = Str("")
	i := 0
	for i < len(el) {
		switch b := el[i].(type) {
		case StrByte:
			j := i + 1
			for j < len(el) {
				c, ok := el[j].(StrByte)
				if !ok || c.s != b.s || c.i != b.i+int32(j-i) {
					break
				}
				j++
			}
			lo, hi := int(b.i), int(b.i)+j-i
			part := ex.lift(b.s, func(v Value) Value {
				if strLen(v) < hi {
					return nil
				}
				return ex.subStr(v, lo, hi)
			})
			if part == nil {
				panic(deadPath{})
			}
			res = ex.concat(st, res, part)
			i = j
		default:
			var bs []*Term
			j := i
			for j < len(el) {
				v := el[j]
				if _, ok := v.(StrByte); ok {
					break
				}
				if u, ok := v.(*Union); ok {
					v = ex.unionTerm(u)
				}
				t, ok := v.(*Term)
				if !ok {
					panic(unsupported(fmt.Sprintf("byte %T", v)))
				}
				bs = append(bs, t)
				j++
			}
			res = ex.concat(st, res, ex.mkStr(bs))
			i = j
		}
	}
	return res
}

// unionTerm turns a union of integer terms into an ite term.
func (ex *Exec) unionTerm(u *Union) Value {
	d := u.alts
	r, ok := d[len(d)-1].v.(*Term)
	if !ok {
		return u
	}
	for i := len(d) - 2; i >= 0; i-- {
		t, ok := d[i].v.(*Term)
		if !ok {
			return u
		}
		r = ex.tt.Ite(d[i].g, t, r)
	}
	return r
}

// ---- type assertions ----

func (ex *Exec) implements(t types.Type, it *types.Interface) bool {
	k := [2]int{ex.typeID(t), ex.typeID(it)}
	if r, ok := ex.implMemo[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	ex.implMemo[k] = r
	return r
}

func (ex *Exec) assertOK(v Iface, to types.Type) bool {
	if v.t == nil {
		return false
	}
	if it, ok := to.Underlying().(*types.Interface); ok {
		return ex.implements(v.t, it)
	}
	return v.t == ex.canon(to) || types.Identical(v.t, to)
}

func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert, v Value) Value {
	to := x.AssertedType
	_, toIface := to.Underlying().(*types.Interface)
	zero := ex.zero(to)
	if o, ok := v.(*Opaque); ok {
		panic(unsupported("type assertion on opaque " + o.why))
	}
	var va []Alt
	var oks []*Term
	for _, a := range ex.alternatives(v) {
		i, ok := a.v.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("type assertion on %T", a.v)))
		}
		if ex.assertOK(i, to) {
			var r Value = i.v
			if toIface {
				r = i
			}
			va = append(va, Alt{a.g, r})
			oks = append(oks, a.g)
		} else {
			if !x.CommaOk {
				ex.failIf(st, a.g, "failed type assertion to "+to.String())
				continue
			}
			va = append(va, Alt{a.g, zero})
		}
	}
	if len(va) == 0 {
		panic(deadPath{})
	}
	r := ex.mergeAlts(va)
	if x.CommaOk {
		return &Agg{e: []Value{r, ex.orTerms(oks)}}
	}
	return r
}
