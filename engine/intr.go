package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// natives are pure functions evaluated natively on concrete arguments and
// lifted over alternatives.
var natives = map[string]any{
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter, "strings.Fields": strings.Fields,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.Cut": strings.Cut, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Repeat": strings.Repeat,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count,
	"strings.Compare": strings.Compare, "strings.Join": strings.Join, "strings.Clone": strings.Clone, "strings.Title": strings.Title,
	"internal/stringslite.HasPrefix": strings.HasPrefix, "internal/stringslite.HasSuffix": strings.HasSuffix, "internal/stringslite.IndexByte": strings.IndexByte,
	"internal/stringslite.Index": strings.Index, "internal/stringslite.Cut": strings.Cut, "internal/stringslite.TrimPrefix": strings.TrimPrefix,
	"internal/stringslite.TrimSuffix": strings.TrimSuffix, "internal/stringslite.Clone": strings.Clone,
	"internal/bytealg.CompareString": strings.Compare, "internal/bytealg.IndexByteString": strings.IndexByte, "internal/bytealg.IndexString": strings.Index,
	"internal/bytealg.CountString":         func(s string, c byte) int { return strings.Count(s, string([]byte{c})) },
	"internal/bytealg.LastIndexByteString": strings.LastIndexByte,
	"strconv.Itoa":                         strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
	"strconv.FormatBool": strconv.FormatBool, "strconv.QuoteRune": strconv.QuoteRune,
	"path.Base": path.Base, "path.Dir": path.Dir, "path.Clean": path.Clean, "path.Join": path.Join, "path.Ext": path.Ext, "path.IsAbs": path.IsAbs,
	"path/filepath.Join": filepath.Join, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Clean": filepath.Clean,
	"path/filepath.Ext": filepath.Ext, "path/filepath.IsAbs": filepath.IsAbs, "path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsPrint": unicode.IsPrint,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString,
	"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"math/bits.Len": bits.Len, "math/bits.Len64": bits.Len64, "math/bits.Len32": bits.Len32, "math/bits.TrailingZeros64": bits.TrailingZeros64,
	"math/bits.TrailingZeros": bits.TrailingZeros, "math/bits.OnesCount64": bits.OnesCount64, "math/bits.LeadingZeros64": bits.LeadingZeros64,
	"go/token.IsExported": func(s string) bool { r, _ := utf8.DecodeRuneInString(s); return unicode.IsUpper(r) },
	"go/ast.IsExported":   func(s string) bool { r, _ := utf8.DecodeRuneInString(s); return unicode.IsUpper(r) },
}

// splitCalls are pure functions that are run once per argument alternative.
var splitCalls = map[string]bool{
	"(*golang.org/x/tools/go/ssa.Function).String":    true,
	"(*golang.org/x/tools/go/ssa.Function).RelString": true,
	"(*go/token.FileSet).Position":                    true,
	"(*go/token.FileSet).PositionFor":                 true,
	"(*go/token.FileSet).File":                        true,
	"go/types.Unalias":                                true,
	"go/types.Identical":                              true,
	"go/types.TypeString":                             true,
	"(go/token.Pos).IsValid":                          true,
}

const maxCombos = 3000

func nativeIntr(name string, f any) intrinsic {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	return func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		// expand slice arguments into their elements
		type argInfo struct {
			slice bool
			n     int
		}
		var flat []Value
		// every alternative of a slice argument is handled separately
		var res []Alt
		fall := false
		ex.product(st, args, func(g *Term, as []Value) {
			if fall {
				return
			}
			flat = flat[:0]
			infos := make([]argInfo, len(as))
			for i, a := range as {
				if s, ok := a.(Slice); ok {
					el := ex.sliceElems(st, s)
					infos[i] = argInfo{true, len(el)}
					flat = append(flat, el...)
				} else {
					flat = append(flat, a)
				}
			}
			n := 1
			for _, v := range flat {
				switch x := v.(type) {
				case *Union:
					n *= len(x.alts)
				case *SymStr, *Opaque:
					fall = true
				case *Term:
					if !x.isConst() {
						fall = true
					}
				}
			}
			if fall || n > 1<<20 {
				fall = true
				return
			}
			old := st.pc
			st.pc = ex.tt.And(st.pc, g)
			ex.product(st, append([]Value(nil), flat...), func(g2 *Term, vs []Value) {
				if fall {
					return
				}
				if len(res) > maxCombos {
					fall = true
					return
				}
				in := make([]reflect.Value, 0, len(as))
				k := 0
				for i := range as {
					var pt reflect.Type
					if rt.IsVariadic() && i >= rt.NumIn()-1 {
						pt = rt.In(rt.NumIn() - 1)
					} else {
						pt = rt.In(i)
					}
					if infos[i].slice {
						sl := reflect.MakeSlice(pt, infos[i].n, infos[i].n)
						for j := 0; j < infos[i].n; j++ {
							x, ok := toNative(vs[k], pt.Elem())
							if !ok {
								fall = true
								return
							}
							sl.Index(j).Set(x)
							k++
						}
						in = append(in, sl)
						continue
					}
					x, ok := toNative(vs[k], pt)
					k++
					if !ok {
						fall = true
						return
					}
					in = append(in, x)
				}
				var out []reflect.Value
				if rt.IsVariadic() {
					out = rv.CallSlice(in)
				} else {
					out = rv.Call(in)
				}
				var v Value
				if len(out) == 1 {
					v = ex.fromNative(out[0])
				} else {
					t := &Agg{}
					for _, o := range out {
						t.e = append(t.e, ex.fromNative(o))
					}
					v = t
				}
				res = append(res, Alt{ex.tt.And(g, g2), v})
			})
			st.pc = old
		})
		if fall {
			return nil, rFall
		}
		if len(res) == 0 {
			return nil, rDead
		}
		return ex.materialize(st, res), rOK
	}
}

// strList is a native []string result before allocation.
type strList []string

// materialize merges native results, allocating slices by length.
func (ex *Exec) materialize(st *State, res []Alt) Value {
	if _, ok := res[0].v.(strList); !ok {
		return ex.mergeAlts(res)
	}
	byLen := map[int][]Alt{}
	var lens []int
	for _, a := range res {
		l := a.v.(strList)
		if byLen[len(l)] == nil {
			lens = append(lens, len(l))
		}
		byLen[len(l)] = append(byLen[len(l)], a)
	}
	var alts []Alt
	for _, n := range lens {
		as := byLen[n]
		vs := make([]Value, n)
		for i := range vs {
			col := make([]Alt, len(as))
			for j, a := range as {
				col[j] = Alt{a.g, Str(a.v.(strList)[i])}
			}
			vs[i] = ex.mergeAlts(col)
		}
		alts = append(alts, Alt{ex.orAlts(as), ex.newSlice(st, types.Typ[types.String], vs)})
	}
	return ex.mergeAlts(alts)
}

func toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	out := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(Str)
		if !ok {
			return out, false
		}
		out.SetString(string(s))
	case reflect.Bool:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return out, false
		}
		out.SetBool(x.val != 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return out, false
		}
		out.SetInt(sext64(x.val, x.w))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint8, reflect.Uint16:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return out, false
		}
		out.SetUint(x.val)
	default:
		return out, false
	}
	return out, true
}

func (ex *Exec) fromNative(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return Str(v.String())
	case reflect.Bool:
		return ex.tt.Bool(v.Bool())
	case reflect.Int, reflect.Int64:
		return ex.intv(v.Int())
	case reflect.Int32:
		return ex.bv(32, uint64(uint32(v.Int())))
	case reflect.Uint, reflect.Uint64:
		return ex.tt.BV(64, v.Uint())
	case reflect.Slice:
		l := make(strList, v.Len())
		for i := range l {
			l[i] = v.Index(i).String()
		}
		return l
	}
	panic("fromNative " + v.Type().String())
}

func noop(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
	return ex.zeroResult(fn), rOK
}

func (ex *Exec) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return ex.zero(r.At(0).Type())
	}
	return ex.zero(r)
}

var intrinsics map[string]intrinsic

func lookupIntrinsic(name string) intrinsic {
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if n, ok := natives[name]; ok {
		return nativeIntr(name, n)
	}
	return nil
}

// eachPtr applies f to each pointer alternative of v.
func (ex *Exec) eachPtr(st *State, v Value, f func(g *Term, p Ptr)) {
	for _, a := range ex.feasibleAlts(st, v) {
		p, ok := a.v.(Ptr)
		if !ok {
			panic(unsupported(fmt.Sprintf("pointer expected, have %T", a.v)))
		}
		if p.obj == 0 {
			ex.failIf(st, a.g, "nil pointer dereference")
			continue
		}
		f(a.g, p)
	}
}

// ---- string accumulators: strings.Builder and bytes.Buffer ----

// the contents are kept as a string value in the given field
func (ex *Exec) accGet(st *State, p Ptr, field int32) Value {
	v := ex.load1(st, Ptr{p.obj, ex.subPath(p.path, field)})
	return ex.lift(v, func(v Value) Value {
		if s, ok := v.(Slice); ok {
			if s.obj == 0 || s.n == 0 {
				return Str("")
			}
			return ex.bytesToStr(st, s)
		}
		return v
	})
}

func (ex *Exec) accSet(st *State, g *Term, p Ptr, field int32, v Value) {
	ex.storeG(st, g, Ptr{p.obj, ex.subPath(p.path, field)}, v)
}

func accAppend(field int32, conv func(ex *Exec, st *State, v Value) Value, ret func(ex *Exec, st *State, v Value) Value) intrinsic {
	return func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		s := conv(ex, st, args[1])
		ex.eachPtr(st, args[0], func(g *Term, p Ptr) {
			ex.accSet(st, g, p, field, ex.concat(st, ex.accGet(st, p, field), s))
		})
		return ret(ex, st, args[1]), rOK
	}
}

func idStr(ex *Exec, st *State, v Value) Value { return v }
func convBytes(ex *Exec, st *State, v Value) Value {
	if _, ok := v.(*Opaque); ok {
		return v
	}
	return ex.bytesToStr(st, v)
}
func convByte(ex *Exec, st *State, v Value) Value {
	return ex.lift(v, func(v Value) Value { return ex.mkStr([]*Term{v.(*Term)}) })
}
func convRune(ex *Exec, st *State, v Value) Value {
	return ex.lift(v, func(v Value) Value {
		t := v.(*Term)
		if !t.isConst() {
			return ex.mkStr([]*Term{ex.tt.Extract(t, 8)})
		}
		return Str(string(rune(int32(t.val))))
	})
}

func (ex *Exec) vlen(v Value) Value {
	return ex.lift(v, func(v Value) Value {
		switch x := v.(type) {
		case Slice:
			return ex.intv(int64(x.n))
		case *Opaque:
			return x
		}
		return ex.intv(int64(strLen(v)))
	})
}

func lenNil(ex *Exec, st *State, v Value) Value {
	return &Agg{e: []Value{ex.vlen(v), nilIface}}
}
func errNil(ex *Exec, st *State, v Value) Value { return nilIface }
func runeRet(ex *Exec, st *State, v Value) Value {
	return &Agg{e: []Value{ex.intv(1), nilIface}}
}

func accRead(field int32, f func(ex *Exec, st *State, s Value) Value) intrinsic {
	return func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		var alts []Alt
		for _, a := range ex.feasibleAlts(st, args[0]) {
			p := a.v.(Ptr)
			if p.obj == 0 {
				// (*bytes.Buffer)(nil).String() is "<nil>"
				ex.failIf(st, a.g, "nil pointer dereference")
				continue
			}
			alts = append(alts, Alt{a.g, ex.accGet(st, p, field)})
		}
		if len(alts) == 0 {
			return nil, rDead
		}
		return f(ex, st, ex.mergeAlts(alts)), rOK
	}
}

func accReset(field int32) intrinsic {
	return func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		ex.eachPtr(st, args[0], func(g *Term, p Ptr) { ex.accSet(st, g, p, field, Str("")) })
		return nil, rOK
	}
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	for _, b := range []struct {
		t string
		f int32
	}{{"(*strings.Builder)", 1}, {"(*bytes.Buffer)", 0}} {
		reg(accAppend(b.f, idStr, lenNil), b.t+".WriteString")
		reg(accAppend(b.f, convBytes, lenNil), b.t+".Write")
		reg(accAppend(b.f, convByte, errNil), b.t+".WriteByte")
		reg(accAppend(b.f, convRune, runeRet), b.t+".WriteRune")
		reg(accRead(b.f, func(ex *Exec, st *State, s Value) Value { return s }), b.t+".String")
		reg(accRead(b.f, func(ex *Exec, st *State, s Value) Value { return ex.vlen(s) }), b.t+".Len")
		reg(accReset(b.f), b.t+".Reset")
		reg(noop, b.t+".Grow")
	}
	reg(accRead(0, func(ex *Exec, st *State, s Value) Value {
		if o, ok := s.(*Opaque); ok {
			return o
		}
		return ex.strToBytes(st, s)
	}), "(*bytes.Buffer).Bytes")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		ex.eachPtr(st, args[0], func(g *Term, p Ptr) {
			s := ex.liftN(st, []Value{ex.accGet(st, p, 0), args[1]}, func(vs []Value) Value {
				n, ok := vs[1].(*Term)
				if !ok || !n.isConst() {
					panic(unsupported("Truncate"))
				}
				if int(n.val) > strLen(vs[0]) {
					panic(unsupported("Truncate out of range"))
				}
				return ex.subStr(vs[0], 0, int(n.val))
			})
			ex.accSet(st, g, p, 0, s)
		})
		return nil, rOK
	}, "(*bytes.Buffer).Truncate")

	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.lift(args[0], func(v Value) Value {
			i, ok := v.(Iface)
			if !ok {
				panic(unsupported("maps.clone"))
			}
			return Iface{i.t, ex.lift(i.v, func(v Value) Value {
				m := v.(MapV)
				if m.obj == 0 {
					return m
				}
				return MapV{obj: ex.alloc(st, st.heap.get(m.obj).(*MapObj).clone(st.heap.owner))}
			})}
		}), rOK
	}, "maps.clone")

	// bytes
	indexByte := func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		c, ok := args[1].(*Term)
		if !ok || !c.isConst() {
			panic(unsupported("IndexByte of symbolic byte"))
		}
		r := ex.lift(args[0], func(v Value) Value {
			s := v.(Slice)
			if s.n == 0 {
				return ex.intv(-1)
			}
			arr := readPath(st.heap.get(s.obj), s.path)
			return ex.findByte(st, int(s.n), func(i int) Value { return elemGet(arr, s.off+int32(i)) }, c)
		})
		return r, rOK
	}
	reg(indexByte, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		a, b := ex.bytesToStr(st, args[0]), ex.bytesToStr(st, args[1])
		return ex.eq(st, a, b), rOK
	}, "bytes.Equal")

	// synchronisation is a no-op: the code under analysis is sequential
	reg(noop, "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable",
		modPath+"/proto.file_capability_proto_init", "(*golang.org/x/tools/go/ssa.Program).Build", "(*golang.org/x/tools/go/ssa.Package).Build",
		"internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value", "internal/godebug.setUpdate",
		"runtime.GC", "golang.org/x/tools/internal/typeparams.init")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) { return ex.tt.True, rOK }, "(*sync.Mutex).TryLock")
	loadAt := func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.load(st, args[0]), rOK
	}
	storeAt := func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		ex.store(st, args[0], args[1])
		return nil, rOK
	}
	addAt := func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		v := ex.liftN(st, []Value{ex.load(st, args[0]), args[1]}, func(vs []Value) Value {
			return ex.tt.Bin(opAdd, vs[0].(*Term), vs[1].(*Term))
		})
		ex.store(st, args[0], v)
		return v, rOK
	}
	casAt := func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		old := ex.load(st, args[0])
		e := ex.eq(st, old, args[1])
		ex.store(st, args[0], ex.mergeAlts([]Alt{{e, args[2]}, {ex.tt.Not(e), old}}))
		return e, rOK
	}
	swapAt := func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		old := ex.load(st, args[0])
		ex.store(st, args[0], args[1])
		return old, rOK
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(loadAt, p+"Load"+t)
			reg(storeAt, p+"Store"+t)
			reg(addAt, p+"Add"+t)
			reg(casAt, p+"CompareAndSwap"+t)
			reg(swapAt, p+"Swap"+t)
		}
	}
	// reflectlite, used by package sort
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.lift(args[0], func(v Value) Value { i := v.(Iface); return &RVal{t: i.t, v: i.v} }), rOK
	}, "internal/reflectlite.ValueOf")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.lift(args[0], func(v Value) Value { return ex.vlen(v.(*RVal).v) }), rOK
	}, "(internal/reflectlite.Value).Len")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		sl := ex.lift(args[0], func(v Value) Value { return v.(Iface).v })
		return &Closure{iname: "swapper", intr: func(ex *Exec, st *State, a []Value) (Value, bool) {
			ex.swapElems(st, sl, a[0], a[1])
			return nil, true
		}}, rOK
	}, "internal/reflectlite.Swapper")

	regVrt(reg)
	regTmpl(reg)
	regFmt(reg)
	regReflect(reg)
	regMisc(reg)
}

func (ex *Exec) findByte(st *State, n int, at func(i int) Value, c *Term) Value {
	var alts []Alt
	none := ex.tt.True
	for i := 0; i < n; i++ {
		v := at(i)
		if b, ok := v.(StrByte); ok {
			v = ex.expandByte(b)
		}
		var e *Term
		switch t := v.(type) {
		case *Union:
			e = ex.eq(st, t, c)
		case *Term:
			e = ex.tt.Eq(t, c)
		default:
			panic(unsupported("byte search"))
		}
		if e.isFalse() {
			continue
		}
		if !e.isTrue() && !ex.feasible(ex.tt.And(st.pc, none, e)) {
			continue
		}
		alts = append(alts, Alt{ex.tt.And(none, e), ex.intv(int64(i))})
		if e.isTrue() {
			none = ex.tt.False
			break
		}
		none = ex.tt.And(none, ex.tt.Not(e))
		if !ex.feasible(ex.tt.And(st.pc, none)) {
			none = ex.tt.False
			break
		}
	}
	if !none.isFalse() {
		alts = append(alts, Alt{none, ex.intv(-1)})
	}
	return ex.mergeAlts(alts)
}

func (ex *Exec) swapElems(st *State, sl, i, j Value) {
	type op struct {
		g    *Term
		a, b Ptr
		x, y Value
	}
	var ops []op
	ex.product(st, []Value{sl, i, j}, func(g *Term, vs []Value) {
		s := vs[0].(Slice)
		a, ok1 := vs[1].(*Term)
		b, ok2 := vs[2].(*Term)
		if !ok1 || !ok2 || !a.isConst() || !b.isConst() {
			panic(unsupported("swap of symbolic indices"))
		}
		if a.val >= uint64(s.n) || b.val >= uint64(s.n) {
			ex.failIf(st, g, "index out of range")
			return
		}
		pa := Ptr{s.obj, ex.subPath(s.path, s.off+int32(a.val))}
		pb := Ptr{s.obj, ex.subPath(s.path, s.off+int32(b.val))}
		ops = append(ops, op{g, pa, pb, ex.load1(st, pa), ex.load1(st, pb)})
	})
	for _, o := range ops {
		ex.storeG(st, o.g, o.a, o.y)
		ex.storeG(st, o.g, o.b, o.x)
	}
}

// ---- vrt ----

func constStr(v Value) string {
	s, ok := v.(Str)
	if !ok {
		panic(unsupported("constant string expected"))
	}
	return string(s)
}

// findField finds a field, possibly promoted from an embedded struct.
func findField(s *types.Struct, name string) ([]int32, types.Type) {
	for k := 0; k < s.NumFields(); k++ {
		if s.Field(k).Name() == name {
			return []int32{int32(k)}, s.Field(k).Type()
		}
	}
	for k := 0; k < s.NumFields(); k++ {
		if e, ok := s.Field(k).Type().Underlying().(*types.Struct); ok && s.Field(k).Embedded() {
			if p, t := findField(e, name); p != nil {
				return append([]int32{int32(k)}, p...), t
			}
		}
	}
	return nil, nil
}

func regVrt(reg func(intrinsic, ...string)) {
	p := vrtPath + "."
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.choice(constStr(args[0]), 2)[1], rOK
	}, p+"Bool")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		n := int(args[1].(*Term).val)
		gs := ex.choice(constStr(args[0]), n)
		alts := make([]Alt, n)
		for i, g := range gs {
			alts[i] = Alt{g, ex.intv(int64(i))}
		}
		return ex.mergeAlts(alts), rOK
	}, p+"Choice")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		name := constStr(args[0])
		in := ex.inputBy[name]
		if in == nil {
			in = &Input{name: name, kind: "byte", t: ex.tt.Var(name, 8)}
			ex.inputBy[name] = in
			ex.inputs = append(ex.inputs, in)
			// ASCII
			ex.tt.axioms = append(ex.tt.axioms, ex.tt.Ult(in.t, ex.tt.BV(8, 128)))
		}
		return in.t, rOK
	}, p+"Byte")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		c, ok := args[0].(*Term)
		if !ok {
			panic(unsupported("assume of opaque"))
		}
		np := ex.tt.And(st.pc, c)
		if !c.isTrue() {
			ex.loss++
		}
		if !ex.feasible(np) {
			return nil, rDead
		}
		st.pc = np
		return nil, rOK
	}, p+"Assume")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		c, ok := args[0].(*Term)
		if !ok {
			panic(unsupported("assert of opaque"))
		}
		l := ex.labelOf(args[1])
		ex.vcs = append(ex.vcs, VC{"assert", l, ex.tt.And(st.pc, ex.tt.Not(c)), ex.where()})
		return nil, rOK
	}, p+"Assert")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		c, ok := args[0].(*Term)
		if !ok {
			panic(unsupported("cover of opaque"))
		}
		ex.covers = append(ex.covers, CoverPt{ex.labelOf(args[1]), ex.tt.And(st.pc, c)})
		return nil, rOK
	}, p+"Cover")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		ex.obs = append(ex.obs, Obs{ex.labelOf(args[0]), st.pc, args[1]})
		return nil, rOK
	}, p+"Observe")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.tt.Bool(ex.tier == "thorough"), rOK
	}, p+"Thorough")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) { return ex.tt.True, rOK }, p+"Symbolic")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		ex.mapOrder = int(args[0].(*Term).val)
		return nil, rOK
	}, p+"MapOrder")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		switch m := args[0].(type) {
		case MapV:
			return ex.ordered(st, m), rOK
		case *Union:
			var alts []Alt
			for _, a := range m.alts {
				mv, ok := a.v.(MapV)
				if !ok {
					panic(unsupported("order of opaque map"))
				}
				alts = append(alts, Alt{a.g, ex.ordered(st, mv)})
			}
			return ex.mergeAlts(alts), rOK
		}
		panic(unsupported("order of opaque map"))
	}, p+"OrderedImports")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		c := args[0].(*Term)
		return ex.mergeAlts([]Alt{{c, args[1]}, {ex.tt.Not(c), args[2]}}), rOK
	}, p+"If")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		field := constStr(args[1])
		for _, a := range ex.feasibleAlts(st, args[0]) {
			i := a.v.(Iface)
			stt := i.t.(*types.Pointer).Elem().Underlying().(*types.Struct)
			path, ft := findField(stt, field)
			if path == nil {
				panic(unsupported("SetField: no field " + field))
			}
			_, isIf := ft.Underlying().(*types.Interface)
			v := ex.lift(args[2], func(v Value) Value {
				x := v.(Iface)
				if isIf {
					return x
				}
				if x.t == nil {
					return ex.zero(ft)
				}
				return x.v
			})
			fp := i.v.(Ptr).path
			for _, k := range path {
				fp = ex.subPath(fp, k)
			}
			ex.storeG(st, a.g, Ptr{i.v.(Ptr).obj, fp}, v)
		}
		return nil, rOK
	}, p+"SetField")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		sink := &exitSink{}
		ex.exits = append(ex.exits, sink)
		pc0 := st.pc
		s := &State{pc: st.pc, heap: st.heap, logs: st.logs}
		loss0 := ex.loss
		depth, n, sl := ex.depth, len(ex.exits), len(ex.stack)
		_, ok := ex.guarded(s, func() (Value, bool) { return ex.callValue(s, args[0], nil) })
		ex.depth = depth
		ex.stack = ex.stack[:sl]
		if len(ex.exits) >= n {
			ex.exits = ex.exits[:n-1]
		}
		_ = pc0
		_ = loss0
		var sts []*State
		var vals []Value
		if ok {
			sts = append(sts, s)
			vals = append(vals, &Agg{e: []Value{ex.intv(0), ex.tt.False}})
		}
		for i, t := range sink.sts {
			sts = append(sts, t)
			vals = append(vals, &Agg{e: []Value{sink.codes[i], ex.tt.True}})
		}
		v, ok := ex.joinCalls(st, pc0, -1, sts, vals)
		if !ok {
			return nil, rDead
		}
		return v, rOK
	}, p+"CatchExit")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		if len(ex.exits) == 0 {
			ex.vc("panic", "exit outside CatchExit", st.pc, ex.where())
			ex.loss++
			return nil, rDead
		}
		sink := ex.exits[len(ex.exits)-1]
		sink.sts = append(sink.sts, &State{pc: st.pc, heap: st.heap, logs: st.logs})
		sink.codes = append(sink.codes, args[0])
		ex.loss++
		return nil, rDead
	}, p+"Exit")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		for _, c := range ex.feasibleAlts(st, args[0]) {
			st.log(string(c.v.(Str)), args[1], c.g)
		}
		return nil, rOK
	}, p+"Emit")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		ch := constStr(args[0])
		if st.logs != nil {
			st.logs = copyLogs(st.logs)
			st.logs[ch] = nil
		}
		return nil, rOK
	}, p+"OutReset")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		to := constStr(args[1])
		for _, c := range ex.feasibleAlts(st, args[0]) {
			from := string(c.v.(Str))
			var evs []Event
			for l := st.logs[from]; l != nil; l = l.prev {
				evs = append(evs, l.ev)
			}
			for i := len(evs) - 1; i >= 0; i-- {
				st.log(to, evs[i].v, ex.tt.And(c.g, evs[i].g))
			}
			if c.g.isTrue() {
				st.logs = copyLogs(st.logs)
				delete(st.logs, from)
			} else {
				var keep *evList
				for i := len(evs) - 1; i >= 0; i-- {
					n := 1
					if keep != nil {
						n = keep.n + 1
					}
					e := evs[i]
					e.g = ex.tt.And(e.g, ex.tt.Not(c.g))
					keep = &evList{prev: keep, ev: e, n: n}
				}
				st.logs = copyLogs(st.logs)
				st.logs[from] = keep
			}
		}
		return nil, rOK
	}, p+"MoveOut")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		return ex.intv(int64(len(ex.lines(st, constStr(args[0]))))), rOK
	}, p+"OutLines")
	reg(func(ex *Exec, st *State, fn *ssa.Function, args []Value) (Value, int) {
		ls := ex.lines(st, constStr(args[0]))
		i, ok := args[1].(*Term)
		if !ok || !i.isConst() || i.val >= uint64(len(ls)) {
			panic(unsupported("OutLine index"))
		}
		l := ls[i.val]
		return &Agg{e: []Value{l.pres, l.text}}, rOK
	}, p+"OutLine")
}

func copyLogs(m map[string]*evList) map[string]*evList {
	n := make(map[string]*evList, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (ex *Exec) labelOf(v Value) string {
	if s, ok := v.(Str); ok {
		return string(s)
	}
	panic(unsupported("label must be constant"))
}

type lineSlot struct {
	pres *Term
	text Value
}

// lines splits the text of a channel into line slots.
func (ex *Exec) lines(st *State, ch string) []lineSlot {
	l := st.logs[ch]
	if s, ok := ex.lineMemo[l]; ok && l != nil {
		return s
	}
	var evs []Event
	for x := l; x != nil; x = x.prev {
		evs = append(evs, x.ev)
	}
	var out []lineSlot
	var pend Value = Str("")
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		txt := e.v
		if !e.g.isTrue() {
			if !ex.feasible(e.g) {
				continue
			}
			txt = ex.mergeAlts([]Alt{{e.g, txt}, {ex.tt.Not(e.g), Str("")}})
		}
		if _, ok := txt.(*Opaque); ok {
			out = append(out, lineSlot{e.g, txt})
			continue
		}
		c := ex.concat(st, pend, txt)
		if _, ok := c.(*Opaque); ok {
			out = append(out, lineSlot{e.g, c})
			pend = Str("")
			continue
		}
		type part struct {
			g     *Term
			lines []Value
			rest  Value
		}
		var ps []part
		max := 0
		for _, a := range ex.alternatives(c) {
			p := part{g: a.g}
			start := 0
			n := strLen(a.v)
			for k := 0; k < n; k++ {
				nl := false
				switch s := a.v.(type) {
				case Str:
					nl = s[k] == '\n'
				case *SymStr:
					t := s.b[k]
					if t.isConst() {
						nl = t.val == '\n'
					} else if ex.feasible(ex.tt.And(st.pc, a.g, ex.tt.Eq(t, ex.bv(8, '\n')))) {
						panic(unsupported("symbolic newline in output"))
					}
				}
				if nl {
					p.lines = append(p.lines, ex.subStr(a.v, start, k))
					start = k + 1
				}
			}
			p.rest = ex.subStr(a.v, start, n)
			if len(p.lines) > max {
				max = len(p.lines)
			}
			ps = append(ps, p)
		}
		for k := 0; k < max; k++ {
			var ta []Alt
			var gs []*Term
			for _, p := range ps {
				if k < len(p.lines) {
					ta = append(ta, Alt{p.g, p.lines[k]})
					gs = append(gs, p.g)
				}
			}
			pres := ex.tt.True
			if len(gs) < len(ps) {
				pres = ex.orTerms(gs)
			}
			out = append(out, lineSlot{pres, ex.mergeAlts(ta)})
		}
		var ra []Alt
		for _, p := range ps {
			ra = append(ra, Alt{p.g, p.rest})
		}
		pend = ex.mergeAlts(ra)
	}
	if s, ok := pend.(Str); !ok || s != "" {
		ne := ex.tt.Not(ex.eq(st, pend, Str("")))
		if ex.feasible(ex.tt.And(st.pc, ne)) {
			out = append(out, lineSlot{ne, pend})
		}
	}
	if l != nil {
		ex.lineMemo[l] = out
	}
	return out
}
