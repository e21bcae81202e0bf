package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integer), Str, *SymStr, Float, Ptr, Slice,
// MapV, *Closure, Iface, *Agg, *PVec, *Union, *Opaque, StrByte, *RVal.
type Value any

type Str string
type Float float64

// SymStr is a string of concrete length with symbolic bytes (8-bit terms).
type SymStr struct{ b []*Term }

// Path is an interned sequence of field/element indices inside an object.
type Path struct {
	parent *Path
	idx    int32
	id     int32
	depth  int32
}

type Ptr struct {
	obj  int32 // 0 is nil
	path *Path
}

type Slice struct {
	obj  int32 // 0 is nil
	path *Path // location of the array inside the object
	off  int32
	n, c int32
}

type MapV struct{ obj int32 }

type Closure struct {
	fn    *ssa.Function
	bind  []Value
	intr  func(ex *Exec, st *State, args []Value) (Value, bool) // engine-provided function
	iname string
	key   string
}

type Iface struct {
	t types.Type // nil for the nil interface; canonical
	v Value
}

type Agg struct{ e []Value }

type Alt struct {
	g *Term
	v Value
}

type Union struct{ alts []Alt }

type Opaque struct{ why string }

// StrByte is the i-th byte of a (possibly symbolic) string, expanded lazily.
type StrByte struct {
	s *Union
	i int32
}

// RVal is the engine's representation of a reflect value.
type RVal struct {
	t    types.Type
	v    Value // value, or Ptr when addr
	addr bool
}

// BuiltinV wraps an *ssa.Builtin used as a value.
type BuiltinV struct{ b *ssa.Builtin }

var nilPtr = Ptr{}
var nilIface = Iface{}
var nilFunc = (*Closure)(nil)

// ---- persistent vectors for arrays ----

const pvBits = 4
const pvW = 1 << pvBits

type pvNode struct {
	kids [pvW]*pvNode
	vals []Value // leaves only
}

type PVec struct {
	n     int32
	depth int8 // 0: root is leaf
	root  *pvNode
	zero  Value
}

func newPVec(n int32, zero Value) *PVec {
	d := int8(0)
	for c := int64(pvW); c < int64(n); c <<= pvBits {
		d++
	}
	return &PVec{n: n, depth: d, zero: zero}
}

func (p *PVec) get(i int32) Value {
	nd := p.root
	for d := int(p.depth); d > 0; d-- {
		if nd == nil {
			return p.zero
		}
		nd = nd.kids[(i>>(uint(d)*pvBits))&(pvW-1)]
	}
	if nd == nil {
		return p.zero
	}
	v := nd.vals[i&(pvW-1)]
	if v == nil {
		return p.zero
	}
	return v
}

func (p *PVec) set(i int32, v Value) *PVec {
	q := *p
	q.root = pvSet(p.root, int(p.depth), i, v)
	return &q
}

func pvSet(nd *pvNode, d int, i int32, v Value) *pvNode {
	m := &pvNode{}
	if nd != nil {
		*m = *nd
	}
	if d == 0 {
		vs := make([]Value, pvW)
		copy(vs, m.vals)
		vs[i&(pvW-1)] = v
		m.vals = vs
		return m
	}
	k := (i >> (uint(d) * pvBits)) & (pvW - 1)
	m.kids[k] = pvSet(m.kids[k], d-1, i, v)
	return m
}

// setRange sets consecutive elements.
func (p *PVec) setRange(off int32, vs []Value) *PVec {
	if len(vs) == 0 {
		return p
	}
	q := *p
	q.root = pvSetRange(p.root, int(p.depth), 0, off, vs)
	return &q
}

func pvSetRange(nd *pvNode, d int, base, off int32, vs []Value) *pvNode {
	span := int32(1) << (uint(d+1) * pvBits)
	lo, hi := off, off+int32(len(vs))
	if hi <= base || lo >= base+span {
		return nd
	}
	m := &pvNode{}
	if nd != nil {
		*m = *nd
	}
	if d == 0 {
		nv := make([]Value, pvW)
		copy(nv, m.vals)
		for k := int32(0); k < pvW; k++ {
			if x := base + k; x >= lo && x < hi {
				nv[k] = vs[x-off]
			}
		}
		m.vals = nv
		return m
	}
	sub := int32(1) << (uint(d) * pvBits)
	for k := int32(0); k < pvW; k++ {
		m.kids[k] = pvSetRange(m.kids[k], d-1, base+k*sub, off, vs)
	}
	return m
}

// ---- element access on aggregates ----

func elemGet(v Value, i int32) Value {
	switch v := v.(type) {
	case *Agg:
		return v.e[i]
	case *PVec:
		return v.get(i)
	case *Opaque:
		return v
	}
	panic(unsupported(fmt.Sprintf("element %d of %T", i, v)))
}

func elemSet(v Value, i int32, x Value) Value {
	switch v := v.(type) {
	case *Agg:
		n := &Agg{e: make([]Value, len(v.e))}
		copy(n.e, v.e)
		n.e[i] = x
		return n
	case *PVec:
		return v.set(i, x)
	}
	panic(unsupported(fmt.Sprintf("set element %d of %T", i, v)))
}

// ---- identity keys ----

// vkey returns a canonical key for a fully concrete immutable value, or ok=false.
func (ex *Exec) vkey(v Value) (string, bool) {
	switch v := v.(type) {
	case nil:
		return "nil", true
	case *Term:
		if v.isConst() {
			return "i" + strconv.Itoa(int(v.w)) + ":" + strconv.FormatUint(v.val, 16), true
		}
		return "", false
	case Str:
		return "s" + strconv.Itoa(len(v)) + ":" + string(v), true
	case Float:
		return "f" + strconv.FormatFloat(float64(v), 'g', -1, 64), true
	case Ptr:
		pid := int32(0)
		if v.path != nil {
			pid = v.path.id
		}
		return "p" + strconv.Itoa(int(v.obj)) + "." + strconv.Itoa(int(pid)), true
	case Slice:
		pid := int32(0)
		if v.path != nil {
			pid = v.path.id
		}
		return fmt.Sprintf("l%d.%d.%d.%d.%d", v.obj, pid, v.off, v.n, v.c), true
	case MapV:
		return "m" + strconv.Itoa(int(v.obj)), true
	case *Closure:
		if v == nil {
			return "fnil", true
		}
		if v.key != "" {
			return v.key, true
		}
		var sb strings.Builder
		if v.fn != nil {
			fmt.Fprintf(&sb, "c%p", v.fn)
		} else {
			fmt.Fprintf(&sb, "c%p", v)
		}
		for _, b := range v.bind {
			k, ok := ex.vkey(b)
			if !ok {
				k = fmt.Sprintf("?%p", v)
			}
			sb.WriteString("," + k)
		}
		v.key = sb.String()
		return v.key, true
	case Iface:
		if v.t == nil {
			return "I0", true
		}
		k, ok := ex.vkey(v.v)
		if !ok {
			return "", false
		}
		return "I" + strconv.Itoa(ex.typeID(v.t)) + ":" + k, true
	case *Agg:
		var sb strings.Builder
		sb.WriteString("{")
		for _, e := range v.e {
			k, ok := ex.vkey(e)
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteString(";")
		}
		sb.WriteString("}")
		return sb.String(), true
	case *PVec:
		var sb strings.Builder
		sb.WriteString("[")
		for i := int32(0); i < v.n; i++ {
			k, ok := ex.vkey(v.get(i))
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteString(";")
		}
		return sb.String(), true
	}
	return "", false
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *SymStr:
		y, ok := b.(*SymStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.fn == nil || x.fn != y.fn || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameValue(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && sameValue(x.v, y.v)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameValue(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case *PVec:
		y, ok := b.(*PVec)
		return ok && (x == y || x.n == y.n && x.root == y.root && sameValue(x.zero, y.zero))
	case *Union:
		y, ok := b.(*Union)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !sameValue(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x == y
	case *RVal:
		y, ok := b.(*RVal)
		return ok && (x == y || x.t == y.t && x.addr == y.addr && sameValue(x.v, y.v))
	case Str, Float, Ptr, Slice, MapV, StrByte, BuiltinV:
		return a == b
	}
	return false
}

// ---- merging ----

const maxAlts = 6000

// expandByte turns a lazy byte into a plain value.
func (ex *Exec) expandByte(b StrByte) Value {
	if v, ok := ex.sbMemo[b]; ok {
		return v
	}
	var alts []Alt
	for _, a := range b.s.alts {
		switch s := a.v.(type) {
		case Str:
			if int(b.i) < len(s) {
				alts = append(alts, Alt{a.g, ex.tt.BV(8, uint64(s[b.i]))})
			}
		case *SymStr:
			if int(b.i) < len(s.b) {
				alts = append(alts, Alt{a.g, s.b[b.i]})
			}
		}
	}
	v := ex.mergeAlts(alts)
	ex.sbMemo[b] = v
	return v
}

// mergeAlts combines mutually exclusive alternatives that are exhaustive under
// the current path condition.
func (ex *Exec) mergeAlts(alts []Alt) Value {
	if len(alts) == 0 {
		return nil
	}
	if len(alts) == 1 {
		return alts[0].v
	}
	same := true
	for _, a := range alts[1:] {
		if !sameValue(a.v, alts[0].v) {
			same = false
			break
		}
	}
	if same {
		return alts[0].v
	}
	// dead (undefined) registers and nil
	for _, a := range alts {
		if a.v == nil {
			// one side undefined: keep the defined ones
			var r []Alt
			for _, b := range alts {
				if b.v != nil {
					r = append(r, b)
				}
			}
			return ex.mergeAlts(r)
		}
	}
	// flatten
	flat := make([]Alt, 0, len(alts))
	for _, a := range alts {
		v := a.v
		if u, ok := v.(*Union); ok {
			for _, b := range u.alts {
				g := ex.tt.And(a.g, b.g)
				if !g.isFalse() {
					flat = append(flat, Alt{g, b.v})
				}
			}
		} else if !a.g.isFalse() {
			flat = append(flat, a)
		}
	}
	if len(flat) == 0 {
		return alts[0].v
	}
	for _, a := range flat {
		if o, ok := a.v.(*Opaque); ok {
			return o
		}
	}
	switch f := flat[0].v.(type) {
	case StrByte:
		allsb := true
		for _, a := range flat {
			if _, ok := a.v.(StrByte); !ok {
				allsb = false
			}
		}
		if allsb {
			// lazily merge: union of the source strings at equal index
			return ex.mergeStrBytes(flat)
		}
		return ex.mergeAlts(ex.expandAll(flat))
	case *Term:
		for _, a := range flat {
			if _, ok := a.v.(StrByte); ok {
				return ex.mergeAlts(ex.expandAll(flat))
			}
		}
		if f.w == 0 {
			var ts []*Term
			for _, a := range flat {
				t, ok := a.v.(*Term)
				if !ok {
					return ex.mixed(flat)
				}
				ts = append(ts, ex.tt.And(a.g, t))
			}
			return ex.orTerms(ts)
		}
		allConst := true
		for _, a := range flat {
			t, ok := a.v.(*Term)
			if !ok {
				return ex.mixed(flat)
			}
			if !t.isConst() {
				allConst = false
			}
		}
		if allConst {
			return ex.dedupe(flat)
		}
		// group identical, then ite chain
		d := ex.dedupeAlts(flat)
		if len(d) == 1 {
			return d[0].v
		}
		r := d[len(d)-1].v.(*Term)
		for i := len(d) - 2; i >= 0; i-- {
			r = ex.tt.Ite(d[i].g, d[i].v.(*Term), r)
		}
		return r
	case *Agg:
		n := len(f.e)
		for _, a := range flat {
			g, ok := a.v.(*Agg)
			if !ok || len(g.e) != n {
				return ex.mixed(flat)
			}
		}
		d := ex.dedupeAlts(flat)
		if len(d) == 1 {
			return d[0].v
		}
		out := &Agg{e: make([]Value, n)}
		col := make([]Alt, len(d))
		for i := 0; i < n; i++ {
			for j, a := range d {
				col[j] = Alt{a.g, a.v.(*Agg).e[i]}
			}
			out.e[i] = ex.mergeAlts(append([]Alt(nil), col...))
		}
		return out
	case *PVec:
		for _, a := range flat {
			g, ok := a.v.(*PVec)
			if !ok || g.n != f.n {
				return ex.mixed(flat)
			}
		}
		return ex.mergePVecs(flat)
	case Iface:
		// group by dynamic type
		type grp struct {
			t    types.Type
			alts []Alt
		}
		var gs []*grp
		for _, a := range flat {
			x, ok := a.v.(Iface)
			if !ok {
				return ex.mixed(flat)
			}
			var g *grp
			for _, h := range gs {
				if h.t == x.t {
					g = h
				}
			}
			if g == nil {
				g = &grp{t: x.t}
				gs = append(gs, g)
			}
			g.alts = append(g.alts, Alt{a.g, x.v})
		}
		var out []Alt
		for _, g := range gs {
			if g.t == nil {
				out = append(out, Alt{ex.orAlts(g.alts), nilIface})
				continue
			}
			v := ex.mergeAlts(g.alts)
			if u, ok := v.(*Union); ok {
				// keep the interface alternatives flat
				for _, a := range u.alts {
					out = append(out, Alt{a.g, Iface{g.t, a.v}})
				}
				continue
			}
			out = append(out, Alt{ex.orAlts(g.alts), Iface{g.t, v}})
		}
		if len(out) == 1 {
			return out[0].v
		}
		return &Union{out}
	case *RVal:
		return ex.mixed(flat)
	}
	return ex.dedupe(flat)
}

func (ex *Exec) expandAll(flat []Alt) []Alt {
	out := make([]Alt, 0, len(flat))
	for _, a := range flat {
		if b, ok := a.v.(StrByte); ok {
			a.v = ex.expandByte(b)
		}
		out = append(out, a)
	}
	return out
}

func (ex *Exec) mergeStrBytes(flat []Alt) Value {
	i := flat[0].v.(StrByte).i
	for _, a := range flat {
		if a.v.(StrByte).i != i {
			return ex.mergeAlts(ex.expandAll(flat))
		}
	}
	var alts []Alt
	for _, a := range flat {
		for _, b := range a.v.(StrByte).s.alts {
			alts = append(alts, Alt{ex.tt.And(a.g, b.g), b.v})
		}
	}
	k := ""
	for _, a := range alts {
		s, ok := a.v.(Str)
		if !ok {
			return ex.mergeAlts(ex.expandAll(flat))
		}
		k += strconv.Itoa(int(a.g.id)) + "=" + strconv.Itoa(len(s)) + string(s) + "|"
	}
	u, ok := ex.suMemo[k]
	if !ok {
		v := ex.mergeAlts(alts)
		if u, ok = v.(*Union); !ok {
			if s, ok := v.(Str); ok {
				return ex.tt.BV(8, uint64(s[i]))
			}
			return ex.mergeAlts(ex.expandAll(flat))
		}
		ex.suMemo[k] = u
	}
	return StrByte{u, i}
}

func (ex *Exec) mixed(alts []Alt) Value { return ex.dedupe(alts) }

func (ex *Exec) orTerms(ts []*Term) *Term {
	if len(ts) <= 8 {
		return ex.tt.Or(ts...)
	}
	return ex.tt.OrFlat(ts)
}

func (ex *Exec) orAlts(alts []Alt) *Term {
	ts := make([]*Term, len(alts))
	for i, a := range alts {
		ts[i] = a.g
	}
	return ex.orTerms(ts)
}

func (ex *Exec) dedupe(alts []Alt) Value {
	d := ex.dedupeAlts(alts)
	if len(d) == 1 {
		return d[0].v
	}
	if len(d) > maxAlts {
		panic(unsupported("too many alternatives"))
	}
	if len(d) > 64 {
		// large integer unions become terms
		all := true
		for _, a := range d {
			if t, ok := a.v.(*Term); !ok || t.w == 0 {
				all = false
			}
		}
		if all {
			r := d[len(d)-1].v.(*Term)
			for i := len(d) - 2; i >= 0; i-- {
				r = ex.tt.Ite(d[i].g, d[i].v.(*Term), r)
			}
			return r
		}
	}
	return &Union{d}
}

func (ex *Exec) dedupeAlts(alts []Alt) []Alt {
	if len(alts) <= 12 {
		out := make([]Alt, 0, len(alts))
		var ors [][]*Term
	next:
		for _, a := range alts {
			for i := range out {
				if sameValue(out[i].v, a.v) {
					ors[i] = append(ors[i], a.g)
					continue next
				}
			}
			out = append(out, a)
			ors = append(ors, []*Term{a.g})
		}
		for i := range out {
			if len(ors[i]) > 1 {
				out[i].g = ex.orTerms(ors[i])
			}
		}
		return out
	}
	idx := map[string]int{}
	var out []Alt
	var ors [][]*Term
	for _, a := range alts {
		k, ok := ex.vkey(a.v)
		if !ok {
			found := false
			for i := range out {
				if sameValue(out[i].v, a.v) {
					ors[i] = append(ors[i], a.g)
					found = true
					break
				}
			}
			if !found {
				out = append(out, a)
				ors = append(ors, []*Term{a.g})
			}
			continue
		}
		if i, ok := idx[k]; ok {
			ors[i] = append(ors[i], a.g)
			continue
		}
		idx[k] = len(out)
		out = append(out, a)
		ors = append(ors, []*Term{a.g})
	}
	for i := range out {
		if len(ors[i]) > 1 {
			out[i].g = ex.orTerms(ors[i])
		}
	}
	return out
}

func (ex *Exec) mergePVecs(alts []Alt) Value {
	f := alts[0].v.(*PVec)
	out := &PVec{n: f.n, depth: f.depth, zero: f.zero}
	zs := make([]Alt, len(alts))
	roots := make([]*pvNode, len(alts))
	gs := make([]*Term, len(alts))
	for i, a := range alts {
		zs[i] = Alt{a.g, a.v.(*PVec).zero}
		roots[i] = a.v.(*PVec).root
		gs[i] = a.g
	}
	out.zero = ex.mergeAlts(zs)
	out.root = ex.mergePV(gs, roots, int(f.depth), out.zero)
	return out
}

func (ex *Exec) mergePV(gs []*Term, ns []*pvNode, d int, zero Value) *pvNode {
	same := true
	for _, n := range ns[1:] {
		if n != ns[0] {
			same = false
		}
	}
	if same {
		return ns[0]
	}
	out := &pvNode{}
	if d == 0 {
		out.vals = make([]Value, pvW)
		for k := 0; k < pvW; k++ {
			alts := make([]Alt, len(ns))
			all := true
			for i, n := range ns {
				var v Value
				if n != nil {
					v = n.vals[k]
				}
				if v != nil {
					all = false
				} else {
					v = zero
				}
				alts[i] = Alt{gs[i], v}
			}
			if all {
				continue
			}
			out.vals[k] = ex.mergeAlts(alts)
		}
		return out
	}
	for k := 0; k < pvW; k++ {
		kids := make([]*pvNode, len(ns))
		for i, n := range ns {
			if n != nil {
				kids[i] = n.kids[k]
			}
		}
		out.kids[k] = ex.mergePV(gs, kids, d-1, zero)
	}
	return out
}

// alternatives returns the alternatives of v (a single true-guarded one when v
// is not a union).
func (ex *Exec) alternatives(v Value) []Alt {
	if u, ok := v.(*Union); ok {
		return u.alts
	}
	if b, ok := v.(StrByte); ok {
		return ex.alternatives(ex.expandByte(b))
	}
	return []Alt{{ex.tt.True, v}}
}

// feasibleAlts returns the alternatives of v that are possible in st.
func (ex *Exec) feasibleAlts(st *State, v Value) []Alt {
	u, ok := v.(*Union)
	if !ok {
		return ex.alternatives(v)
	}
	out := make([]Alt, 0, len(u.alts))
	for _, a := range u.alts {
		if ex.feasible(ex.tt.And(st.pc, a.g)) {
			out = append(out, a)
		}
	}
	return out
}

// lift applies f to each alternative of v.
func (ex *Exec) lift(v Value, f func(Value) Value) Value {
	u, ok := v.(*Union)
	if !ok {
		if b, ok := v.(StrByte); ok {
			return ex.lift(ex.expandByte(b), f)
		}
		return f(v)
	}
	alts := make([]Alt, len(u.alts))
	for i, a := range u.alts {
		alts[i] = Alt{a.g, f(a.v)}
	}
	return ex.mergeAlts(alts)
}

// product enumerates the feasible combinations of the alternatives of vs.
func (ex *Exec) product(st *State, vs []Value, f func(g *Term, vs []Value)) {
	cur := make([]Value, len(vs))
	n := 0
	for _, v := range vs {
		if _, ok := v.(*Union); ok {
			n++
		}
	}
	var rec func(i int, g *Term)
	rec = func(i int, g *Term) {
		if i == len(vs) {
			f(g, append([]Value(nil), cur...))
			return
		}
		v := vs[i]
		if b, ok := v.(StrByte); ok {
			v = ex.expandByte(b)
		}
		u, ok := v.(*Union)
		if !ok {
			cur[i] = v
			rec(i+1, g)
			return
		}
		for _, a := range u.alts {
			ng := ex.tt.And(g, a.g)
			if ng.isFalse() {
				continue
			}
			if n > 1 && !ex.feasible(ex.tt.And(st.pc, ng)) {
				continue
			}
			cur[i] = a.v
			rec(i+1, ng)
		}
	}
	rec(0, ex.tt.True)
}

// liftN applies f to each feasible combination of alternatives of vs.
func (ex *Exec) liftN(st *State, vs []Value, f func(vs []Value) Value) Value {
	any := false
	for _, v := range vs {
		switch v.(type) {
		case *Union, StrByte:
			any = true
		}
	}
	if !any {
		return f(vs)
	}
	var alts []Alt
	ex.product(st, vs, func(g *Term, c []Value) { alts = append(alts, Alt{g, f(c)}) })
	if len(alts) == 0 {
		panic(deadPath{})
	}
	return ex.mergeAlts(alts)
}

func (ex *Exec) valueString(v Value) string {
	switch v := v.(type) {
	case *Term:
		return v.String()
	case Str:
		return strconv.Quote(string(v))
	case *Union:
		var s []string
		for _, a := range v.alts {
			s = append(s, ex.valueString(a.v))
		}
		sort.Strings(s)
		if len(s) > 12 {
			s = append(s[:12], "...")
		}
		return "U<" + strings.Join(s, " | ") + ">"
	case *Agg:
		var s []string
		for _, e := range v.e {
			s = append(s, ex.valueString(e))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return "(" + v.t.String() + ")" + ex.valueString(v.v)
	case *Opaque:
		return "opaque(" + v.why + ")"
	case *Closure:
		if v == nil {
			return "nilfunc"
		}
		if v.fn != nil {
			return v.fn.String()
		}
		return v.iname
	}
	return fmt.Sprintf("%T%v", v, v)
}
