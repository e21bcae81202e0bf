package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed formulas over booleans (w == 0) and bit-vectors.
type Op uint8

const (
	opConst Op = iota
	opVar
	opNot // boolean negation
	opAnd // n-ary boolean conjunction, args sorted by id, flattened
	opEq  // bit-vector equality
	opUlt
	opSlt
	opIte // bit-vector if-then-else (args[0] boolean)
	opAdd
	opSub
	opMul
	opUdiv
	opUrem
	opSdiv
	opSrem
	opBand
	opBor
	opBxor
	opShl
	opLshr
	opAshr
	opExtract // low bits, w = result width
	opZext
	opSext
)

var opNames = map[Op]string{opEq: "=", opUlt: "bvult", opSlt: "bvslt", opIte: "ite", opAdd: "bvadd", opSub: "bvsub",
	opMul: "bvmul", opUdiv: "bvudiv", opUrem: "bvurem", opSdiv: "bvsdiv", opSrem: "bvsrem", opBand: "bvand", opBor: "bvor",
	opBxor: "bvxor", opShl: "bvshl", opLshr: "bvlshr", opAshr: "bvashr"}

type Term struct {
	id   int32
	op   Op
	w    uint8
	val  uint64
	name string
	args []*Term
	neg  *Term // boolean complement, once built
}

type termKey struct {
	op         Op
	w          uint8
	val        uint64
	a, b, c, d int32
}

type TermTable struct {
	terms  []*Term
	small  map[termKey]*Term
	big    map[string]*Term
	vars   map[string]*Term
	varSeq []*Term
	True   *Term
	False  *Term
	orMemo map[[2]int32]*Term
	bits   map[int32][]*Term
	fresh  int
	axioms []*Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{small: map[termKey]*Term{}, big: map[string]*Term{}, vars: map[string]*Term{}, orMemo: map[[2]int32]*Term{}, bits: map[int32][]*Term{}}
	tt.False = tt.mk(opConst, 0, 0, "")
	tt.True = tt.mk(opConst, 0, 1, "")
	tt.True.neg, tt.False.neg = tt.False, tt.True
	return tt
}

func (tt *TermTable) mk(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	if op == opVar {
		if t, ok := tt.vars[name]; ok {
			if t.w != w {
				panic("variable redeclared with other width: " + name)
			}
			return t
		}
		t := &Term{id: int32(len(tt.terms)), op: op, w: w, name: name}
		tt.terms = append(tt.terms, t)
		tt.vars[name] = t
		tt.varSeq = append(tt.varSeq, t)
		return t
	}
	if len(args) <= 4 {
		k := termKey{op: op, w: w, val: val, a: -1, b: -1, c: -1, d: -1}
		for i, a := range args {
			switch i {
			case 0:
				k.a = a.id
			case 1:
				k.b = a.id
			case 2:
				k.c = a.id
			case 3:
				k.d = a.id
			}
		}
		if t, ok := tt.small[k]; ok {
			return t
		}
		t := &Term{id: int32(len(tt.terms)), op: op, w: w, val: val, args: append([]*Term(nil), args...)}
		tt.terms = append(tt.terms, t)
		tt.small[k] = t
		return t
	}
	var sb strings.Builder
	sb.Grow(len(args)*5 + 4)
	sb.WriteByte(byte(op))
	for _, a := range args {
		x := uint32(a.id)
		sb.WriteByte(byte(x))
		sb.WriteByte(byte(x >> 8))
		sb.WriteByte(byte(x >> 16))
		sb.WriteByte(byte(x >> 24))
	}
	k := sb.String()
	if t, ok := tt.big[k]; ok {
		return t
	}
	t := &Term{id: int32(len(tt.terms)), op: op, w: w, val: val, args: append([]*Term(nil), args...)}
	tt.terms = append(tt.terms, t)
	tt.big[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == opConst }
func (t *Term) isTrue() bool  { return t.op == opConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == opConst && t.w == 0 && t.val == 0 }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}
func (tt *TermTable) BV(w uint8, v uint64) *Term { return tt.mk(opConst, w, v&mask(w), "") }
func (tt *TermTable) Var(name string, w uint8) *Term {
	return tt.mk(opVar, w, 0, name)
}

func (tt *TermTable) Not(a *Term) *Term {
	if a.neg != nil {
		return a.neg
	}
	if a.w != 0 {
		panic("Not on bit-vector")
	}
	n := tt.mk(opNot, 0, 0, "", a)
	a.neg = n
	n.neg = a
	return n
}

// conj returns the conjuncts of a.
func conj(a *Term) []*Term {
	if a.op == opAnd {
		return a.args
	}
	if a.isTrue() {
		return nil
	}
	return []*Term{a}
}

func containsTerm(s []*Term, t *Term) bool {
	// s sorted by id
	lo, hi := 0, len(s)
	for lo < hi {
		m := (lo + hi) / 2
		if s[m].id < t.id {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo < len(s) && s[lo] == t
}

func mergeSorted(a, b []*Term) []*Term {
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func (tt *TermTable) And(ts ...*Term) *Term {
	switch len(ts) {
	case 0:
		return tt.True
	case 1:
		return ts[0]
	}
	r := ts[0]
	for _, t := range ts[1:] {
		r = tt.and2(r, t)
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (tt *TermTable) and2(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a.neg == b {
		return tt.False
	}
	set := mergeSorted(conj(a), conj(b))
	return tt.mkAnd(set)
}

// mkAnd builds the conjunction of a sorted duplicate-free list with one-level simplifications.
func (tt *TermTable) mkAnd(set []*Term) *Term {
	for changed := true; changed; {
		changed = false
		for _, t := range set {
			if t.neg != nil && t.op == opNot && containsTerm(set, t.neg) {
				return tt.False
			}
		}
		for i := 0; i < len(set); i++ {
			t := set[i]
			if t.op != opNot || t.args[0].op != opAnd {
				continue
			}
			inner := t.args[0].args
			// not(x1 and x2 ...) under set: drop xi in set; satisfied when not xi in set.
			var rest []*Term
			sat := false
			if len(inner) > len(set)+8 {
				// the usual case is that the two have nothing in common
				hit := false
				for _, x := range set {
					if containsTerm(inner, x) {
						hit = true
					}
					if x.neg != nil && containsTerm(inner, x.neg) {
						sat = true
						break
					}
				}
				if !hit && !sat {
					continue
				}
			}
			for _, x := range inner {
				if sat {
					break
				}
				if containsTerm(set, x) {
					continue
				}
				if x.neg != nil && containsTerm(set, x.neg) {
					sat = true
					break
				}
				rest = append(rest, x)
			}
			if sat {
				set = append(append([]*Term(nil), set[:i]...), set[i+1:]...)
				changed = true
				break
			}
			if len(rest) == len(inner) {
				continue
			}
			if len(rest) == 0 {
				return tt.False
			}
			nt := tt.Not(tt.mkAnd(rest))
			if nt.isFalse() {
				return tt.False
			}
			ns := append(append([]*Term(nil), set[:i]...), set[i+1:]...)
			set = mergeSorted(ns, conj(nt))
			changed = true
			break
		}
	}
	switch len(set) {
	case 0:
		return tt.True
	case 1:
		return set[0]
	}
	return tt.mk(opAnd, 0, 0, "", set...)
}

func (tt *TermTable) Or(ts ...*Term) *Term {
	r := tt.False
	for _, t := range ts {
		r = tt.or2(r, t)
		if r.isTrue() {
			return r
		}
	}
	return r
}

// OrBal builds a balanced disjunction of many terms without pairwise factoring.
func (tt *TermTable) OrFlat(ts []*Term) *Term {
	var ns []*Term
	for _, t := range ts {
		if t.isTrue() {
			return tt.True
		}
		if t.isFalse() {
			continue
		}
		ns = append(ns, tt.Not(t))
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].id < ns[j].id })
	var set []*Term
	for i, t := range ns {
		if i > 0 && t == ns[i-1] {
			continue
		}
		set = append(set, t)
	}
	switch len(set) {
	case 0:
		return tt.False
	case 1:
		return tt.Not(set[0])
	}
	// keep unflattened: the members are negations
	return tt.Not(tt.mk(opAnd, 0, 0, "", set...))
}

func (tt *TermTable) or2(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a.neg == b {
		return tt.True
	}
	mk := [2]int32{a.id, b.id}
	if a.id > b.id {
		mk = [2]int32{b.id, a.id}
	}
	if t, ok := tt.orMemo[mk]; ok {
		return t
	}
	la, lb := conj(a), conj(b)
	var common, ra, rb []*Term
	i, j := 0, 0
	for i < len(la) && j < len(lb) {
		switch {
		case la[i] == lb[j]:
			common = append(common, la[i])
			i++
			j++
		case la[i].id < lb[j].id:
			ra = append(ra, la[i])
			i++
		default:
			rb = append(rb, lb[j])
			j++
		}
	}
	ra = append(ra, la[i:]...)
	rb = append(rb, lb[j:]...)
	var r *Term
	if len(ra) == 0 || len(rb) == 0 {
		r = tt.mkAnd(common)
	} else {
		na, nb := tt.Not(tt.mkAnd(ra)), tt.Not(tt.mkAnd(rb))
		inner := tt.Not(tt.and2(na, nb))
		if len(common) == 0 {
			r = inner
		} else {
			r = tt.and2(tt.mkAnd(common), inner)
		}
	}
	tt.orMemo[mk] = r
	return r
}

func (tt *TermTable) Implies(a, b *Term) *Term { return tt.Or(tt.Not(a), b) }
func (tt *TermTable) Iff(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isTrue() {
		return b
	}
	if a.isFalse() {
		return tt.Not(b)
	}
	if b.isTrue() {
		return a
	}
	if b.isFalse() {
		return tt.Not(a)
	}
	return tt.Or(tt.And(a, b), tt.And(tt.Not(a), tt.Not(b)))
}

func (tt *TermTable) IteB(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if a.w == 0 {
		return tt.IteB(c, a, b)
	}
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	return tt.mk(opIte, a.w, 0, "", c, a, b)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		return tt.Iff(a, b)
	}
	if a == b {
		return tt.True
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	// zext(x) == const
	x, c := a, b
	if x.isConst() {
		x, c = b, a
	}
	if c.isConst() {
		switch x.op {
		case opZext:
			in := x.args[0]
			if c.val&^mask(in.w) != 0 {
				return tt.False
			}
			return tt.Eq(in, tt.BV(in.w, c.val))
		case opIte:
			// push equality with a constant into ite when a side is constant
			if x.args[1].isConst() || x.args[2].isConst() {
				return tt.IteB(x.args[0], tt.Eq(x.args[1], c), tt.Eq(x.args[2], c))
			}
		}
	}
	return tt.mk(opEq, 0, 0, "", a, b)
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTable) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val < b.val)
	}
	if a == b {
		return tt.False
	}
	return tt.mk(opUlt, 0, 0, "", a, b)
}
func (tt *TermTable) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if a == b {
		return tt.False
	}
	return tt.mk(opSlt, 0, 0, "", a, b)
}

func constFold(op Op, w uint8, x, y uint64) (uint64, bool) {
	switch op {
	case opAdd:
		return x + y, true
	case opSub:
		return x - y, true
	case opMul:
		return x * y, true
	case opBand:
		return x & y, true
	case opBor:
		return x | y, true
	case opBxor:
		return x ^ y, true
	case opUdiv:
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case opUrem:
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case opSdiv:
		if y == 0 {
			return 0, false
		}
		a, b := sext64(x, w), sext64(y, w)
		if b == -1 {
			return uint64(-a), true
		}
		return uint64(a / b), true
	case opSrem:
		if y == 0 {
			return 0, false
		}
		a, b := sext64(x, w), sext64(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a % b), true
	case opShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case opLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case opAshr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s >> y), true
	}
	return 0, false
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin width mismatch op=%v %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		if v, ok := constFold(op, a.w, a.val, b.val); ok {
			return tt.BV(a.w, v)
		}
	}
	switch op {
	case opAdd, opBor, opBxor:
		if a.isConst() && a.val == 0 {
			return b
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case opSub, opShl, opLshr, opAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
	case opBand:
		if a.isConst() && a.val == 0 {
			return a
		}
		if b.isConst() && b.val == 0 {
			return b
		}
		if a.isConst() && a.val == mask(a.w) {
			return b
		}
		if b.isConst() && b.val == mask(b.w) {
			return a
		}
	}
	return tt.mk(op, a.w, 0, "", a, b)
}

func (tt *TermTable) Extract(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.BV(w, a.val)
	}
	if (a.op == opZext || a.op == opSext) && a.args[0].w <= w {
		if a.args[0].w == w {
			return a.args[0]
		}
		return tt.mk(a.op, w, 0, "", a.args[0])
	}
	return tt.mk(opExtract, w, 0, "", a)
}
func (tt *TermTable) Ext(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return tt.BV(w, uint64(sext64(a.val, a.w)))
		}
		return tt.BV(w, a.val)
	}
	if signed {
		return tt.mk(opSext, w, 0, "", a)
	}
	return tt.mk(opZext, w, 0, "", a)
}

func (tt *TermTable) Fresh(prefix string, w uint8) *Term {
	tt.fresh++
	return tt.Var(prefix+"!"+strconv.Itoa(tt.fresh), w)
}

// ---- evaluation under a model ----

type Model map[string]uint64

// evalTerm evaluates t under m with memo.
func (tt *TermTable) evalTerm(t *Term, m Model, memo map[int32]uint64) uint64 {
	if t.op == opConst {
		return t.val
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var r uint64
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.op {
	case opVar:
		r = m[t.name] & mask(max8(t.w, 1))
	case opNot:
		r = 1 - tt.evalTerm(t.args[0], m, memo)
	case opAnd:
		r = 1
		for _, a := range t.args {
			if tt.evalTerm(a, m, memo) == 0 {
				r = 0
				break
			}
		}
	case opIte:
		if tt.evalTerm(t.args[0], m, memo) == 1 {
			r = tt.evalTerm(t.args[1], m, memo)
		} else {
			r = tt.evalTerm(t.args[2], m, memo)
		}
	case opEq:
		r = b(tt.evalTerm(t.args[0], m, memo) == tt.evalTerm(t.args[1], m, memo))
	case opUlt:
		r = b(tt.evalTerm(t.args[0], m, memo) < tt.evalTerm(t.args[1], m, memo))
	case opSlt:
		w := t.args[0].w
		r = b(sext64(tt.evalTerm(t.args[0], m, memo), w) < sext64(tt.evalTerm(t.args[1], m, memo), w))
	case opExtract:
		r = tt.evalTerm(t.args[0], m, memo) & mask(t.w)
	case opZext:
		r = tt.evalTerm(t.args[0], m, memo)
	case opSext:
		r = uint64(sext64(tt.evalTerm(t.args[0], m, memo), t.args[0].w)) & mask(t.w)
	default:
		x, y := tt.evalTerm(t.args[0], m, memo), tt.evalTerm(t.args[1], m, memo)
		v, ok := constFold(t.op, t.w, x, y)
		if !ok {
			v = 0
			if t.op == opUdiv || t.op == opSdiv {
				v = mask(t.w)
			} else {
				v = x
			}
		}
		r = v & mask(t.w)
	}
	memo[t.id] = r
	return r
}

func max8(a, b uint8) uint8 {
	if a > b {
		return a
	}
	return b
}

// ---- bit-blasting (for the internal pruning solver only) ----

func (tt *TermTable) blast(t *Term) []*Term {
	if b, ok := tt.bits[t.id]; ok {
		return b
	}
	w := int(t.w)
	out := make([]*Term, w)
	switch t.op {
	case opConst:
		for i := range out {
			out[i] = tt.Bool(t.val>>uint(i)&1 == 1)
		}
	case opVar:
		for i := range out {
			out[i] = tt.Var(fmt.Sprintf("%s#%d", t.name, i), 0)
		}
	case opIte:
		c := tt.blastBool(t.args[0])
		a, b := tt.blast(t.args[1]), tt.blast(t.args[2])
		for i := range out {
			out[i] = tt.IteB(c, a[i], b[i])
		}
	case opAdd, opSub:
		a, b := tt.blast(t.args[0]), tt.blast(t.args[1])
		c := tt.False
		if t.op == opSub {
			c = tt.True
			nb := make([]*Term, w)
			for i := range nb {
				nb[i] = tt.Not(b[i])
			}
			b = nb
		}
		for i := range out {
			x := tt.Not(tt.Iff(a[i], b[i]))
			out[i] = tt.Not(tt.Iff(x, c))
			c = tt.Or(tt.And(a[i], b[i]), tt.And(x, c))
		}
	case opBand, opBor, opBxor:
		a, b := tt.blast(t.args[0]), tt.blast(t.args[1])
		for i := range out {
			switch t.op {
			case opBand:
				out[i] = tt.And(a[i], b[i])
			case opBor:
				out[i] = tt.Or(a[i], b[i])
			default:
				out[i] = tt.Not(tt.Iff(a[i], b[i]))
			}
		}
	case opExtract:
		copy(out, tt.blast(t.args[0]))
	case opZext, opSext:
		a := tt.blast(t.args[0])
		for i := range out {
			if i < len(a) {
				out[i] = a[i]
			} else if t.op == opSext {
				out[i] = a[len(a)-1]
			} else {
				out[i] = tt.False
			}
		}
	default:
		// over-approximated: unconstrained bits
		if (t.op == opShl || t.op == opLshr || t.op == opAshr) && t.args[1].isConst() {
			a := tt.blast(t.args[0])
			s := int(t.args[1].val)
			if t.args[1].val > 64 {
				s = 64
			}
			for i := range out {
				var j int
				fill := tt.False
				if t.op == opShl {
					j = i - s
				} else {
					j = i + s
					if t.op == opAshr {
						fill = a[len(a)-1]
					}
				}
				if j >= 0 && j < w {
					out[i] = a[j]
				} else {
					out[i] = fill
				}
			}
			break
		}
		for i := range out {
			out[i] = tt.Fresh("blast", 0)
		}
	}
	tt.bits[t.id] = out
	return out
}

// blastBool returns the purely boolean version of a boolean term.
func (tt *TermTable) blastBool(t *Term) *Term {
	if b, ok := tt.bits[t.id]; ok {
		return b[0]
	}
	r := t
	switch t.op {
	case opConst, opVar:
	case opNot:
		r = tt.Not(tt.blastBool(t.args[0]))
	case opAnd:
		same := true
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = tt.blastBool(a)
			if as[i] != a {
				same = false
			}
		}
		if !same {
			r = tt.And(as...)
		}
	case opEq:
		a, b := tt.blast(t.args[0]), tt.blast(t.args[1])
		r = tt.True
		for i := range a {
			r = tt.And(r, tt.Iff(a[i], b[i]))
		}
	case opUlt, opSlt:
		a, b := tt.blast(t.args[0]), tt.blast(t.args[1])
		lt := tt.False
		for i := range a {
			x, y := a[i], b[i]
			if t.op == opSlt && i == len(a)-1 {
				x, y = y, x
			}
			lt = tt.Or(tt.And(tt.Not(x), y), tt.And(tt.Iff(x, y), lt))
		}
		r = lt
	default:
		panic("blastBool: " + opNames[t.op])
	}
	tt.bits[t.id] = []*Term{r}
	return r
}

func (t *Term) String() string { return termStr(t, 6) }

func termStr(t *Term, depth int) string {
	switch t.op {
	case opConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return strconv.FormatUint(t.val, 10)
	case opVar:
		return t.name
	}
	if depth == 0 {
		return "..."
	}
	var sb strings.Builder
	n := opNames[t.op]
	switch t.op {
	case opNot:
		n = "not"
	case opAnd:
		n = "and"
	case opExtract:
		n = "extract"
	case opZext:
		n = "zext"
	case opSext:
		n = "sext"
	}
	sb.WriteString("(" + n)
	for _, a := range t.args {
		sb.WriteString(" " + termStr(a, depth-1))
	}
	sb.WriteString(")")
	return sb.String()
}
