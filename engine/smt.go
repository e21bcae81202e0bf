package main

import (
	"bufio"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// Smt renders terms as SMT-LIB text.
type Smt struct {
	in     *bufio.Writer
	tt     *TermTable
	done   map[int32]bool
	vars   map[string]string // name -> symbol
	rev    []*Term
	axioms int
}

func (s *Smt) put(x string) { io.WriteString(s.in, x) }

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Smt) ref(t *Term) string {
	if t.op == opConst {
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	}
	if t.op == opVar {
		return s.vars[t.name]
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define emits definitions for t and everything below it.
func (s *Smt) define(t *Term) {
	type frame struct {
		t *Term
		i int
	}
	st := []frame{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == opConst || s.done[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != opConst && !s.done[a.id] {
				st = append(st, frame{a, 0})
			}
			continue
		}
		x := f.t
		s.done[x.id] = true
		st = st[:len(st)-1]
		if x.op == opVar {
			sym := fmt.Sprintf("v%d", len(s.rev))
			s.vars[x.name] = sym
			s.rev = append(s.rev, x)
			s.put("(declare-const " + sym + " " + sortName(x.w) + ")\n")
			continue
		}
		var b strings.Builder
		b.WriteString("(define-fun t" + strconv.Itoa(int(x.id)) + " () " + sortName(x.w) + " ")
		switch x.op {
		case opNot:
			b.WriteString("(not " + s.ref(x.args[0]) + ")")
		case opAnd:
			b.WriteString("(and")
			for _, a := range x.args {
				b.WriteString(" " + s.ref(a))
			}
			b.WriteString(")")
		case opExtract:
			fmt.Fprintf(&b, "((_ extract %d 0) %s)", x.w-1, s.ref(x.args[0]))
		case opZext:
			fmt.Fprintf(&b, "((_ zero_extend %d) %s)", x.w-x.args[0].w, s.ref(x.args[0]))
		case opSext:
			fmt.Fprintf(&b, "((_ sign_extend %d) %s)", x.w-x.args[0].w, s.ref(x.args[0]))
		default:
			n, ok := opNames[x.op]
			if !ok {
				panic(fmt.Sprintf("smt: op %d", x.op))
			}
			b.WriteString("(" + n)
			for _, a := range x.args {
				b.WriteString(" " + s.ref(a))
			}
			b.WriteString(")")
		}
		b.WriteString(")\n")
		s.put(b.String())
	}
}

func (s *Smt) addAxioms() {
	for ; s.axioms < len(s.tt.axioms); s.axioms++ {
		a := s.tt.axioms[s.axioms]
		s.define(a)
		s.put("(assert " + s.ref(a) + ")\n")
	}
}

// parseVal reads ((v3 #b101)), ((v3 true)), ((v3 (_ bv5 3))).
func parseVal(l string) uint64 {
	l = strings.Trim(l, "() ")
	f := strings.Fields(l)
	if len(f) < 2 {
		return 0
	}
	v := strings.Trim(f[1], "()")
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#b"):
		x, _ := strconv.ParseUint(v[2:], 2, 64)
		return x
	case strings.HasPrefix(v, "#x"):
		x, _ := strconv.ParseUint(v[2:], 16, 64)
		return x
	case v == "_" && len(f) >= 3 && strings.HasPrefix(f[2], "bv"):
		x, _ := strconv.ParseUint(strings.Trim(f[2], "()")[2:], 10, 64)
		return x
	}
	return 0
}
