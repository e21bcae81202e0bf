package main

import (
	"fmt"
	"os"
	"strings"
)

// cnf writes the bit-blasted query as DIMACS; it returns the variable of each
// boolean input term, and false when an operator was only approximated.
func cnfOf(tt *TermTable, t *Term) (nv int, clauses [][]int32, vars map[int32]*Term, exact bool) {
	exact = true
	vars = map[int32]*Term{}
	idx := map[int32]int32{}
	var lit func(t *Term) int32
	lit = func(t *Term) int32 {
		neg := int32(1)
		if t.op == opNot {
			neg = -1
			t = t.args[0]
		}
		if v, ok := idx[t.id]; ok {
			return neg * v
		}
		switch t.op {
		case opVar:
			if strings.HasPrefix(t.name, "blast!") {
				exact = false
			}
			nv++
			v := int32(nv)
			idx[t.id] = v
			vars[v] = t
			return neg * v
		case opAnd:
			ls := make([]int32, len(t.args))
			for i, a := range t.args {
				ls[i] = lit(a)
			}
			nv++
			v := int32(nv)
			idx[t.id] = v
			big := []int32{v}
			for _, l := range ls {
				clauses = append(clauses, []int32{-v, l})
				big = append(big, -l)
			}
			clauses = append(clauses, big)
			return neg * v
		case opConst:
			nv++
			v := int32(nv)
			idx[t.id] = v
			if t.val == 1 {
				clauses = append(clauses, []int32{v})
			} else {
				clauses = append(clauses, []int32{-v})
			}
			return neg * v
		}
		panic("cnf: op")
	}
	for _, a := range tt.axioms {
		b := tt.blastBool(a)
		if b.isTrue() {
			continue
		}
		clauses = append(clauses, []int32{lit(b)})
	}
	b := tt.blastBool(t)
	clauses = append(clauses, []int32{lit(b)})
	return
}

// dumpQuery writes a query as SMT-LIB and DIMACS, for experiments.
func dumpQuery(tt *TermTable, t *Term, base string) {
	script, _ := smtScript(tt, t, false)
	os.WriteFile(base+".smt2", script, 0o644)
	nv, cl, _, exact := cnfOf(tt, t)
	fmt.Fprintln(os.Stderr, base, "exact", exact, nv, len(cl))
	os.WriteFile(base+".cnf", cnfBytes(nv, cl), 0o644)
}
