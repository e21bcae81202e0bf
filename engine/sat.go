package main

// A small incremental CDCL solver used only to prune infeasible branches while
// executing. Every "infeasible" answer is recorded and later confirmed by z3.

type lit int32 // 2*var + sign (sign 1 = negated)

func mkLit(v int32, neg bool) lit {
	if neg {
		return lit(2*v + 1)
	}
	return lit(2 * v)
}
func (l lit) not() lit   { return l ^ 1 }
func (l lit) v() int32   { return int32(l >> 1) }
func (l lit) sign() bool { return l&1 == 1 }

type clause struct {
	lits    []lit
	learned bool
	act     float32
}

type watch struct {
	c   *clause
	blk lit
	bin bool
}

type Sat struct {
	tt       *TermTable
	varOf    map[int32]int32 // term id -> var
	termOf   []*Term
	watches  [][]watch
	assign   []int8 // 0 unknown, 1 true, -1 false
	level    []int32
	reason   []*clause
	activity []float64
	phase    []bool
	seen     []bool
	inc      float64
	trail    []lit
	lim      []int
	qhead    int
	learned  []*clause
	unsat    bool
	coneMark []int32
	coneGen  int32
	axDone   int
	axVars   []int32

	heap    []int32
	heapPos []int32

	models    []*satModel
	modelNext int
	stats     struct{ queries, satHits, solves, conflicts, unsats int }
	memo      map[int32]bool
}

type satModel struct {
	vals map[int32]bool // boolean var term id -> value
	memo []uint8        // 0 unknown, 1 false, 2 true
}

func NewSat(tt *TermTable) *Sat {
	s := &Sat{tt: tt, varOf: map[int32]int32{}, inc: 1, memo: map[int32]bool{}}
	return s
}

func (s *Sat) newVar(t *Term) int32 {
	v := int32(len(s.termOf))
	s.termOf = append(s.termOf, t)
	s.watches = append(s.watches, nil, nil)
	s.assign = append(s.assign, 0)
	s.level = append(s.level, 0)
	s.reason = append(s.reason, nil)
	s.activity = append(s.activity, 0)
	s.phase = append(s.phase, false)
	s.seen = append(s.seen, false)
	s.coneMark = append(s.coneMark, 0)
	s.heapPos = append(s.heapPos, -1)
	s.varOf[t.id] = v
	return v
}

// litOf returns the literal of a boolean (blasted) non-constant term.
func (s *Sat) litOf(t *Term) lit {
	neg := false
	if t.op == opNot {
		neg = true
		t = t.args[0]
	}
	if v, ok := s.varOf[t.id]; ok {
		return mkLit(v, neg)
	}
	switch t.op {
	case opVar:
		return mkLit(s.newVar(t), neg)
	case opAnd:
		ls := make([]lit, len(t.args))
		for i, a := range t.args {
			ls[i] = s.litOf(a)
		}
		v := s.newVar(t)
		me := mkLit(v, false)
		big := make([]lit, 0, len(ls)+1)
		big = append(big, me)
		for _, l := range ls {
			s.addClause([]lit{me.not(), l}, false)
			big = append(big, l.not())
		}
		s.addClause(big, false)
		return mkLit(v, neg)
	case opConst:
		v := s.newVar(t)
		s.addClause([]lit{mkLit(v, t.val == 0)}, false)
		return mkLit(v, neg)
	}
	panic("sat: unexpected op")
}

func (s *Sat) val(l lit) int8 {
	a := s.assign[l.v()]
	if l.sign() {
		return -a
	}
	return a
}

// addClause must be called at decision level 0.
func (s *Sat) addClause(ls []lit, learned bool) *clause {
	if !learned {
		// simplify at level 0
		out := ls[:0:0]
		for _, l := range ls {
			switch s.val(l) {
			case 1:
				if s.level[l.v()] == 0 {
					return nil
				}
			case -1:
				if s.level[l.v()] == 0 {
					continue
				}
			}
			out = append(out, l)
		}
		ls = out
	}
	switch len(ls) {
	case 0:
		s.unsat = true
		return nil
	case 1:
		if s.val(ls[0]) == -1 {
			s.unsat = true
		} else if s.val(ls[0]) == 0 {
			s.enqueue(ls[0], nil)
		}
		return nil
	}
	c := &clause{lits: ls, learned: learned}
	bin := len(ls) == 2
	s.watches[ls[0].not()] = append(s.watches[ls[0].not()], watch{c, ls[1], bin})
	s.watches[ls[1].not()] = append(s.watches[ls[1].not()], watch{c, ls[0], bin})
	if learned {
		s.learned = append(s.learned, c)
	}
	return c
}

func (s *Sat) enqueue(l lit, r *clause) {
	v := l.v()
	if l.sign() {
		s.assign[v] = -1
	} else {
		s.assign[v] = 1
	}
	s.level[v] = int32(len(s.lim))
	s.reason[v] = r
	s.trail = append(s.trail, l)
}

func (s *Sat) propagate() *clause {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.qhead++
		np := p.not()
		ws := s.watches[p]
		n := 0
		for i := 0; i < len(ws); i++ {
			w := ws[i]
			bv := s.val(w.blk)
			if bv == 1 {
				ws[n] = w
				n++
				continue
			}
			c := w.c
			if w.bin {
				ws[n] = w
				n++
				if bv == -1 {
					n += copy(ws[n:], ws[i+1:])
					s.watches[p] = ws[:n]
					s.qhead = len(s.trail)
					return c
				}
				s.enqueue(w.blk, c)
				continue
			}
			if c.lits == nil {
				continue // deleted
			}
			if c.lits[0] == np {
				c.lits[0], c.lits[1] = c.lits[1], c.lits[0]
			}
			first := c.lits[0]
			if first != w.blk && s.val(first) == 1 {
				ws[n] = watch{c, first, false}
				n++
				continue
			}
			found := false
			for k := 2; k < len(c.lits); k++ {
				if s.val(c.lits[k]) != -1 {
					c.lits[1], c.lits[k] = c.lits[k], c.lits[1]
					q := c.lits[1].not()
					s.watches[q] = append(s.watches[q], watch{c, first, false})
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[n] = watch{c, first, false}
			n++
			if s.val(first) == -1 {
				n += copy(ws[n:], ws[i+1:])
				s.watches[p] = ws[:n]
				s.qhead = len(s.trail)
				return c
			}
			s.enqueue(first, c)
		}
		s.watches[p] = ws[:n]
	}
	return nil
}

func (s *Sat) cancel(lvl int) {
	if len(s.lim) <= lvl {
		return
	}
	for i := len(s.trail) - 1; i >= s.lim[lvl]; i-- {
		v := s.trail[i].v()
		s.phase[v] = s.assign[v] == 1
		s.assign[v] = 0
		s.reason[v] = nil
		if s.coneMark[v] == s.coneGen && s.heapPos[v] < 0 {
			s.heapInsert(v)
		}
	}
	s.trail = s.trail[:s.lim[lvl]]
	s.lim = s.lim[:lvl]
	s.qhead = len(s.trail)
}

func (s *Sat) bump(v int32) {
	s.activity[v] += s.inc
	if s.activity[v] > 1e100 {
		for i := range s.activity {
			s.activity[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.heapPos[v] >= 0 {
		s.up(int(s.heapPos[v]))
	}
}

func (s *Sat) analyze(confl *clause) ([]lit, int) {
	out := []lit{0}
	path := 0
	var p lit = -1
	idx := len(s.trail) - 1
	var clear []int32
	for {
		for _, q := range confl.lits {
			if p >= 0 && q == p {
				continue
			}
			v := q.v()
			if !s.seen[v] && s.level[v] > 0 {
				s.seen[v] = true
				clear = append(clear, v)
				s.bump(v)
				if int(s.level[v]) == len(s.lim) {
					path++
				} else {
					out = append(out, q)
				}
			}
		}
		for !s.seen[s.trail[idx].v()] {
			idx--
		}
		p = s.trail[idx]
		idx--
		confl = s.reason[p.v()]
		s.seen[p.v()] = false
		path--
		if path == 0 {
			break
		}
	}
	out[0] = p.not()
	// drop literals implied by the others
	j := 1
	for _, q := range out[1:] {
		r := s.reason[q.v()]
		keep := r == nil
		if !keep {
			for _, x := range r.lits {
				if x.v() != q.v() && !s.seen[x.v()] && s.level[x.v()] > 0 {
					keep = true
					break
				}
			}
		}
		if keep {
			out[j] = q
			j++
		}
	}
	out = out[:j]
	for _, v := range clear {
		s.seen[v] = false
	}
	bt := 0
	if len(out) > 1 {
		mi := 1
		for i := 2; i < len(out); i++ {
			if s.level[out[i].v()] > s.level[out[mi].v()] {
				mi = i
			}
		}
		out[1], out[mi] = out[mi], out[1]
		bt = int(s.level[out[1].v()])
	}
	return out, bt
}

// heap ordered by activity
func (s *Sat) less(a, b int32) bool { return s.activity[a] > s.activity[b] }
func (s *Sat) up(i int) {
	x := s.heap[i]
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(x, s.heap[p]) {
			break
		}
		s.heap[i] = s.heap[p]
		s.heapPos[s.heap[i]] = int32(i)
		i = p
	}
	s.heap[i] = x
	s.heapPos[x] = int32(i)
}
func (s *Sat) down(i int) {
	x := s.heap[i]
	for {
		c := 2*i + 1
		if c >= len(s.heap) {
			break
		}
		if c+1 < len(s.heap) && s.less(s.heap[c+1], s.heap[c]) {
			c++
		}
		if !s.less(s.heap[c], x) {
			break
		}
		s.heap[i] = s.heap[c]
		s.heapPos[s.heap[i]] = int32(i)
		i = c
	}
	s.heap[i] = x
	s.heapPos[x] = int32(i)
}
func (s *Sat) heapInsert(v int32) {
	s.heap = append(s.heap, v)
	s.heapPos[v] = int32(len(s.heap) - 1)
	s.up(len(s.heap) - 1)
}
func (s *Sat) heapPop() int32 {
	x := s.heap[0]
	s.heapPos[x] = -1
	last := s.heap[len(s.heap)-1]
	s.heap = s.heap[:len(s.heap)-1]
	if len(s.heap) > 0 {
		s.heap[0] = last
		s.heapPos[last] = 0
		s.down(0)
	}
	return x
}

func (s *Sat) cone(t *Term, out []int32) []int32 {
	if t.op == opNot {
		t = t.args[0]
	}
	v, ok := s.varOf[t.id]
	if !ok || s.coneMark[v] == s.coneGen {
		return out
	}
	s.coneMark[v] = s.coneGen
	out = append(out, v)
	if t.op == opAnd {
		for _, a := range t.args {
			out = s.cone(a, out)
		}
	}
	return out
}

// Feasible reports whether t (with the table's axioms) may be satisfiable.
func (s *Sat) Feasible(t *Term) bool {
	if t.isConst() {
		return t.val == 1
	}
	s.stats.queries++
	bt := s.tt.blastBool(t)
	if bt.isConst() {
		return bt.val == 1
	}
	if r, ok := s.memo[bt.id]; ok {
		return r
	}
	for i := range s.models {
		m := s.models[(s.modelNext+len(s.models)-1-i)%len(s.models)]
		if s.evalModel(m, bt) {
			s.stats.satHits++
			s.memo[bt.id] = true
			return true
		}
	}
	r := s.solve(bt)
	s.memo[bt.id] = r
	if !r {
		s.stats.unsats++
	}
	return r
}

func (s *Sat) evalModel(m *satModel, t *Term) bool {
	neg := false
	if t.op == opNot {
		neg = true
		t = t.args[0]
	}
	if int(t.id) >= len(m.memo) {
		n := len(s.tt.terms) + 1024
		nm := make([]uint8, n)
		copy(nm, m.memo)
		m.memo = nm
	}
	if x := m.memo[t.id]; x != 0 {
		return (x == 2) != neg
	}
	var r bool
	switch t.op {
	case opConst:
		r = t.val == 1
	case opVar:
		r = m.vals[t.id]
	case opAnd:
		r = true
		for _, a := range t.args {
			if !s.evalModel(m, a) {
				r = false
				break
			}
		}
	default:
		panic("evalModel")
	}
	if r {
		m.memo[t.id] = 2
	} else {
		m.memo[t.id] = 1
	}
	return r != neg
}

func (s *Sat) solve(t *Term) bool {
	s.stats.solves++
	if s.unsat {
		return false
	}
	s.cancel(0)
	for s.axDone < len(s.tt.axioms) {
		a := s.tt.blastBool(s.tt.axioms[s.axDone])
		s.axDone++
		if a.isTrue() {
			continue
		}
		l := s.litOf(a)
		s.addClause([]lit{l}, false)
	}
	top := s.litOf(t)
	if s.propagate() != nil {
		s.unsat = true
	}
	if s.unsat {
		return false
	}
	s.coneGen++
	for _, v := range s.heap {
		s.heapPos[v] = -1
	}
	s.heap = s.heap[:0]
	cone := s.cone(t, nil)
	for _, a := range s.tt.axioms {
		b := s.tt.blastBool(a)
		cone = s.cone(b, cone)
	}
	for _, v := range cone {
		s.heapInsert(v)
	}
	conflicts := 0
	restart := 100
	for {
		confl := s.propagate()
		if confl != nil {
			s.stats.conflicts++
			conflicts++
			if len(s.lim) == 0 {
				s.unsat = true
				return false
			}
			if len(s.lim) == 1 {
				// conflict depends on the assumption only
				ls, _ := s.analyze(confl)
				s.cancel(0)
				s.addLearned(ls)
				if s.propagate() != nil {
					s.unsat = true
				}
				if s.unsat {
					return false
				}
				if s.val(top) == -1 {
					return false
				}
				continue
			}
			ls, bt := s.analyze(confl)
			s.cancel(bt)
			s.addLearned(ls)
			s.inc /= 0.95
			continue
		}
		if conflicts > restart {
			conflicts = 0
			restart += restart / 2
			s.cancel(0)
			s.reduce()
			continue
		}
		if len(s.lim) == 0 {
			switch s.val(top) {
			case -1:
				return false
			}
			s.lim = append(s.lim, len(s.trail))
			if s.val(top) == 0 {
				s.enqueue(top, nil)
			}
			continue
		}
		// decide
		var next int32 = -1
		for len(s.heap) > 0 {
			v := s.heapPop()
			if s.assign[v] == 0 {
				next = v
				break
			}
		}
		if next < 0 {
			m := &satModel{vals: map[int32]bool{}}
			for _, v := range cone {
				if s.termOf[v].op == opVar {
					m.vals[s.termOf[v].id] = s.assign[v] == 1
				}
			}
			const K = 24
			if len(s.models) < K {
				s.models = append(s.models, m)
				s.modelNext = len(s.models) % K
			} else {
				s.models[s.modelNext] = m
				s.modelNext = (s.modelNext + 1) % K
			}
			s.cancel(0)
			return true
		}
		s.lim = append(s.lim, len(s.trail))
		s.enqueue(mkLit(next, !s.phase[next]), nil)
	}
}

func (s *Sat) addLearned(ls []lit) {
	if len(ls) == 1 {
		if len(s.lim) != 0 {
			s.cancel(0)
		}
		if s.val(ls[0]) == -1 {
			s.unsat = true
			return
		}
		if s.val(ls[0]) == 0 {
			s.enqueue(ls[0], nil)
		}
		return
	}
	c := s.addClause(ls, true)
	s.enqueue(ls[0], c)
}

func (s *Sat) reduce() {
	if len(s.learned) < 20000 {
		return
	}
	keep := s.learned[:0]
	for i, c := range s.learned {
		if len(c.lits) > 3 && i < len(s.learned)/2 {
			c.lits = nil
			continue
		}
		keep = append(keep, c)
	}
	s.learned = keep
}
