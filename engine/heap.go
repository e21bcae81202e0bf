package main

import (
	"fmt"
	"sort"
	"strings"
)

type ownTok struct{ _ byte }

const hBits = 5
const hW = 1 << hBits
const hLevels = 4

type hNode struct {
	owner *ownTok
	kids  []*hNode
	vals  []Value
}

// Heap maps object ids to contents; it is persistent with in-place updates on
// nodes owned by the current state.
type Heap struct {
	root  *hNode
	owner *ownTok
}

func newHeap() *Heap { return &Heap{owner: &ownTok{}} }

// fork returns a second heap with the same contents; both lose ownership.
func (h *Heap) fork() *Heap {
	h.owner = &ownTok{}
	return &Heap{root: h.root, owner: &ownTok{}}
}

func (h *Heap) get(id int32) Value {
	n := h.root
	for l := hLevels - 1; l > 0; l-- {
		if n == nil {
			return nil
		}
		n = n.kids[(id>>(uint(l)*hBits))&(hW-1)]
	}
	if n == nil {
		return nil
	}
	return n.vals[id&(hW-1)]
}

func (h *Heap) set(id int32, v Value) { h.root = h.setN(h.root, hLevels-1, id, v) }

func (h *Heap) setN(n *hNode, l int, id int32, v Value) *hNode {
	if n == nil {
		n = &hNode{owner: h.owner}
		if l == 0 {
			n.vals = make([]Value, hW)
		} else {
			n.kids = make([]*hNode, hW)
		}
	} else if n.owner != h.owner {
		m := &hNode{owner: h.owner}
		if l == 0 {
			m.vals = append([]Value(nil), n.vals...)
		} else {
			m.kids = append([]*hNode(nil), n.kids...)
		}
		n = m
	}
	if l == 0 {
		n.vals[id&(hW-1)] = v
		return n
	}
	k := (id >> (uint(l) * hBits)) & (hW - 1)
	n.kids[k] = h.setN(n.kids[k], l-1, id, v)
	return n
}

// mergeHeaps merges heaps under exclusive guards.
func (ex *Exec) mergeHeaps(gs []*Term, hs []*Heap) *Heap {
	ns := make([]*hNode, len(hs))
	for i, h := range hs {
		ns[i] = h.root
	}
	out := &Heap{owner: &ownTok{}}
	out.root = ex.mergeHN(gs, ns, hLevels-1, out.owner)
	return out
}

func (ex *Exec) mergeHN(gs []*Term, ns []*hNode, l int, owner *ownTok) *hNode {
	var first *hNode
	same := true
	for i, n := range ns {
		if i == 0 {
			first = n
		} else if n != first {
			same = false
		}
	}
	if same {
		return first
	}
	// nodes missing in some heaps: objects only exist on the other paths
	var pg []*Term
	var pn []*hNode
	same = true
	for i, n := range ns {
		if n == nil {
			continue
		}
		pg = append(pg, gs[i])
		pn = append(pn, n)
		if n != pn[0] {
			same = false
		}
	}
	if same {
		return pn[0]
	}
	out := &hNode{owner: owner}
	if l == 0 {
		out.vals = make([]Value, hW)
		for k := 0; k < hW; k++ {
			var alts []Alt
			for i, n := range pn {
				if v := n.vals[k]; v != nil {
					alts = append(alts, Alt{pg[i], v})
				}
			}
			if len(alts) == 0 {
				continue
			}
			out.vals[k] = ex.mergeObj(alts)
		}
		return out
	}
	out.kids = make([]*hNode, hW)
	kids := make([]*hNode, len(pn))
	for k := 0; k < hW; k++ {
		any := false
		for i, n := range pn {
			kids[i] = n.kids[k]
			if kids[i] != nil {
				any = true
			}
		}
		if any {
			out.kids[k] = ex.mergeHN(pg, append([]*hNode(nil), kids...), l-1, owner)
		}
	}
	return out
}

func (ex *Exec) mergeObj(alts []Alt) Value {
	if len(alts) == 1 {
		return alts[0].v
	}
	if m0, ok := alts[0].v.(*MapObj); ok {
		same := true
		for _, a := range alts {
			if a.v != Value(m0) {
				same = false
			}
		}
		if same {
			return m0
		}
		return ex.mergeMaps(alts)
	}
	return ex.mergeAlts(alts)
}

// ---- map objects ----

type MapEnt struct {
	k    Value
	v    Value
	pres *Term
	ck   string // canonical key when concrete
}

type MapObj struct {
	owner *ownTok
	ents  []MapEnt
	idx   map[string]int // concrete key -> entry
	sym   bool           // some key is not concrete
	fixed bool           // entries are in the order of iteration
}

func newMapObj(owner *ownTok) *MapObj { return &MapObj{owner: owner, idx: map[string]int{}} }

func (m *MapObj) clone(owner *ownTok) *MapObj {
	n := &MapObj{owner: owner, sym: m.sym, fixed: m.fixed, ents: append([]MapEnt(nil), m.ents...), idx: make(map[string]int, len(m.idx))}
	for k, v := range m.idx {
		n.idx[k] = v
	}
	return n
}

func (ex *Exec) mergeMaps(alts []Alt) Value {
	out := newMapObj(nil)
	type col struct {
		have []bool
		alts []Alt
		ps   []*Term
		k    Value
		ck   string
	}
	var cols []*col
	idx := map[string]*col{}
	for ai, a := range alts {
		m := a.v.(*MapObj)
		if m.sym {
			out.sym = true
		}
		for _, e := range m.ents {
			ck := e.ck
			if ck == "" {
				// symbolic keys: identify by position identity
				for _, c := range cols {
					if c.ck == "" && sameValue(c.k, e.k) && !c.have[ai] {
						ck = "\x00same"
						c.have[ai] = true
						c.alts = append(c.alts, Alt{a.g, e.v})
						c.ps = append(c.ps, ex.tt.And(a.g, e.pres))
						break
					}
				}
				if ck != "" {
					continue
				}
				c := &col{k: e.k, have: make([]bool, len(alts))}
				c.have[ai] = true
				c.alts = []Alt{{a.g, e.v}}
				c.ps = []*Term{ex.tt.And(a.g, e.pres)}
				cols = append(cols, c)
				continue
			}
			c := idx[ck]
			if c == nil {
				c = &col{k: e.k, ck: ck, have: make([]bool, len(alts))}
				idx[ck] = c
				cols = append(cols, c)
			}
			c.have[ai] = true
			c.alts = append(c.alts, Alt{a.g, e.v})
			p := e.pres
			c.ps = append(c.ps, ex.tt.And(a.g, p))
		}
	}
	for _, c := range cols {
		pres := ex.orTerms(c.ps)
		all := len(c.alts) == len(alts)
		if all {
			// present on every path with a true guard: present
			t := true
			for i, a := range alts {
				m := a.v.(*MapObj)
				_ = m
				if c.ps[i] != a.g {
					t = false
				}
			}
			if t {
				pres = ex.tt.True
			}
		}
		if c.ck != "" {
			out.idx[c.ck] = len(out.ents)
		}
		out.ents = append(out.ents, MapEnt{k: c.k, v: ex.mergeAlts(c.alts), pres: pres, ck: c.ck})
	}
	return out
}

func (ex *Exec) mapWritable(st *State, id int32) *MapObj {
	m := st.heap.get(id).(*MapObj)
	if m.owner != st.heap.owner {
		m = m.clone(st.heap.owner)
		st.heap.set(id, m)
	}
	return m
}

// mapSet stores m[k]=v under guard g (k has no top-level union).
func (ex *Exec) mapSet1(st *State, id int32, g *Term, k, v Value) {
	m := ex.mapWritable(st, id)
	ck, conc := ex.vkey(k)
	if conc && !m.sym {
		if i, ok := m.idx[ck]; ok {
			e := &m.ents[i]
			e.v = ex.mergeUnder(g, v, e.v, e.pres)
			e.pres = ex.tt.Or(e.pres, g)
			return
		}
		m.idx[ck] = len(m.ents)
		m.ents = append(m.ents, MapEnt{k: k, v: v, pres: g, ck: ck})
		return
	}
	// symbolic key: update every possibly equal entry; add one for the rest
	match := ex.tt.False
	for i := range m.ents {
		e := &m.ents[i]
		eq := ex.tt.And(e.pres, ex.eq(st, e.k, k))
		if eq.isFalse() {
			continue
		}
		ge := ex.tt.And(g, eq)
		e.v = ex.mergeUnder(ge, v, e.v, e.pres)
		match = ex.tt.Or(match, eq)
	}
	ng := ex.tt.And(g, ex.tt.Not(match))
	if ng.isFalse() || !ex.feasible(ex.tt.And(st.pc, ng)) {
		return
	}
	if conc {
		if i, ok := m.idx[ck]; ok {
			e := &m.ents[i]
			e.v = ex.mergeUnder(ng, v, e.v, e.pres)
			e.pres = ex.tt.Or(e.pres, ng)
			return
		}
		m.idx[ck] = len(m.ents)
		m.ents = append(m.ents, MapEnt{k: k, v: v, pres: ng, ck: ck})
		return
	}
	m.sym = true
	m.ents = append(m.ents, MapEnt{k: k, v: v, pres: ng})
}

// mergeUnder yields nv under g, ov otherwise (ov only meaningful under opres).
func (ex *Exec) mergeUnder(g *Term, nv, ov Value, opres *Term) Value {
	if g.isTrue() {
		return nv
	}
	if opres != nil && ex.tt.And(opres, ex.tt.Not(g)).isFalse() {
		return nv
	}
	return ex.mergeAlts([]Alt{{g, nv}, {ex.tt.Not(g), ov}})
}

func (ex *Exec) mapDelete1(st *State, id int32, g *Term, k Value) {
	m := ex.mapWritable(st, id)
	ck, conc := ex.vkey(k)
	if conc && !m.sym {
		if i, ok := m.idx[ck]; ok {
			m.ents[i].pres = ex.tt.And(m.ents[i].pres, ex.tt.Not(g))
		}
		return
	}
	for i := range m.ents {
		e := &m.ents[i]
		eq := ex.eq(st, e.k, k)
		e.pres = ex.tt.And(e.pres, ex.tt.Not(ex.tt.And(g, eq)))
	}
}

// mapGet returns the value and presence of key k (no top-level union).
func (ex *Exec) mapGet1(st *State, m *MapObj, k Value, zero Value) (Value, *Term) {
	ck, conc := ex.vkey(k)
	if conc && !m.sym {
		i, ok := m.idx[ck]
		if !ok {
			return zero, ex.tt.False
		}
		e := m.ents[i]
		if e.pres.isTrue() {
			return e.v, e.pres
		}
		return ex.mergeAlts([]Alt{{e.pres, e.v}, {ex.tt.Not(e.pres), zero}}), e.pres
	}
	var alts []Alt
	match := ex.tt.False
	for _, e := range m.ents {
		eq := ex.tt.And(e.pres, ex.eq(st, e.k, k))
		if eq.isFalse() {
			continue
		}
		if !ex.feasible(ex.tt.And(st.pc, eq)) {
			continue
		}
		alts = append(alts, Alt{eq, e.v})
		match = ex.tt.Or(match, eq)
	}
	if !match.isTrue() {
		alts = append(alts, Alt{ex.tt.Not(match), zero})
	}
	return ex.mergeAlts(alts), match
}

// ---- program state ----

type Event struct {
	g    *Term // relative to the path
	kind string
	v    Value
}

type evList struct {
	prev *evList
	ev   Event
	n    int
}

type State struct {
	pc   *Term
	heap *Heap
	logs map[string]*evList
}

func (s *State) fork() *State {
	n := &State{pc: s.pc, heap: s.heap.fork()}
	if s.logs != nil {
		n.logs = make(map[string]*evList, len(s.logs))
		for k, v := range s.logs {
			n.logs[k] = v
		}
	}
	return n
}

func (s *State) log(ch string, v Value, g *Term) {
	if s.logs == nil {
		s.logs = map[string]*evList{}
	}
	p := s.logs[ch]
	n := 1
	if p != nil {
		n = p.n + 1
	}
	s.logs[ch] = &evList{prev: p, ev: Event{g: g, v: v}, n: n}
}

func (ex *Exec) mergeLogs(gs []*Term, sts []*State) map[string]*evList {
	chs := map[string]bool{}
	for _, s := range sts {
		for k := range s.logs {
			chs[k] = true
		}
	}
	if len(chs) == 0 {
		return nil
	}
	out := map[string]*evList{}
	var names []string
	for k := range chs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, ch := range names {
		ls := make([]*evList, len(sts))
		same := true
		for i, s := range sts {
			ls[i] = s.logs[ch]
			if ls[i] != ls[0] {
				same = false
			}
		}
		if same {
			out[ch] = ls[0]
			continue
		}
		// common prefix
		com := ls[0]
		for _, l := range ls[1:] {
			com = commonPrefix(com, l)
		}
		cur := com
		for i, l := range ls {
			var rest []Event
			for x := l; x != com; x = x.prev {
				rest = append(rest, x.ev)
			}
			for j := len(rest) - 1; j >= 0; j-- {
				e := rest[j]
				e.g = ex.tt.And(gs[i], e.g)
				n := 1
				if cur != nil {
					n = cur.n + 1
				}
				cur = &evList{prev: cur, ev: e, n: n}
			}
		}
		out[ch] = cur
	}
	return out
}

func commonPrefix(a, b *evList) *evList {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.n > b.n {
			a = a.prev
		} else if b.n > a.n {
			b = b.prev
		} else {
			a, b = a.prev, b.prev
		}
	}
	return a
}

// commonConj splits pcs into their common conjuncts and the remainders.
func (ex *Exec) commonConj(pcs []*Term) (*Term, []*Term) {
	if len(pcs) == 1 {
		return pcs[0], []*Term{ex.tt.True}
	}
	cnt := map[*Term]int{}
	for _, p := range pcs {
		for _, c := range conj(p) {
			cnt[c]++
		}
	}
	var com []*Term
	for _, c := range conj(pcs[0]) {
		if cnt[c] == len(pcs) {
			com = append(com, c)
		}
	}
	gs := make([]*Term, len(pcs))
	for i, p := range pcs {
		var r []*Term
		for _, c := range conj(p) {
			if cnt[c] != len(pcs) {
				r = append(r, c)
			}
		}
		gs[i] = ex.tt.mkAnd(r)
	}
	return ex.tt.mkAnd(com), gs
}

// mergeStates merges exclusive states; it returns the merged state and the guards used.
func (ex *Exec) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0], []*Term{ex.tt.True}
	}
	ex.stats.merges++
	pcs := make([]*Term, len(sts))
	hs := make([]*Heap, len(sts))
	for i, s := range sts {
		pcs[i] = s.pc
		hs[i] = s.heap
	}
	com, gs := ex.commonConj(pcs)
	disj := ex.orTerms(gs)
	if !disj.isTrue() && !ex.feasible(ex.tt.And(com, ex.tt.Not(disj))) {
		disj = ex.tt.True
	}
	out := &State{pc: ex.tt.And(com, disj), heap: ex.mergeHeaps(gs, hs), logs: ex.mergeLogs(gs, sts)}
	return out, gs
}

func (s *State) describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "pc=%v", s.pc)
	return sb.String()
}
