package main

import (
	"container/heap"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type deadPath struct{}
type unsupErr struct{ msg string }
type needInit struct{ pkg *ssa.Package }
type budgetErr struct{ msg string }

func unsupported(msg string) any { return unsupErr{msg} }

// VC is a condition that must be unsatisfiable.
type VC struct {
	kind  string // assert, panic, unwind, inconclusive
	label string
	cond  *Term
	where string
}

type Obs struct {
	label string
	g     *Term
	v     Value
}

type CoverPt struct {
	label string
	cond  *Term
}

type Exec struct {
	tt    *TermTable
	sat   *Sat
	prog  *ssa.Program
	ld    *Loaded
	infos map[*ssa.Function]*fnInfo

	nextObj int32
	paths   map[[2]int32]*Path
	pathSeq int32
	globals map[*ssa.Global]int32
	typeIDs typeutil.Map
	typeSeq int
	typeCan typeutil.Map
	zeros   typeutil.Map

	initDone  map[*ssa.Package]bool
	initWant  map[*ssa.Package]bool
	fnValues  map[*ssa.Function]*Closure
	sbMemo    map[StrByte]Value
	suMemo    map[string]*Union
	implMemo  map[[2]int]bool
	splitMemo map[string]Value

	vcs     []VC
	covers  []CoverPt
	obs     []Obs
	pruned  []*Term
	inputs  []*Input
	preset  map[string]uint64 // values fixed by case splitting
	inputBy map[string]*Input
	exits   []*exitSink
	loss    int

	depth    int
	steps    int64
	deadline time.Time
	maxDepth int
	loopCap  int32
	stack    []*ssa.Function
	mapOrder int // 0 insertion, 1 reversed, 2 symbolic
	orderSeq int
	stats    struct{ merges, forks, calls, solverQ int64 }
	fnsSeen  map[*ssa.Function]bool
	trace    bool
	verbose  bool
	harness  string
	incon    map[string]int
	tier     string
	lineMemo map[*evList][]lineSlot
	smallBV  [3][]*Term
	prof     map[string]int64
}

type Input struct {
	name string
	kind string // bool, choice, byte
	n    int
	t    *Term
}

type exitSink struct {
	sts   []*State
	codes []Value
}

func NewExec(ld *Loaded) *Exec {
	tt := NewTermTable()
	ex := &Exec{tt: tt, sat: NewSat(tt), prog: ld.prog, ld: ld, infos: map[*ssa.Function]*fnInfo{}, paths: map[[2]int32]*Path{},
		globals: map[*ssa.Global]int32{}, initDone: map[*ssa.Package]bool{}, initWant: map[*ssa.Package]bool{},
		fnValues: map[*ssa.Function]*Closure{}, sbMemo: map[StrByte]Value{}, suMemo: map[string]*Union{}, implMemo: map[[2]int]bool{}, splitMemo: map[string]Value{},
		inputBy: map[string]*Input{}, fnsSeen: map[*ssa.Function]bool{}, incon: map[string]int{}, lineMemo: map[*evList][]lineSlot{}, maxDepth: 220, loopCap: 3000}
	ex.typeIDs.SetHasher(ld.hasher)
	return ex
}

// ---- feasibility ----

func (ex *Exec) feasible(t *Term) bool {
	if t.isConst() {
		return t.val == 1
	}
	if ex.sat.Feasible(t) {
		return true
	}
	ex.pruned = append(ex.pruned, t)
	return false
}

// ---- function info ----

type fnInfo struct {
	fn     *ssa.Function
	name   string
	regs   map[ssa.Value]int
	nregs  int
	blocks []*blkInfo
	intr   intrinsic
	ready  bool
	split  bool
}

type blkInfo struct {
	b     *ssa.BasicBlock
	pos   int32
	comps []int32 // positions of enclosing heads, outermost first
	live  []uint64
	head  bool
}

func (ex *Exec) info(fn *ssa.Function) *fnInfo {
	if in, ok := ex.infos[fn]; ok {
		return in
	}
	in := &fnInfo{fn: fn, name: fnName(fn), regs: map[ssa.Value]int{}}
	ex.infos[fn] = in
	in.intr = lookupIntrinsic(in.name)
	in.split = splitCalls[in.name]
	if in.intr == nil {
		ex.prepare(in)
	}
	return in
}

// prepare numbers the registers and orders the blocks of a function.
func (ex *Exec) prepare(in *fnInfo) {
	if in.ready {
		return
	}
	in.ready = true
	fn := in.fn
	ex.ensureBuilt(fn)
	for _, p := range fn.Params {
		in.regs[p] = in.nregs
		in.nregs++
	}
	for _, p := range fn.FreeVars {
		in.regs[p] = in.nregs
		in.nregs++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				in.regs[v] = in.nregs
				in.nregs++
			}
		}
	}
	in.blocks = make([]*blkInfo, len(fn.Blocks))
	for i, b := range fn.Blocks {
		in.blocks[i] = &blkInfo{b: b}
	}
	in.wto()
	in.liveness()
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) ensureBuilt(fn *ssa.Function) {
	ex.ld.mu.Lock()
	defer ex.ld.mu.Unlock()
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		f.Pkg.Build()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

func (in *fnInfo) wto() {
	n := len(in.blocks)
	dfn := make([]int, n)
	const inf = 1 << 30
	num := 0
	var stack []int
	type elem struct {
		v    int
		comp []*elem
		loop bool
	}
	var visit func(v int, part *[]*elem) int
	component := func(v int) []*elem {
		var part []*elem
		for _, s := range in.fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &part)
			}
		}
		return part
	}
	visit = func(v int, part *[]*elem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range in.fn.Blocks[v].Succs {
			var min int
			if dfn[s.Index] == 0 {
				min = visit(s.Index, part)
			} else {
				min = dfn[s.Index]
			}
			if min <= head {
				head = min
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				c := component(v)
				*part = append(*part, &elem{v: v, comp: c, loop: true})
			} else {
				*part = append(*part, &elem{v: v})
			}
		}
		return head
	}
	var part []*elem
	if n > 0 {
		visit(0, &part)
	}
	pos := int32(0)
	var lin func(p []*elem, comps []int32)
	lin = func(p []*elem, comps []int32) {
		for i := len(p) - 1; i >= 0; i-- { // built in reverse
			e := p[i]
			b := in.blocks[e.v]
			b.pos = pos
			pos++
			if e.loop {
				b.head = true
				c2 := append(append([]int32(nil), comps...), b.pos)
				b.comps = c2
				lin(e.comp, c2)
			} else {
				b.comps = comps
			}
		}
	}
	lin(part, nil)
}

func (in *fnInfo) liveness() {
	words := (in.nregs + 63) / 64
	use := make([][]uint64, len(in.blocks))
	def := make([][]uint64, len(in.blocks))
	for i, bi := range in.blocks {
		use[i] = make([]uint64, words)
		def[i] = make([]uint64, words)
		bi.live = make([]uint64, words)
		var ops []*ssa.Value
		for _, ins := range bi.b.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				ops = ins.Operands(ops[:0])
				for _, o := range ops {
					if *o == nil {
						continue
					}
					if r, ok := in.regs[*o]; ok && def[i][r/64]>>(uint(r)%64)&1 == 0 {
						use[i][r/64] |= 1 << (uint(r) % 64)
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				r := in.regs[v]
				def[i][r/64] |= 1 << (uint(r) % 64)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(in.blocks) - 1; i >= 0; i-- {
			bi := in.blocks[i]
			out := make([]uint64, words)
			for _, s := range bi.b.Succs {
				si := in.blocks[s.Index]
				for w := range out {
					out[w] |= si.live[w]
				}
				pi := -1
				for k, p := range s.Preds {
					if p == bi.b {
						pi = k
						for _, ins := range s.Instrs {
							ph, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							if r, ok := in.regs[ph.Edges[pi]]; ok {
								out[r/64] |= 1 << (uint(r) % 64)
							}
						}
					}
				}
			}
			for w := range out {
				nv := use[i][w] | (out[w] &^ def[i][w])
				if nv != bi.live[w] {
					bi.live[w] = nv
					changed = true
				}
			}
		}
	}
	// phi results are defined on entry: mark them live so that merging keeps them
	for _, bi := range in.blocks {
		for _, ins := range bi.b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			r := in.regs[ph]
			bi.live[r/64] |= 1 << (uint(r) % 64)
		}
	}
}

// ---- activation state ----

type deferRec struct {
	g    *Term
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type deferList struct {
	prev *deferList
	rec  deferRec
	n    int
}

type fstate struct {
	*State
	regs   []Value
	defers *deferList
	iters  []int32
	// resume at instruction index (used when a Next instruction is retried)
	resume int
}

type bucket struct {
	key   []int32
	blk   *blkInfo
	sts   []*fstate
	index int
}

type bheap []*bucket

func cmpKey(a, b []int32) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}
func (h bheap) Len() int           { return len(h) }
func (h bheap) Less(i, j int) bool { return cmpKey(h[i].key, h[j].key) < 0 }
func (h bheap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *bheap) Push(x any)        { *h = append(*h, x.(*bucket)) }
func (h *bheap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func mkKey(bi *blkInfo, iters []int32) []int32 {
	k := make([]int32, 0, 2*len(bi.comps)+2)
	for i, c := range bi.comps {
		k = append(k, c, iters[i])
	}
	return append(k, bi.pos)
}

type retVal struct {
	st *State
	v  Value
}

type activation struct {
	ex   *Exec
	in   *fnInfo
	fn   *ssa.Function
	wl   bheap
	rets []retVal
}

// run executes fn's body from st; st is replaced by the merged final state.
func (ex *Exec) run(st *State, fn *ssa.Function, args, bind []Value) (Value, bool) {
	in := ex.info(fn)
	ex.prepare(in)
	if len(fn.Blocks) == 0 {
		// assembly routines have plain versions in the run-time support
		if name := plainBody[in.name]; name != "" {
			if f := ex.vrtFunc(name); f != nil {
				return ex.run(st, f, args, nil)
			}
		}
		panic(unsupported("no body: " + in.name))
	}
	ex.fnsSeen[fn] = true
	if ex.depth > ex.maxDepth {
		ex.vc("unwind", "recursion depth in "+in.name, st.pc, in.name)
		ex.loss++
		return nil, false
	}
	ex.depth++
	ex.stack = append(ex.stack, fn)
	defer func() { ex.depth--; ex.stack = ex.stack[:len(ex.stack)-1] }()
	ex.stats.calls++
	var t0 int64
	if ex.prof != nil {
		t0 = ex.steps
	}
	a := &activation{ex: ex, in: in, fn: fn}
	fs := &fstate{State: &State{pc: st.pc, heap: st.heap, logs: st.logs}, regs: make([]Value, in.nregs)}
	for i := range fn.Params {
		if i < len(args) {
			fs.regs[i] = args[i]
		}
	}
	for i := range fn.FreeVars {
		fs.regs[len(fn.Params)+i] = bind[i]
	}
	pc0, loss0 := st.pc, ex.loss
	bi := in.blocks[0]
	fs.iters = make([]int32, len(bi.comps))
	a.push(bi, fs)
	for len(a.wl) > 0 {
		b := heap.Pop(&a.wl).(*bucket)
		fs := a.mergeBucket(b)
		a.runFrom(b.blk, fs)
	}
	if ex.prof != nil {
		ex.prof[in.name] += ex.steps - t0
	}
	if len(a.rets) == 0 {
		return nil, false
	}
	sts := make([]*State, len(a.rets))
	for i, r := range a.rets {
		sts[i] = r.st
	}
	m, gs := ex.mergeStates(sts)
	var res Value
	if len(a.rets) == 1 {
		res = a.rets[0].v
	} else if a.rets[0].v != nil {
		alts := make([]Alt, len(a.rets))
		for i, r := range a.rets {
			alts[i] = Alt{gs[i], r.v}
		}
		res = ex.mergeAlts(alts)
	}
	*st = *m
	if ex.loss == loss0 {
		st.pc = pc0
	}
	return res, true
}

func (a *activation) push(bi *blkInfo, fs *fstate) {
	k := append(mkKey(bi, fs.iters), int32(fs.resume))
	for _, b := range a.wl {
		if cmpKey(b.key, k) == 0 {
			b.sts = append(b.sts, fs)
			return
		}
	}
	heap.Push(&a.wl, &bucket{key: k, blk: bi, sts: []*fstate{fs}})
}

func (a *activation) mergeBucket(b *bucket) *fstate {
	if len(b.sts) == 1 {
		return b.sts[0]
	}
	ex := a.ex
	sts := make([]*State, len(b.sts))
	for i, s := range b.sts {
		sts[i] = s.State
	}
	m, gs := ex.mergeStates(sts)
	out := &fstate{State: m, regs: make([]Value, len(b.sts[0].regs)), iters: b.sts[0].iters, resume: b.sts[0].resume}
	alts := make([]Alt, len(b.sts))
	for r := range out.regs {
		if b.blk.live[r/64]>>(uint(r)%64)&1 == 0 && out.resume == 0 {
			continue
		}
		any := false
		for i, s := range b.sts {
			alts[i] = Alt{gs[i], s.regs[r]}
			if s.regs[r] != nil {
				any = true
			}
		}
		if any {
			out.regs[r] = ex.mergeAlts(append([]Alt(nil), alts...))
		}
	}
	// deferred calls
	same := true
	for _, s := range b.sts {
		if s.defers != b.sts[0].defers {
			same = false
		}
	}
	if same {
		out.defers = b.sts[0].defers
		return out
	}
	com := b.sts[0].defers
	for _, s := range b.sts[1:] {
		com = commonDefers(com, s.defers)
	}
	cur := com
	for i, s := range b.sts {
		var rest []deferRec
		for x := s.defers; x != com; x = x.prev {
			rest = append(rest, x.rec)
		}
		for j := len(rest) - 1; j >= 0; j-- {
			r := rest[j]
			r.g = ex.tt.And(r.g, gs[i])
			n := 1
			if cur != nil {
				n = cur.n + 1
			}
			cur = &deferList{prev: cur, rec: r, n: n}
		}
	}
	out.defers = cur
	return out
}

func commonDefers(a, b *deferList) *deferList {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.n > b.n {
			a = a.prev
		} else if b.n > a.n {
			b = b.prev
		} else {
			a, b = a.prev, b.prev
		}
	}
	return a
}

// itersFor computes the iteration vector for the edge from -> to.
func itersFor(from, to *blkInfo, iters []int32) []int32 {
	n := 0
	for n < len(from.comps) && n < len(to.comps) && from.comps[n] == to.comps[n] {
		n++
	}
	if n == len(to.comps) && n == len(from.comps) && !to.head {
		return iters
	}
	out := make([]int32, len(to.comps))
	copy(out, iters[:n])
	if to.head && n == len(to.comps) {
		out[n-1]++ // back edge
	}
	return out
}

// transfer moves fs along the edge from -> to, evaluating phis.
func (a *activation) transfer(from *blkInfo, to *ssa.BasicBlock, predIdx int, fs *fstate) *blkInfo {
	ti := a.in.blocks[to.Index]
	var vals []Value
	n := 0
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, a.get(fs, ph.Edges[predIdx]))
		n++
	}
	for i := 0; i < n; i++ {
		fs.regs[a.in.regs[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	fs.iters = itersFor(from, ti, fs.iters)
	fs.resume = 0
	if ti.head && fs.iters[len(fs.iters)-1] > a.ex.loopCap {
		a.ex.vc("unwind", fmt.Sprintf("loop in %s iterated more than %d times", a.in.name, a.ex.loopCap), fs.pc, a.in.name)
		a.ex.loss++
		return nil
	}
	return ti
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	k := 0
	for i, p := range to.Preds {
		if p == from {
			if k == nth {
				return i
			}
			k++
		}
	}
	panic("pred")
}

// runFrom executes fs starting at block bi until it leaves the activation or forks.
func (a *activation) runFrom(bi *blkInfo, fs *fstate) {
	for bi != nil {
		next, nfs := a.execBlock(bi, fs)
		if next == nil {
			return
		}
		if len(a.wl) == 0 {
			bi, fs = next, nfs
			continue
		}
		a.push(next, nfs)
		return
	}
}

func (ex *Exec) vc(kind, label string, cond *Term, where string) {
	if cond.isFalse() {
		return
	}
	ex.vcs = append(ex.vcs, VC{kind, label, cond, where})
}

// failIf records that cond leads to a run-time panic and continues without it.
func (ex *Exec) failIf(st *State, cond *Term, what string) {
	if cond.isFalse() {
		return
	}
	c := ex.tt.And(st.pc, cond)
	if !ex.feasible(c) {
		return
	}
	ex.vc("panic", what, c, ex.where())
	ex.loss++
	st.pc = ex.tt.And(st.pc, ex.tt.Not(cond))
	if st.pc.isFalse() || cond.isTrue() || !ex.feasible(st.pc) {
		panic(deadPath{})
	}
}

func (ex *Exec) where() string {
	var s []string
	for i := len(ex.stack) - 1; i >= 0 && len(s) < 6; i-- {
		s = append(s, fnName(ex.stack[i]))
	}
	return strings.Join(s, " < ")
}

func (a *activation) execBlock(bi *blkInfo, fs *fstate) (next *blkInfo, nfs *fstate) {
	ex := a.ex
	depth, sl, sinks := ex.depth, len(ex.stack), len(ex.exits)
	var cur ssa.Instruction
	defer func() {
		if r := recover(); r != nil {
			ex.depth = depth
			ex.stack = ex.stack[:sl]
			ex.exits = ex.exits[:sinks]
			switch e := r.(type) {
			case deadPath:
				ex.loss++
				next = nil
				return
			case unsupErr:
				msg := e.msg + " in " + a.in.name
				if cur != nil && ex.verbose {
					msg += fmt.Sprintf(" at %v [%s]", ex.prog.Fset.Position(cur.Pos()), cur)
				}
				if ex.incon[msg] == 0 && ex.verbose {
					fmt.Fprintln(os.Stderr, "unsupported:", msg, "|", ex.where())
				}
				ex.incon[msg]++
				ex.vc("inconclusive", msg, fs.pc, ex.where())
				ex.loss++
				next = nil
				return
			}
			if _, ok := r.(needInit); !ok {
				if _, ok := r.(budgetErr); !ok && cur != nil && ex.verbose {
					fmt.Fprintf(os.Stderr, "engine panic in %s at %v [%s]: %v\n", a.in.name, ex.prog.Fset.Position(cur.Pos()), cur, r)
				}
			}
			panic(r)
		}
	}()
	instrs := bi.b.Instrs
	for k := fs.resume; k < len(instrs); k++ {
		ins := instrs[k]
		cur = ins
		ex.steps++
		if ex.steps&0x3ff == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			panic(budgetErr{"time budget exhausted"})
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			ti := a.transfer(bi, bi.b.Succs[0], predIndex(bi.b, bi.b.Succs[0], 0), fs)
			return ti, fs
		case *ssa.If:
			c := a.boolOf(fs, a.get(fs, x.Cond))
			s0, s1 := bi.b.Succs[0], bi.b.Succs[1]
			i0 := predIndex(bi.b, s0, 0)
			nth := 0
			if s0 == s1 {
				nth = 1
			}
			i1 := predIndex(bi.b, s1, nth)
			if c.isTrue() {
				return a.transfer(bi, s0, i0, fs), fs
			}
			if c.isFalse() {
				return a.transfer(bi, s1, i1, fs), fs
			}
			pt, pf := ex.tt.And(fs.pc, c), ex.tt.And(fs.pc, ex.tt.Not(c))
			ft, ff := ex.feasible(pt), ex.feasible(pf)
			switch {
			case ft && !ff:
				return a.transfer(bi, s0, i0, fs), fs
			case !ft && ff:
				return a.transfer(bi, s1, i1, fs), fs
			case !ft && !ff:
				panic(deadPath{})
			}
			ex.stats.forks++
			f2 := a.forkState(fs)
			fs.pc = pt
			f2.pc = pf
			if t := a.transfer(bi, s0, i0, fs); t != nil {
				a.push(t, fs)
			}
			if t := a.transfer(bi, s1, i1, f2); t != nil {
				a.push(t, f2)
			}
			return nil, nil
		case *ssa.Return:
			var v Value
			switch len(x.Results) {
			case 0:
			case 1:
				v = a.get(fs, x.Results[0])
			default:
				t := &Agg{e: make([]Value, len(x.Results))}
				for i, r := range x.Results {
					t.e[i] = a.get(fs, r)
				}
				v = t
			}
			a.rets = append(a.rets, retVal{fs.State, v})
			return nil, nil
		case *ssa.Panic:
			v := a.get(fs, x.X)
			ex.vc("panic", "explicit panic: "+ex.panicText(v), fs.pc, ex.where())
			panic(deadPath{})
		case *ssa.Next:
			done := a.execNext(bi, fs, k, x)
			if done {
				return nil, nil
			}
		default:
			a.step(fs, ins)
		}
	}
	panic("block without terminator")
}

func (ex *Exec) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(Str); ok {
			return string(s)
		}
	}
	return ex.valueString(v)
}

func (a *activation) forkState(fs *fstate) *fstate {
	n := &fstate{State: fs.State.fork(), regs: append([]Value(nil), fs.regs...), defers: fs.defers, iters: fs.iters, resume: fs.resume}
	return n
}

// execNext handles iteration over maps and strings. It returns true when the
// state was pushed to the worklist instead of continuing.
func (a *activation) execNext(bi *blkInfo, fs *fstate, k int, x *ssa.Next) bool {
	ex := a.ex
	it := a.get(fs, x.Iter)
	p, ok := it.(Ptr)
	if !ok {
		panic(unsupported("iterator union"))
	}
	ag := fs.heap.get(p.obj).(*Agg)
	reg := a.in.regs[x]
	if x.IsString {
		// {string, pos}
		type alt struct {
			g       *Term
			res, np Value
		}
		var alts []alt
		ex.product(fs.State, []Value{ag.e[0], ag.e[1]}, func(g *Term, vs []Value) {
			pos := int(vs[1].(*Term).val)
			res, np := ex.nextRune(vs[0], pos)
			alts = append(alts, alt{g, res, np})
		})
		ra, pa := make([]Alt, len(alts)), make([]Alt, len(alts))
		for i, al := range alts {
			ra[i] = Alt{al.g, al.res}
			pa[i] = Alt{al.g, al.np}
		}
		fs.regs[reg] = ex.mergeAlts(ra)
		fs.heap.set(p.obj, &Agg{e: []Value{ag.e[0], ex.mergeAlts(pa)}})
		return false
	}
	mid := ag.e[0].(MapV)
	tup := x.Type().(*types.Tuple)
	zero := func(i int) Value { return ex.zero(tup.At(i).Type()) }
	alts := ex.feasibleAlts(fs.State, ag.e[1])
	if len(alts) > 1 {
		// misaligned positions: split
		for i, al := range alts {
			f := fs
			if i < len(alts)-1 {
				f = a.forkState(fs)
			}
			f.pc = ex.tt.And(f.pc, al.g)
			f.heap.set(p.obj, &Agg{e: []Value{ag.e[0], al.v}})
			f.resume = k
			if next, nfs := a.execBlock(bi, f); next != nil {
				a.push(next, nfs)
			}
		}
		return true
	}
	pos := int(alts[0].v.(*Term).val)
	var m *MapObj
	if mid.obj != 0 {
		m = fs.heap.get(mid.obj).(*MapObj)
	}
	for {
		if m == nil || pos >= len(m.ents) {
			fs.regs[reg] = &Agg{e: []Value{ex.tt.False, zero(1), zero(2)}}
			return false
		}
		e := m.ents[pos]
		pos++
		if e.pres.isFalse() {
			continue
		}
		if e.pres.isTrue() {
			fs.heap.set(p.obj, &Agg{e: []Value{ag.e[0], ex.intv(int64(pos))}})
			fs.regs[reg] = &Agg{e: []Value{ex.tt.True, e.k, e.v}}
			return false
		}
		pt, pf := ex.tt.And(fs.pc, e.pres), ex.tt.And(fs.pc, ex.tt.Not(e.pres))
		ft, ff := ex.feasible(pt), ex.feasible(pf)
		if !ft && !ff {
			panic(deadPath{})
		}
		if !ft {
			continue
		}
		fs.heap.set(p.obj, &Agg{e: []Value{ag.e[0], ex.intv(int64(pos))}})
		fs.regs[reg] = &Agg{e: []Value{ex.tt.True, e.k, e.v}}
		if !ff {
			return false
		}
		ex.stats.forks++
		f2 := a.forkState(fs)
		f2.pc = pf
		f2.regs[reg] = nil
		if bi.head {
			f2.iters = append([]int32(nil), f2.iters...)
			f2.iters[len(f2.iters)-1]++
		}
		f2.resume = 0
		// instructions before Next in the block (other than phis) are re-executed; make sure there are none
		if k > 0 {
			for j := 0; j < k; j++ {
				switch bi.b.Instrs[j].(type) {
				case *ssa.Phi, *ssa.DebugRef:
				default:
					f2.resume = k
				}
			}
		}
		fs.pc = pt
		a.push(bi, f2)
		// continue with fs, but in scheduling order
		fs.resume = k + 1
		// emulate continuing: run the rest of this block directly
		next, nfs := a.execBlock(bi, fs)
		if next != nil {
			a.push(next, nfs)
		}
		return true
	}
}

func (ex *Exec) sortedFns() []string {
	var out []string
	for f := range ex.fnsSeen {
		out = append(out, f.String())
	}
	sort.Strings(out)
	return out
}

// plainBody names the versions in package vrt of library routines written in
// assembly.
var plainBody = map[string]string{
	"internal/bytealg.CountString":              "PlainCountString",
	"internal/bytealg.Count":                    "PlainCount",
	"internal/bytealg.IndexByteString":          "PlainIndexByteString",
	"internal/bytealg.LastIndexByteString":      "PlainLastIndexByteString",
	"internal/bytealg.IndexString":              "PlainIndexString",
	"internal/bytealg.Index":                    "PlainIndex",
	"internal/bytealg.CompareString":            "PlainCompareString",
	"internal/bytealg.abigen_runtime_cmpstring": "PlainCompareString",
	"internal/bytealg.Compare":                  "PlainCompare",
}

func (ex *Exec) vrtFunc(name string) *ssa.Function {
	for path, p := range ex.ld.pkgs {
		if strings.HasSuffix(path, "/vrt") {
			return p.Func(name)
		}
	}
	return nil
}
