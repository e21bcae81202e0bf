package analyzer

import (
	"go/token"
	"go/types"
	"strings"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// A vgraph is a call graph built by a harness.  It is what the harness lets
// the analysis see in place of the graph computed from source.
type vgraph struct {
	fset  *token.FileSet
	file  *token.File
	prog  *ssa.Program
	tpkgs []*types.Package
	spkgs []*ssa.Package
	pkgs  []*packages.Package
	graph *callgraph.Graph
	fns   []*vfunc
	edges []*vedge
	all   map[*ssa.Function]bool
	caps  []cpb.Capability // capabilities that occur
	byFn  map[*ssa.Function]int
	// order in which the functions are entered into the tables the analysis
	// iterates over
	built bool
}

type vfunc struct {
	fn   *ssa.Function
	node *callgraph.Node
	name string
	pkg  int // index of the package owning it; -1: none
	home int // index of the package it is reported to belong to; -1: none
	cat  cpb.Capability
	refl bool // its source stores a reflection value
	unsf bool // its source converts an unsafe pointer
	rank int  // position in report order
}

type vedge struct {
	from, to int
	site     ssa.CallInstruction
	incl     bool
	exists   bool
	line     int // 0: no position
	edge     *callgraph.Edge
}

func newVgraph(paths ...string) *vgraph {
	g := &vgraph{
		fset:  token.NewFileSet(),
		graph: &callgraph.Graph{Nodes: make(map[*ssa.Function]*callgraph.Node)},
		all:   make(map[*ssa.Function]bool),
		caps:  vgCats[2:],
		byFn:  make(map[*ssa.Function]int),
	}
	g.file = g.fset.AddFile("/src/dir/file.go", -1, 4000)
	lines := make([]int, 40)
	for i := range lines {
		lines[i] = i * 100
	}
	g.file.SetLines(lines)
	g.prog = &ssa.Program{Fset: g.fset}
	for _, p := range paths {
		name := p
		for i := 0; i < len(p); i++ {
			if p[i] == '/' {
				name = p[i+1:]
			}
		}
		tp := types.NewPackage(p, name)
		g.tpkgs = append(g.tpkgs, tp)
		g.spkgs = append(g.spkgs, &ssa.Package{Prog: g.prog, Pkg: tp, Members: map[string]ssa.Member{}})
		g.pkgs = append(g.pkgs, &packages.Package{ID: p, Name: name, PkgPath: p, Types: tp})
	}
	vrt.AllPackagesHook = func([]*packages.Package) *ssa.Program { return g.prog }
	vrt.AllFunctionsHook = func(*ssa.Program) map[*ssa.Function]bool { return g.all }
	vrt.VtaHook = func(map[*ssa.Function]bool) *callgraph.Graph { return g.graph }
	vrt.LoadHook = nil
	return g
}

func vgSig() *types.Signature {
	return types.NewSignatureType(nil, nil, nil, nil, nil, false)
}

// body gives a function an (empty) body.
func (g *vgraph) body(fn *ssa.Function) {
	fn.Blocks = []*ssa.BasicBlock{{}}
}

func (g *vgraph) add(fn *ssa.Function, name string, pkg, home int) int {
	fn.Prog = g.prog
	node := &callgraph.Node{Func: fn, ID: len(g.fns)}
	g.fns = append(g.fns, &vfunc{fn: fn, node: node, name: name, pkg: pkg, home: home})
	g.byFn[fn] = len(g.fns) - 1
	return len(g.fns) - 1
}

// fun adds a plain function of package pkg.
func (g *vgraph) fun(pkg int, name string) int {
	fn := &ssa.Function{Signature: vgSig(), Pkg: g.spkgs[pkg]}
	vrt.SetField(fn, "name", name)
	g.body(fn)
	return g.add(fn, g.tpkgs[pkg].Path()+"."+name, pkg, pkg)
}

// method adds a method of type typ of package pkg.
func (g *vgraph) method(pkg int, typ, name string) int {
	tn := types.NewTypeName(token.NoPos, g.tpkgs[pkg], typ, nil)
	named := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	recv := types.NewVar(token.NoPos, g.tpkgs[pkg], "r", named)
	fn := &ssa.Function{Signature: types.NewSignatureType(recv, nil, nil, nil, nil, false), Pkg: g.spkgs[pkg]}
	vrt.SetField(fn, "name", name)
	g.body(fn)
	return g.add(fn, "("+g.tpkgs[pkg].Path()+"."+typ+")."+name, pkg, pkg)
}

// instance adds an instantiation of a generic function of package pkg; the
// generic function itself is not in the graph.
func (g *vgraph) instance(pkg int, name, targ string) int {
	orig := &ssa.Function{Signature: vgSig(), Pkg: g.spkgs[pkg], Prog: g.prog}
	vrt.SetField(orig, "name", name)
	fn := &ssa.Function{Signature: vgSig()}
	vrt.SetField(fn, "name", name+"["+targ+"]")
	obj := types.NewFunc(token.NoPos, g.tpkgs[pkg], name, vgSig())
	vrt.SetField(orig, "object", obj)
	vrt.SetField(fn, "object", obj)
	vrt.SetField(fn, "topLevelOrigin", orig)
	vrt.SetField(fn, "typeargs", []types.Type{types.Typ[types.Int]})
	g.body(fn)
	return g.add(fn, g.tpkgs[pkg].Path()+"."+name+"["+targ+"]", -1, pkg)
}

// wrapper adds a synthetic function that belongs to no package at all.
func (g *vgraph) wrapper(name string) int {
	fn := &ssa.Function{Signature: vgSig(), Synthetic: "wrapper"}
	vrt.SetField(fn, "name", name)
	g.body(fn)
	return g.add(fn, name, -1, -1)
}

// literal adds a function literal written inside function in.
func (g *vgraph) literal(in int) int {
	outer := g.fns[in]
	n := vgItoa(len(outer.fn.AnonFuncs) + 1)[1:]
	lit := func(outer *ssa.Function) *ssa.Function {
		fn := &ssa.Function{Signature: vgSig(), Pkg: outer.Pkg, Prog: g.prog}
		vrt.SetField(fn, "name", outer.Name()+"$"+n)
		vrt.SetField(fn, "parent", outer)
		vrt.SetField(fn, "anonIdx", int32(len(outer.AnonFuncs)))
		outer.AnonFuncs = append(outer.AnonFuncs, fn)
		return fn
	}
	fn := lit(outer.fn)
	if orig := outer.fn.Origin(); orig != nil {
		lit(orig)
		vrt.SetField(fn, "typeargs", []types.Type{types.Typ[types.Int]})
	}
	g.body(fn)
	return g.add(fn, outer.name+"$"+n, outer.pkg, outer.home)
}

// initializer adds the function that initializes the variables of a package,
// which is not written in its source.
func (g *vgraph) initializer(pkg int) int {
	i := g.fun(pkg, "init")
	g.fns[i].fn.Synthetic = "package initializer"
	g.spkgs[pkg].Members["init"] = g.fns[i].fn
	return i
}

// vgMixed builds a graph of a function, a literal inside it, the initializer
// and a method of a package inside the first one, and a function of an undotted
// package that has one of two capabilities; the initializer is unclassified or
// unanalyzed; nine free calls.
func vgMixed() *vgraph {
	g := newVgraph("ex.org/a", "ex.org/a/b", "lib")
	g.fun(0, "F")
	g.literal(0)
	g.initializer(1)
	g.method(1, "T", "M")
	g.fun(2, "G")
	g.caps = []cpb.Capability{cpb.Capability_CAPABILITY_FILES, cpb.Capability_CAPABILITY_UNANALYZED}
	g.fns[4].cat = g.caps[vrt.Choice("cat04", 2)]
	if vrt.Choice("cat02", 2) == 1 {
		g.fns[2].cat = cpb.Capability_CAPABILITY_UNANALYZED
	}
	for k, e := range [][2]int{{0, 1}, {0, 2}, {0, 4}, {1, 2}, {1, 4}, {2, 3}, {2, 4}, {3, 4}, {3, 0}} {
		g.edge(e[0], e[1], 1+k).incl = vrt.Bool("incl" + vgItoa(e[0]) + vgItoa(e[1]))
	}
	g.finish()
	return g
}

// edge adds a call; line 0 means a call without a position.
func (g *vgraph) edge(from, to, line int) *vedge {
	e := &vedge{from: from, to: to, line: line, incl: true, exists: true}
	call := &ssa.Call{}
	if line > 0 {
		vrt.SetField(&call.Call, "pos", g.file.Pos((line-1)*100+line%7))
	}
	e.site = call
	e.edge = &callgraph.Edge{Caller: g.fns[from].node, Site: call, Callee: g.fns[to].node}
	g.edges = append(g.edges, e)
	return e
}

// finish enters functions and edges into the tables.
func (g *vgraph) finish() {
	for _, f := range g.fns {
		g.graph.Nodes[f.fn] = f.node
		g.all[f.fn] = true
	}
	for _, e := range g.edges {
		if e.exists {
			c, d := g.fns[e.from].node, g.fns[e.to].node
			c.Out = append(c.Out, e.edge)
			d.In = append(d.In, e.edge)
		}
	}
}

// finishReversed does the same in the opposite order.
func (g *vgraph) finishReversed() {
	for i := len(g.fns) - 1; i >= 0; i-- {
		f := g.fns[i]
		g.graph.Nodes[f.fn] = f.node
		g.all[f.fn] = true
	}
	for i := len(g.edges) - 1; i >= 0; i-- {
		e := g.edges[i]
		if e.exists {
			c, d := g.fns[e.from].node, g.fns[e.to].node
			c.Out = append(c.Out, e.edge)
			d.In = append(d.In, e.edge)
		}
	}
}

// The graph is also the classifier: it answers what the harness chose.

func (g *vgraph) FunctionCategory(pkg, name string) cpb.Capability {
	for _, f := range g.fns {
		n, p := f.name, ""
		if f.pkg < 0 {
			if f.home < 0 {
				continue
			}
			// classified as its generic function
			if i, j := strings.IndexByte(n, '['), strings.IndexByte(n, ']'); i >= 0 && i < j {
				n = n[:i] + n[j+1:]
			}
		}
		p = g.tpkgs[f.home].Path()
		if n == name && p == pkg {
			return f.cat
		}
	}
	return cpb.Capability_CAPABILITY_UNSPECIFIED
}

func (g *vgraph) IncludeCall(edge *callgraph.Edge) bool {
	for _, e := range g.edges {
		if e.edge == edge {
			return e.incl
		}
	}
	return false
}

// ---- oracle ----

const vgNone = cpb.Capability_CAPABILITY_UNSPECIFIED
const vgSafe = cpb.Capability_CAPABILITY_SAFE

func (g *vgraph) explicit(i int) bool {
	return g.fns[i].cat != vgNone && g.fns[i].cat != vgSafe
}

// own reports whether function i has capability c itself.
func (g *vgraph) own(i int, c cpb.Capability) bool {
	f := g.fns[i]
	return f.cat == c || f.cat == vgNone && (f.refl && c == cpb.Capability_CAPABILITY_REFLECT || f.unsf && c == cpb.Capability_CAPABILITY_UNSAFE_POINTER)
}

// derived lets each function be unclassified, have one of two explicit
// capabilities, or have one of these because of its source.
func (g *vgraph) derived() {
	g.caps = []cpb.Capability{cpb.Capability_CAPABILITY_FILES, cpb.Capability_CAPABILITY_REFLECT}
	for i, f := range g.fns {
		switch vrt.Choice("cat"+vgItoa(i), 4) {
		case 1:
			f.cat = cpb.Capability_CAPABILITY_FILES
		case 2:
			f.cat = cpb.Capability_CAPABILITY_REFLECT
		case 3:
			f.refl = true
			value := types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("reflect", "reflect"), "Value", nil), types.NewStruct(nil, nil), nil)
			to := &ssa.Parameter{}
			vrt.SetField(to, "typ", types.NewPointer(value))
			f.fn.Blocks[0].Instrs = []ssa.Instruction{&ssa.Store{Addr: to}}
		}
	}
}

// adj[i][j] reports whether there is an included call from i to j that a
// chain may use, i.e. i may be passed through.
func (g *vgraph) adj() [][]bool {
	n := len(g.fns)
	a := make([][]bool, n)
	for i := range a {
		a[i] = make([]bool, n)
	}
	for _, e := range g.edges {
		a[e.from][e.to] = vrt.If(e.exists && e.incl && g.fns[e.from].cat == vgNone && g.fns[e.to].cat != vgSafe, true, a[e.from][e.to])
	}
	return a
}

// within[k][i]: function i reaches one of the targets by a chain of at most k
// calls.  The last element is full reachability.
func vgWithin(a [][]bool, target []bool, max int) [][]bool {
	n := len(target)
	w := [][]bool{target}
	for k := 1; k <= max; k++ {
		cur := make([]bool, n)
		for i := 0; i < n; i++ {
			b := w[k-1][i]
			for j := 0; j < n; j++ {
				b = vrt.If(a[i][j] && w[k-1][j], true, b)
			}
			cur[i] = b
		}
		w = append(w, cur)
	}
	return w
}

func (g *vgraph) targets(c cpb.Capability) []bool {
	t := make([]bool, len(g.fns))
	for i := range t {
		t[i] = g.own(i, c)
	}
	return t
}

// reach[i]: function i reaches capability c.
func (g *vgraph) reach(c cpb.Capability) []bool {
	w := vgWithin(g.adj(), g.targets(c), len(g.fns)-1)
	return w[len(w)-1]
}

// ranks computes the position of each function in report order: package path,
// plain functions before methods, name.
func (g *vgraph) ranks() {
	less := func(a, b *vfunc) bool {
		pa, pb := "", ""
		if a.home >= 0 {
			pa = g.tpkgs[a.home].Path()
		}
		if b.home >= 0 {
			pb = g.tpkgs[b.home].Path()
		}
		if pa != pb {
			return pa < pb
		}
		ma, mb := a.fn.Signature.Recv() != nil, b.fn.Signature.Recv() != nil
		if ma != mb {
			return mb
		}
		return a.name < b.name
	}
	for _, f := range g.fns {
		r := 0
		for _, f2 := range g.fns {
			if less(f2, f) {
				r++
			}
		}
		f.rank = r
	}
}

// index returns the function with the given name, or -1.
func (g *vgraph) index(name string) int {
	for i, f := range g.fns {
		if f.name == name {
			return i
		}
	}
	return -1
}

var vgCats = []cpb.Capability{
	cpb.Capability_CAPABILITY_UNSPECIFIED,
	cpb.Capability_CAPABILITY_SAFE,
	cpb.Capability_CAPABILITY_FILES,
	cpb.Capability_CAPABILITY_NETWORK,
}

func vgItoa(i int) string { return string([]byte{byte('0' + i/10), byte('0' + i%10)}) }
