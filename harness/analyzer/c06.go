package analyzer

import (
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/callgraph"
)

//verif:use analyzer/c05.go

// vgOut reads the lines of the graph output: how often each call and each
// capability link occurs, and whether header and footer are right.
func vgOut(g *vgraph, caps []cpb.Capability) (calls [][]int, links [][]int, framed, known bool) {
	n := len(g.fns)
	calls = make([][]int, n)
	links = make([][]int, n)
	for i := range calls {
		calls[i] = make([]int, n)
		links[i] = make([]int, len(caps))
	}
	m := vrt.OutLines("stdout")
	known = true
	first, closed := true, false
	framed = true
	for k := 0; k < m; k++ {
		present, text := vrt.OutLine("stdout", k)
		if !present {
			continue
		}
		if closed {
			framed = false
		}
		if first {
			if text != "digraph {" {
				framed = false
			}
			first = false
			continue
		}
		if text == "}" {
			closed = true
			continue
		}
		hit := false
		for i, a := range g.fns {
			for j, b := range g.fns {
				if text == "\t\""+a.name+"\" -> \""+b.name+"\"" {
					calls[i][j]++
					hit = true
				}
			}
			for ci, c := range caps {
				if text == "\t\""+a.name+"\" -> \""+c.String()+"\"" {
					links[i][ci]++
					hit = true
				}
			}
		}
		if !hit {
			known = false
		}
	}
	framed = framed && closed
	return
}

// c06Want computes how often each call and link belongs in the output.
func c06Want(g *vgraph, queried []bool, sel vsel, caps []cpb.Capability) (calls [][]int, links [][]int) {
	n := len(g.fns)
	fwd := g.forward(queried)
	adj := g.adj()
	calls = make([][]int, n)
	links = make([][]int, n)
	reachAny := make([]bool, n)
	var reach [][]bool
	for _, c := range caps {
		r := g.reach(c)
		reach = append(reach, r)
		for i := range reachAny {
			reachAny[i] = vrt.If(r[i], true, reachAny[i])
		}
	}
	for i := range calls {
		calls[i] = make([]int, n)
		links[i] = make([]int, len(caps))
		for j := range calls[i] {
			if sel.text == "" {
				calls[i][j] = vrt.If(fwd[i] && adj[i][j] && reachAny[j], 1, 0)
			} else {
				for ci, c := range caps {
					if sel.has(c) {
						calls[i][j] += vrt.If(fwd[i] && adj[i][j] && reach[ci][j], 1, 0)
					}
				}
			}
		}
		for ci, c := range caps {
			if sel.has(c) {
				links[i][ci] = vrt.If(fwd[i] && g.own(i, c), 1, 0)
			}
		}
	}
	return
}

func c06Run(g *vgraph, sel vsel) {
	caps := g.caps
	q, qm := vgQueried(g)
	vrt.OutReset("stdout")
	err := RunCapslock(nil, "graph", g.pkgs, qm, &Config{Classifier: g, CapabilitySet: sel.set()})
	vrt.Assert(err == nil, "graph output succeeds")
	calls, links, framed, known := vgOut(g, caps)
	vrt.Assert(framed, "one header first, one closing line last")
	vrt.Assert(known, "every line is a call or a capability of the program")
	wantCalls, wantLinks := c06Want(g, q, sel, caps)
	for i := range g.fns {
		for j := range g.fns {
			vrt.Assert(calls[i][j] == wantCalls[i][j], "exactly the calls on capability paths are listed, once per graph")
			vrt.Cover(wantCalls[i][j] > 0 && i == min(1, len(g.fns)-2), "a call is listed")
		}
		for ci := range caps {
			vrt.Assert(links[i][ci] == wantLinks[i][ci], "exactly the capabilities of functions in the graph are linked")
		}
	}
}

// VerifC06Three: all call graphs over three functions in three packages with
// recursive calls, all calls freely included, each function unclassified, safe
// or with one of two capabilities, any packages queried, no selection.
//
//verif:harness C06 both split=cat00:4,cat01:4,cat02:4
func VerifC06Three() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(2, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 4)]
	}
	vgComplete(g, true)
	g.finish()
	c06Run(g, vgSels[0])
}

// VerifC06Derived: three functions with all calls between them, each
// unclassified, with one of two explicit capabilities or with one of these
// because of what its source does; with and without a selection.
//
//verif:harness C06 both split=cat00:4,cat01:4,cat02:4,sel:2
func VerifC06Derived() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.method(1, "T", "F1")
	g.fun(1, "F2")
	g.derived()
	vgComplete(g, false)
	g.finish()
	c06Run(g, vgSels[vrt.Choice("sel", 2)])
}

// VerifC06Both: three functions with all calls between them, the source of each
// giving it no capability, one of two or both; with and without a selection.
//
//verif:harness C06 both split=cat00:4,cat01:4,cat02:4,sel:2
func VerifC06Both() {
	g := vgBoth()
	sel := vgSels[0]
	if vrt.Choice("sel", 2) == 1 {
		sel = vsel{text: "REFLECT", list: []cpb.Capability{cpb.Capability_CAPABILITY_REFLECT}}
	}
	c06Run(g, sel)
}

// VerifC06Select: the same for five selections, among them negated ones, with
// two call sites for one pair; two functions share a package.
//
//verif:harness C06 both split=cat01:4,cat02:4,sel:5
func VerifC06Select() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.method(0, "T", "F1")
	g.fun(1, "F2")
	g.fns[1].cat = vgCats[vrt.Choice("cat01", 4)]
	g.fns[2].cat = vgCats[vrt.Choice("cat02", 4)]
	vgComplete(g, false)
	g.edge(0, 1, 30).incl = vrt.Bool("again01")
	g.edge(1, 2, 31).incl = vrt.Bool("again12")
	g.finish()
	c06Run(g, vgSels[vrt.Choice("sel", len(vgSels))])
}

// VerifC06Kinds: chains through an instantiation, a method and a wrapper
// without package, five functions with nine free calls, one capability.
//
//verif:harness C06 both split=cat01:3,cat02:3
func VerifC06Kinds() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.instance(1, "G", "int")
	g.method(0, "T", "M")
	g.wrapper("W")
	g.fun(1, "F4")
	g.fns[1].cat = vgCats[vrt.Choice("cat01", 3)]
	g.fns[2].cat = vgCats[vrt.Choice("cat02", 3)]
	g.fns[4].cat = cpb.Capability_CAPABILITY_NETWORK
	line := 1
	for _, p := range [][2]int{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {2, 3}, {3, 1}, {1, 4}, {2, 4}, {3, 4}} {
		e := g.edge(p[0], p[1], line)
		e.incl = vrt.Bool("incl" + vgItoa(p[0]) + vgItoa(p[1]))
		line++
	}
	g.finish()
	c06Run(g, vgSels[0])
}

// VerifC06Names: functions, methods and instantiations with the same short
// name; nine free calls, two of the functions freely classified.
//
//verif:harness C06 both split=cat01:4,cat03:4
func VerifC06Names() {
	c06Run(vgNames(), vgSels[0])
}

var c06Visit func(v *callgraph.Node)

func c06Node[M any](_ M, v *callgraph.Node, _ M) { c06Visit(v) }

// VerifC06Callbacks: the exported graph function with its three callbacks, for
// no filter and for a filter over two capabilities: each callback is called
// exactly for the functions, calls and capabilities of each graph.
//
//verif:harness C06 both split=cat00:4,cat01:4,cat02:4,filter:4
func VerifC06Callbacks() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(1, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 4)]
	}
	vgComplete(g, false)
	g.finish()
	caps := g.caps
	q, qm := vgQueried(g)
	n := len(g.fns)
	nodes := make([]int, n)
	calls := make([][]int, n)
	links := make([][]int, n)
	for i := range calls {
		calls[i] = make([]int, n)
		links[i] = make([]int, len(caps))
	}
	which := vrt.Choice("filter", 4)
	sel := vgSels[which]
	var filter func(cpb.Capability) bool
	if which != 0 {
		filter = sel.has
	}
	c06Visit = func(v *callgraph.Node) {
		for i, f := range g.fns {
			if f.node == v {
				nodes[i]++
			}
		}
	}
	CapabilityGraph(g.pkgs, qm, &Config{Classifier: g},
		c06Node,
		func(e *callgraph.Edge) {
			for _, x := range g.edges {
				if x.edge == e {
					calls[x.from][x.to]++
				}
			}
		},
		func(v *callgraph.Node, c cpb.Capability) {
			for i, f := range g.fns {
				for ci := range caps {
					if f.node == v && caps[ci] == c {
						links[i][ci]++
					}
				}
			}
		}, filter)
	wantCalls, wantLinks := c06Want(g, q, sel, caps)
	fwd := g.forward(q)
	for i := range g.fns {
		want := 0
		any := false
		for _, c := range caps {
			r := g.reach(c)
			any = vrt.If(r[i], true, any)
			if sel.has(c) {
				want += vrt.If(fwd[i] && r[i], 1, 0)
			}
		}
		if which == 0 {
			want = vrt.If(fwd[i] && any, 1, 0)
		}
		vrt.Assert(nodes[i] == want, "exactly the functions on capability paths are visited, once per graph")
		vrt.Cover(want == 2, "a function in two graphs")
		for j := range g.fns {
			vrt.Assert(calls[i][j] == wantCalls[i][j], "exactly the calls on capability paths are visited, once per graph")
		}
		for ci := range caps {
			vrt.Assert(links[i][ci] == wantLinks[i][ci], "exactly the capabilities of functions in the graph are visited")
		}
	}
}

// VerifC06Mixed: a function, a literal inside it, the initializer and a method
// of a package inside its own, and a function with one of two capabilities;
// nine free calls; unanalyzed functions left out, or only these and another
// capability selected.
//
//verif:harness C06 both split=cat04:2,cat02:2,sel:2
func VerifC06Mixed() {
	c06Run(vgMixed(), vgMixedSels[vrt.Choice("sel", 2)])
}

// VerifC06AllCaps: a function calling another that has any of the thirteen
// capabilities; any one capability selected, or all but that one.
//
//verif:harness C06 both split=cat01:13
func VerifC06AllCaps() {
	c06Run(vgAnyCaps())
}

// VerifC06Twins: a function calls two functions without a package that have
// the same name and call two functions with capabilities; six free calls. Their
// calls are told apart by the name of the callee only.
//
//verif:harness C06 both
func VerifC06Twins() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F")
	g.wrapper("W")
	g.wrapper("W")
	g.fun(1, "G")
	g.fun(1, "H")
	g.fns[3].cat = cpb.Capability_CAPABILITY_FILES
	g.fns[4].cat = cpb.Capability_CAPABILITY_NETWORK
	for k, e := range [][2]int{{0, 1}, {0, 2}, {1, 3}, {1, 4}, {2, 3}, {2, 4}} {
		g.edge(e[0], e[1], 1+k).incl = vrt.Bool("incl" + vgItoa(e[0]) + vgItoa(e[1]))
	}
	g.finish()
	q, qm := vgQueried(g)
	vrt.OutReset("stdout")
	err := RunCapslock(nil, "graph", g.pkgs, qm, &Config{Classifier: g})
	vrt.Assert(err == nil, "the graph is written")
	calls, _, framed, known := vgOut(g, g.caps)
	vrt.Assert(framed && known, "only calls and links of the program are listed")
	want, _ := c06Want(g, q, vgSels[0], g.caps)
	ok := true
	for i := range g.fns {
		for j := range g.fns {
			n := 0
			for a := range g.fns {
				for b := range g.fns {
					if g.fns[a].name == g.fns[i].name && g.fns[b].name == g.fns[j].name {
						n += want[a][b]
					}
				}
			}
			if (calls[i][j] > 0) != (n > 0) {
				ok = false
			}
		}
	}
	vrt.Assert(ok, "exactly the calls on capability paths are listed")
	vrt.Cover(want[1][3] > 0 && want[2][4] > 0, "different ways through the two functions")
}

// c06Count counts how often the graph has each call, and the link of function t
// to its capability.
func c06Count(g *vgraph, t int) (calls []int, link, rest int) {
	calls = make([]int, len(g.edges))
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	CapabilityGraph(g.pkgs, qm, &Config{Classifier: g}, nil, func(edge *callgraph.Edge) {
		hit := false
		for i, e := range g.edges {
			if e.edge == edge {
				calls[i]++
				hit = true
			}
		}
		if !hit {
			rest++
		}
	}, func(fn *callgraph.Node, c cpb.Capability) {
		if fn == g.fns[t].node && c == cpb.Capability_CAPABILITY_FILES {
			link++
		} else {
			rest++
		}
	}, nil)
	return
}

// VerifC06Deep: the graph of a chain of 70 functions, one of four calls
// possibly excluded.
//
//verif:harness C06 both
func VerifC06Deep() {
	g, cut := vgDeep(false)
	calls, link, rest := c06Count(g, 69)
	for i := range calls {
		vrt.Assert(calls[i] == vrt.If(cut == 69 || cut < 35 && i >= 35, 1, 0), "exactly the calls on capability paths are listed")
	}
	vrt.Assert(link == vrt.If(cut == 69 || cut < 35, 1, 0), "exactly the functions on capability paths are linked")
	vrt.Assert(rest == 0, "there is nothing else")
	vrt.Cover(cut < 69, "a call is excluded")
}

// VerifC06Wide: the graph of a function that calls 40 others which all call one
// that has a capability, the first or last call possibly excluded.
//
//verif:harness C06 both
func VerifC06Wide() {
	g, cut := vgWide(false)
	calls, link, rest := c06Count(g, 1)
	for i := range calls {
		vrt.Assert(calls[i] == vrt.If(cut == 80 || cut%40 != i%40, 1, 0), "exactly the calls on capability paths are listed")
	}
	vrt.Assert(link == 1, "exactly the functions on capability paths are linked")
	vrt.Assert(rest == 0, "there is nothing else")
	vrt.Cover(cut < 69, "a call is excluded")
}
