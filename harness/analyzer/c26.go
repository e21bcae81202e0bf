package analyzer

import (
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/proto"
)

//verif:use analyzer/pathlib.go
//verif:use analyzer/c18.go

// c26Reorder enters the functions and edges again in another order: the
// functions backwards, the calls of each function forwards, backwards or
// starting in the middle.
func c26Reorder(g *vgraph) {
	g.graph.Nodes = make(map[*ssa.Function]*callgraph.Node)
	g.all = make(map[*ssa.Function]bool)
	for i := len(g.fns) - 1; i >= 0; i-- {
		f := g.fns[i]
		g.graph.Nodes[f.fn] = f.node
		g.all[f.fn] = true
	}
	for i, f := range g.fns {
		var in, out []*vedge
		for _, e := range g.edges {
			if e.to == i {
				in = append(in, e)
			}
			if e.from == i {
				out = append(out, e)
			}
		}
		f.node.In = c26Order("in"+vgItoa(i), in)
		f.node.Out = c26Order("out"+vgItoa(i), out)
	}
}

func c26Order(tag string, l []*vedge) []*callgraph.Edge {
	var r []*callgraph.Edge
	n := len(l)
	if n < 2 {
		for _, e := range l {
			if e.exists {
				r = append(r, e.edge)
			}
		}
		return r
	}
	switch vrt.Choice(tag, vrt.If(n == 2, 2, 3)) {
	case 0:
		for i := 0; i < n; i++ {
			if l[i].exists {
				r = append(r, l[i].edge)
			}
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			if l[i].exists {
				r = append(r, l[i].edge)
			}
		}
	case 2:
		for i := 0; i < n; i++ {
			if e := l[(i+n/2)%n]; e.exists {
				r = append(r, e.edge)
			}
		}
	}
	return r
}

// c26Repeat is how often the run is repeated: the compiled code iterates over
// its maps in a different order each time.
func c26Repeat() int {
	if vrt.Symbolic() {
		return 1
	}
	return 60
}

func c26Info(g *vgraph, qm map[*types.Package]struct{}, gr Granularity) {
	vrt.MapOrder(0)
	a := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gr}).GetCapabilityInfo()
	c26Reorder(g)
	vrt.MapOrder(2)
	same := true
	for k := c26Repeat(); k > 0; k-- {
		b := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gr}).GetCapabilityInfo()
		if len(a) != len(b) {
			same = false
		}
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i].GetCapability() != b[i].GetCapability() || a[i].GetPackageDir() != b[i].GetPackageDir() ||
				a[i].GetCapabilityType() != b[i].GetCapabilityType() || a[i].GetDepPath() != b[i].GetDepPath() {
				same = false
			}
			if !c26Path(a[i].GetPath(), b[i].GetPath()) {
				same = false
			}
		}
	}
	vrt.MapOrder(0)
	vrt.Assert(same, "the same entries in the same order whatever the iteration order")
	vrt.Cover(len(a) > 2, "several entries")
}

func c26Path(a, b []*cpb.Function) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := a[i].Site, b[i].Site
		if a[i].GetName() != b[i].GetName() || x.GetLine() != y.GetLine() || x.GetColumn() != y.GetColumn() || x.GetFilename() != y.GetFilename() {
			return false
		}
	}
	return true
}

// c26Graph is a diamond: a start, two functions in the middle, a plain function
// and a method with capabilities, and every downward call freely present.
func c26Graph() (*vgraph, map[*types.Package]struct{}) {
	g := newVgraph("ex.org/a", "ex.org/b/a")
	g.fun(0, "F")
	g.fun(1, "B")
	g.fun(0, "A")
	g.fun(1, "X")
	g.method(1, "T", "Y")
	g.fns[3].cat = cpb.Capability_CAPABILITY_FILES
	g.fns[4].cat = []cpb.Capability{cpb.Capability_CAPABILITY_FILES, cpb.Capability_CAPABILITY_NETWORK}[vrt.Choice("cat", 2)]
	line := 1
	for _, e := range [][2]int{{0, 1}, {0, 2}, {1, 3}, {2, 3}, {1, 4}, {2, 4}, {0, 3}} {
		ed := g.edge(e[0], e[1], line)
		line++
		ed.exists = vrt.Bool("e" + vgItoa(e[0]) + vgItoa(e[1]))
	}
	g.finish()
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	if vrt.Bool("both") {
		qm[g.tpkgs[1]] = struct{}{}
	}
	return g, qm
}

// VerifC26Function: the function report.
//
//verif:harness C26 both split=cat:2,both:2,e0003:2
func VerifC26Function() {
	g, qm := c26Graph()
	c26Info(g, qm, GranularityFunction)
}

// VerifC26Package: the package report.
//
//verif:harness C26 both split=cat:2,both:2,e0003:2
func VerifC26Package() {
	g, qm := c26Graph()
	c26Info(g, qm, GranularityPackage)
}

// VerifC26Intermediate: the report of packages on the way.
//
//verif:harness C26 both split=cat:2,both:2,e0003:2
func VerifC26Intermediate() {
	g, qm := c26Graph()
	c26Info(g, qm, GranularityIntermediate)
}

// VerifC26Stats: counts and statistics.
//
//verif:harness C26 both split=cat:2,both:2,e0003:2
func VerifC26Stats() {
	g, qm := c26Graph()
	vrt.MapOrder(0)
	a := GetCapabilityStats(g.pkgs, qm, &Config{Classifier: g}).GetCapabilityStats()
	ac := GetCapabilityCounts(g.pkgs, qm, &Config{Classifier: g}).GetCapabilityCounts()
	c26Reorder(g)
	vrt.MapOrder(2)
	same, sameCounts := true, true
	for k := c26Repeat(); k > 0; k-- {
		b := GetCapabilityStats(g.pkgs, qm, &Config{Classifier: g}).GetCapabilityStats()
		bc := GetCapabilityCounts(g.pkgs, qm, &Config{Classifier: g}).GetCapabilityCounts()
		if len(a) != len(b) {
			same = false
		}
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i].GetCapability() != b[i].GetCapability() || a[i].GetCount() != b[i].GetCount() ||
				a[i].GetDirectCount() != b[i].GetDirectCount() || a[i].GetTransitiveCount() != b[i].GetTransitiveCount() ||
				!c26Path(a[i].GetExampleCallpath(), b[i].GetExampleCallpath()) {
				same = false
			}
		}
		if len(ac) != len(bc) {
			sameCounts = false
		}
		for _, c := range vgCats {
			if ac[c.String()] != bc[c.String()] {
				sameCounts = false
			}
		}
	}
	vrt.MapOrder(0)
	vrt.Assert(same, "the same statistics whatever the iteration order")
	vrt.Assert(sameCounts, "the same counts whatever the iteration order")
	vrt.Cover(len(a) == 2, "two capabilities")
}

// c26Sites: one function calls another at up to five places: three in one
// file, two of them on the same line, one in another file at the offset of the
// first, one without a position.
func c26Sites(gr Granularity) {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F")
	g.fun(1, "X")
	g.fns[1].cat = cpb.Capability_CAPABILITY_FILES
	other := g.fset.AddFile("/src/dir/a.go", -1, 4000)
	other.SetLines([]int{0, 100, 200, 300, 400, 500})
	for i, line := range []int{3, 2, 4, 0, 3} {
		e := g.edge(0, 1, line)
		e.exists = vrt.Bool("site" + vgItoa(i))
		if i == 2 {
			vrt.SetField(&e.site.(*ssa.Call).Call, "pos", other.Pos(203))
		}
		if i == 4 {
			vrt.SetField(&e.site.(*ssa.Call).Call, "pos", g.file.Pos(201))
		}
	}
	g.finish()
	c26Info1(g, map[*types.Package]struct{}{g.tpkgs[0]: {}}, gr)
}

func c26Info1(g *vgraph, qm map[*types.Package]struct{}, gr Granularity) {
	a := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gr}).GetCapabilityInfo()
	c26Reorder(g)
	b := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: gr}).GetCapabilityInfo()
	same := len(a) == len(b)
	for i := 0; i < len(a) && i < len(b); i++ {
		if !c26Path(a[i].GetPath(), b[i].GetPath()) {
			same = false
		}
		p := a[i].GetPath()
		if len(p) == 2 {
			want, col, file := 0, 0, ""
			if g.edges[0].exists {
				want, col, file = 3, 4, "file.go"
			}
			if g.edges[4].exists {
				want, col, file = 3, 2, "file.go"
			}
			if g.edges[1].exists {
				want, col, file = 2, 3, "file.go"
			}
			if g.edges[2].exists {
				want, col, file = 3, 4, "a.go"
			}
			vrt.Assert(int(p[1].GetSite().GetLine()) == want && int(p[1].GetSite().GetColumn()) == col && p[1].GetSite().GetFilename() == file, "the first call site in order of file and position, one without a position last")
		}
	}
	vrt.Assert(same, "the same call site whatever the discovery order")
	vrt.Cover(len(a) > 0 && g.edges[0].exists && g.edges[1].exists && g.edges[2].exists, "three call sites")
	vrt.Cover(len(a) > 0 && g.edges[0].exists && g.edges[4].exists, "two call sites on a line")
}

// VerifC26Sites: the call sites named in function reports.
//
//verif:harness C26 both
func VerifC26Sites() { c26Sites(GranularityFunction) }

// VerifC26SitesBetween: the call sites named in reports of packages on the way.
//
//verif:harness C26 both
func VerifC26SitesBetween() { c26Sites(GranularityIntermediate) }

// VerifC26Compare: the output of a comparison of one package's two capabilities
// with a baseline of two entries.
//
//verif:harness C26 both split=gran:2,others:2,call:2
func VerifC26Compare() {
	g := newVgraph("ex.org/a", "ex.org/b", "ex.org/c")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(2, "F2")
	g.fns[1].cat = cpb.Capability_CAPABILITY_FILES
	g.fns[2].cat = cpb.Capability_CAPABILITY_NETWORK
	g.edge(0, 1, 10)
	g.edge(0, 2, 11).incl = vrt.Bool("call")
	g.finish()
	gran := []Granularity{GranularityPackage, GranularityIntermediate}[vrt.Choice("gran", 2)]
	bp := newVpairs(c18Pkgs)
	base := c18Entries(2, c18Pkgs, bp, func(ci *cpb.CapabilityInfo, i, name int) bool {
		ci.PackageDir = proto.String(c18Pkgs[name])
		return true
	})
	cp := newVpairs(c18Pkgs)
	q, _ := c18Queried(g)
	fwd := g.forward(q)
	for _, c := range c18Caps[1:] {
		reach := g.reach(c)
		for k, f := range g.fns {
			if gran == GranularityIntermediate {
				cp.add(fwd[k] && reach[k], c, g.tpkgs[f.home].Path())
			} else {
				cp.add(q[f.pkg] && reach[k], c, g.tpkgs[f.home].Path())
			}
		}
	}
	vrt.MapOrder(2)
	for k := c26Repeat(); k > 0; k-- {
		c18Run(g, base, bp, cp, &Config{Classifier: g, Granularity: gran})
	}
	vrt.MapOrder(0)
}

// c26Lines gives the lines printed by a comparison with a baseline.
func c26Lines(g *vgraph, qm map[*types.Package]struct{}, base *cpb.CapabilityInfoList, gran Granularity) []string {
	vrt.ReadFileHook = func(string) ([]byte, error) { return nil, nil }
	vrt.UnmarshalHook = func(_ []byte, m proto.Message) error {
		m.(*cpb.CapabilityInfoList).CapabilityInfo = base.CapabilityInfo
		return nil
	}
	vrt.OutReset("stdout")
	RunCapslock([]string{"base.json"}, "compare", g.pkgs, qm, &Config{Classifier: g, Granularity: gran})
	var r []string
	n := vrt.OutLines("stdout")
	for i := 0; i < n; i++ {
		if present, text := vrt.OutLine("stdout", i); present {
			r = append(r, text)
		}
	}
	return r
}

// VerifC26CompareOrder: the lines of a comparison of a program of three
// functions with two capabilities, and the order they come in, with any of four
// entries in the baseline.
//
//verif:harness C26 both split=gran:3,b0:2,b1:2,b2:2,call:2
func VerifC26CompareOrder() {
	g := newVgraph("ex.org/b", "ex.org/a", "ex.org/c")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(2, "F2")
	g.fns[1].cat = cpb.Capability_CAPABILITY_FILES
	g.fns[2].cat = cpb.Capability_CAPABILITY_NETWORK
	g.edge(0, 1, 10)
	g.edge(0, 2, 11).incl = vrt.Bool("call")
	g.finish()
	gran := []Granularity{GranularityPackage, GranularityIntermediate, GranularityFunction}[vrt.Choice("gran", 3)]
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}, g.tpkgs[1]: {}, g.tpkgs[2]: {}}
	base := &cpb.CapabilityInfoList{}
	for i, p := range []string{"ex.org/b", "ex.org/d", "ex.org/c"} {
		if vrt.Bool("b" + vgItoa(i)[1:]) {
			base.CapabilityInfo = append(base.CapabilityInfo, &cpb.CapabilityInfo{
				Capability: cpb.Capability_CAPABILITY_NETWORK.Enum(),
				PackageDir: proto.String(p),
				Path:       []*cpb.Function{{Name: proto.String(p + ".F"), Package: proto.String(p)}},
			})
		}
	}
	vrt.MapOrder(0)
	a := c26Lines(g, qm, base, gran)
	vrt.MapOrder(2)
	same := true
	for k := c26Repeat(); k > 0; k-- {
		b := c26Lines(g, qm, base, gran)
		if len(a) != len(b) {
			same = false
		}
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i] != b[i] {
				same = false
			}
		}
	}
	vrt.MapOrder(0)
	vrt.Assert(same, "the same output whatever the iteration order")
	vrt.Cover(len(a) > 8, "several differences")
}
