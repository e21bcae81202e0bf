package main

import (
	"go/token"
	"go/types"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/proto"
)

//verif:use cmd/capslock/cmdlib.go

// A c31prog is a small program: two packages are asked for, their functions
// call each other and functions the built-in map knows.
type c31prog struct {
	prog *ssa.Program
	pkgs []*packages.Package // asked for
	fns  []*ssa.Function
	on   []bool // calls that are present
}

var c31Calls = [][2]int{{0, 1}, {0, 3}, {2, 0}, {2, 4}, {3, 4}}

func newC31() *c31prog {
	p := &c31prog{prog: &ssa.Program{Fset: token.NewFileSet()}}
	var tps []*types.Package
	var sps []*ssa.Package
	for _, path := range []string{"ex.org/a", "ex.org/b", "io", "os"} {
		tp := types.NewPackage(path, path[len(path)-1:])
		tps = append(tps, tp)
		sps = append(sps, &ssa.Package{Prog: p.prog, Pkg: tp, Members: map[string]ssa.Member{}})
	}
	for i := 0; i < 2; i++ {
		path := tps[i].Path()
		p.pkgs = append(p.pkgs, &packages.Package{ID: path, Name: tps[i].Name(), PkgPath: path, Types: tps[i], Imports: map[string]*packages.Package{}})
	}
	for _, f := range []struct {
		pkg  int
		name string
	}{{0, "F"}, {0, "G"}, {1, "H"}, {2, "ReadAll"}, {3, "ReadFile"}} {
		fn := &ssa.Function{Signature: types.NewSignatureType(nil, nil, nil, nil, nil, false), Pkg: sps[f.pkg], Prog: p.prog}
		vrt.SetField(fn, "name", f.name)
		fn.Blocks = []*ssa.BasicBlock{{}}
		p.fns = append(p.fns, fn)
	}
	// G stores a reflection value somewhere
	value := types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("reflect", "reflect"), "Value", nil), types.NewStruct(nil, nil), nil)
	to := &ssa.Parameter{}
	vrt.SetField(to, "typ", types.NewPointer(value))
	p.fns[1].Blocks[0].Instrs = []ssa.Instruction{&ssa.Store{Addr: to}}
	for i := range c31Calls {
		p.on = append(p.on, vrt.Bool("call"+string([]byte{byte('0' + i)})))
	}
	vrt.AllPackagesHook = func([]*packages.Package) *ssa.Program { return p.prog }
	vrt.AllFunctionsHook = func(*ssa.Program) map[*ssa.Function]bool {
		m := make(map[*ssa.Function]bool)
		for _, f := range p.fns {
			m[f] = true
		}
		return m
	}
	vrt.VtaHook = func(map[*ssa.Function]bool) *callgraph.Graph {
		g := &callgraph.Graph{Nodes: make(map[*ssa.Function]*callgraph.Node)}
		var nodes []*callgraph.Node
		for i, f := range p.fns {
			n := &callgraph.Node{Func: f, ID: i}
			g.Nodes[f] = n
			nodes = append(nodes, n)
		}
		for i, c := range c31Calls {
			if p.on[i] {
				e := &callgraph.Edge{Caller: nodes[c[0]], Site: &ssa.Call{}, Callee: nodes[c[1]]}
				e.Caller.Out = append(e.Caller.Out, e)
				e.Callee.In = append(e.Callee.In, e)
			}
		}
		return g
	}
	return p
}

// c31Set chooses the settings, as flags and as what they mean.
func c31Set(c *vcmd) *analyzer.Config {
	cfg := &analyzer.Config{}
	gr := vrt.Choice("granularity", 4)
	vrt.SetFlag("granularity", []string{"", "function", "package", "intermediate"}[gr])
	cfg.Granularity = []analyzer.Granularity{analyzer.GranularityUnset, analyzer.GranularityFunction, analyzer.GranularityPackage, analyzer.GranularityIntermediate}[gr]
	sel := []string{"", "FILES", "-FILES"}[vrt.Choice("selection", 3)]
	vrt.SetFlag("capabilities", sel)
	cs, err := analyzer.NewCapabilitySet(sel)
	vrt.Assert(err == nil, "the selection is accepted")
	cfg.CapabilitySet = cs
	cfg.OmitPaths = vrt.Bool("omit")
	vrt.SetBoolFlag("omit_paths", cfg.OmitPaths)
	noisy := vrt.Bool("noisy")
	vrt.SetBoolFlag("noisy", noisy)
	m := vrt.Choice("map", 4)
	var cl *interesting.Classifier
	if m == 0 {
		cl = interesting.DefaultClassifier()
	} else {
		c.file = []string{"", "func ex.org/b.H CAPABILITY_NETWORK\n", "func os.ReadFile CAPABILITY_SAFE\n", "ignore_edge ex.org/a.F ex.org/a.G\nunanalyzed ex.org/a.F\n"}[m]
		disable := vrt.Bool("disable")
		vrt.SetFlag("capability_map", "map.cm")
		vrt.SetBoolFlag("disable_builtin", disable)
		cfg.DisableBuiltin = disable
		cl, err = interesting.LoadClassifier("map.cm", strings.NewReader(c.file), disable)
		vrt.Assert(err == nil, "the map is accepted")
	}
	if noisy {
		cl = interesting.ClassifierExcludingUnanalyzed(cl)
	}
	cfg.Classifier = cl
	vrt.SetIntFlag("v", vrt.Choice("verbosity", 3))
	return cfg
}

func c31Same(a, b []*cpb.CapabilityInfo) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := a[i], b[i]
		if x.GetCapability() != y.GetCapability() || x.GetPackageDir() != y.GetPackageDir() || x.GetCapabilityType() != y.GetCapabilityType() ||
			x.GetDepPath() != y.GetDepPath() || len(x.GetPath()) != len(y.GetPath()) {
			return false
		}
		if len(x.GetPath()) > 0 && len(y.GetPath()) > 0 && x.GetPath()[0].GetName() != y.GetPath()[0].GetName() {
			return false
		}
	}
	return true
}

// VerifC31Json: the entries of the JSON output are those of the analysis with
// the settings given, for a program of five functions with any of five calls,
// two of them known to the built-in map, four maps, four granularities, three
// selections and the settings for paths, unanalyzed functions, the built-in map
// and verbosity.
//
//verif:harness C31 both split=granularity:4,map:4,noisy:2
func VerifC31Json() {
	c := newVcmd()
	p := newC31()
	cfg := c31Set(c)
	c.pkgs = p.pkgs
	vrt.SetFlag("output", []string{"json", "j"}[vrt.Choice("short", 2)])
	var got *cpb.CapabilityInfoList
	vrt.MarshalHook = func(m proto.Message) ([]byte, error) {
		got, _ = m.(*cpb.CapabilityInfoList)
		return []byte("{}"), nil
	}
	status := c.run()
	vrt.Assert(status == 0 && got != nil, "a result is written")
	qm := map[*types.Package]struct{}{p.pkgs[0].Types: {}, p.pkgs[1].Types: {}}
	want := analyzer.GetCapabilityInfo(p.pkgs, qm, cfg)
	vrt.Assert(c31Same(got.GetCapabilityInfo(), want.GetCapabilityInfo()), "the result is that of the analysis with the settings given")
	vrt.Cover(len(want.GetCapabilityInfo()) > 2, "several entries")
}

// VerifC31Text: the same for the lines of the machine-readable and the graph
// output, asked for by either of their two names.
//
//verif:harness C31 both split=graph:2,long:2,map:4,noisy:2,selection:3
func VerifC31Text() {
	c := newVcmd()
	p := newC31()
	cfg := c31Set(c)
	c.pkgs = p.pkgs
	// the analysis is asked for with the other of the two names of the output
	output, other := "m", "machine"
	if vrt.Bool("graph") {
		output, other = "graph", "g"
	}
	if vrt.Bool("long") {
		output, other = other, output
	}
	vrt.SetFlag("output", output)
	status := c.run()
	vrt.Assert(status == 0, "a result is written")
	n := vrt.OutLines("stdout")
	var ok []bool
	var lines []string
	for i := 0; i < n; i++ {
		present, text := vrt.OutLine("stdout", i)
		ok, lines = append(ok, present), append(lines, text)
	}
	vrt.OutReset("stdout")
	qm := map[*types.Package]struct{}{p.pkgs[0].Types: {}, p.pkgs[1].Types: {}}
	err := analyzer.RunCapslock(nil, other, p.pkgs, qm, cfg)
	vrt.Assert(err == nil, "the analysis succeeds")
	m := vrt.OutLines("stdout")
	count := 0
	for i := 0; i < m; i++ {
		present, text := vrt.OutLine("stdout", i)
		if !present {
			continue
		}
		count++
		hit := false
		for k := range lines {
			if ok[k] && lines[k] == text {
				hit = true
			}
		}
		vrt.Assert(hit, "every line of the analysis with the settings given is there")
	}
	for k := range lines {
		if ok[k] {
			count--
		}
	}
	vrt.Assert(count == 0, "there are no further lines")
	vrt.Cover(m > 0, "some lines")
}

// VerifC31Summary: the same for the counts and statistics given to the
// summaries.
//
//verif:harness C31 both split=verbose:2,map:4,noisy:2
func VerifC31Summary() {
	c := newVcmd()
	p := newC31()
	cfg := c31Set(c)
	c.pkgs = p.pkgs
	verbose := vrt.Bool("verbose")
	if verbose {
		vrt.SetFlag("output", []string{"v", "verbose"}[vrt.Choice("form", 2)])
	}
	var got any
	vrt.TemplateHook = func(name string, data any) error {
		got = data
		return nil
	}
	status := c.run()
	vrt.Assert(status == 0, "a summary is written")
	qm := map[*types.Package]struct{}{p.pkgs[0].Types: {}, p.pkgs[1].Types: {}}
	if verbose {
		l, ok := got.(*cpb.CapabilityStatList)
		vrt.Assert(ok, "the statistics are rendered")
		if ok {
			a, b := l.GetCapabilityStats(), analyzer.GetCapabilityStats(p.pkgs, qm, cfg).GetCapabilityStats()
			vrt.Assert(len(a) == len(b), "the statistics have the same capabilities")
			for i := 0; i < len(a) && i < len(b); i++ {
				vrt.Assert(a[i].GetCapability() == b[i].GetCapability() && a[i].GetCount() == b[i].GetCount() && a[i].GetDirectCount() == b[i].GetDirectCount() &&
					len(a[i].GetExampleCallpath()) == len(b[i].GetExampleCallpath()), "the statistics are those of the analysis with the settings given")
			}
			vrt.Cover(len(a) > 1, "several capabilities")
		}
		return
	}
	l, ok := got.(*cpb.CapabilityCountList)
	vrt.Assert(ok, "the counts are rendered")
	if ok {
		a, b := l.GetCapabilityCounts(), analyzer.GetCapabilityCounts(p.pkgs, qm, cfg).GetCapabilityCounts()
		vrt.Assert(len(a) == len(b), "the same capabilities are counted")
		for i := 0; i < 15; i++ {
			s := cpb.Capability(i).String()
			vrt.Assert(a[s] == b[s], "the counts are those of the analysis with the settings given")
		}
		vrt.Cover(len(a) > 1, "several counts")
	}
}

// VerifC31Compare: a comparison finds no difference from the result of the
// analysis with the same settings, and finds one when an entry is missing.
//
//verif:harness C31 both split=granularity:4,map:4,noisy:2
func VerifC31Compare() {
	c := newVcmd()
	p := newC31()
	cfg := c31Set(c)
	c.pkgs = p.pkgs
	vrt.SetFlag("output", "compare")
	vrt.Argv = []string{"base.json"}
	qm := map[*types.Package]struct{}{p.pkgs[0].Types: {}, p.pkgs[1].Types: {}}
	want := analyzer.GetCapabilityInfo(p.pkgs, qm, cfg).GetCapabilityInfo()
	missing := vrt.Bool("missing")
	different := missing && len(want) > 0
	if missing {
		want = nil
	}
	c.base.CapabilityInfo = want
	status := c.run()
	vrt.Assert(status == vrt.If(different, 1, 0), "the comparison uses the settings given")
	vrt.Cover(different, "a difference")
	vrt.Cover(!different && len(want) > 2, "no difference")
}
