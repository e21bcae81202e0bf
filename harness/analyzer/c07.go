package analyzer

import (
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use analyzer/pathlib.go
//verif:use analyzer/bothlib.go

func c07Same(a, b []*cpb.Function) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].GetName() != b[i].GetName() || a[i].GetPackage() != b[i].GetPackage() || (a[i].Site == nil) != (b[i].Site == nil) ||
			a[i].Site.GetLine() != b[i].Site.GetLine() || a[i].Site.GetColumn() != b[i].Site.GetColumn() || a[i].Site.GetFilename() != b[i].Site.GetFilename() {
			return false
		}
	}
	return true
}

func c07Run(g *vgraph, caps []cpb.Capability, omit bool) {
	_, qm := vgQueried(g)
	res := GetCapabilityInfo(g.pkgs, qm, &Config{Classifier: g, Granularity: GranularityFunction, OmitPaths: omit}).GetCapabilityInfo()
	counts := GetCapabilityCounts(g.pkgs, qm, &Config{Classifier: g, OmitPaths: omit}).GetCapabilityCounts()
	stats := GetCapabilityStats(g.pkgs, qm, &Config{Classifier: g, OmitPaths: omit}).GetCapabilityStats()
	for _, c := range caps {
		n, direct := 0, 0
		for i := 0; i < len(res); i++ {
			if res[i].GetCapability() == c {
				n++
				if res[i].GetCapabilityType() == cpb.CapabilityType_CAPABILITY_TYPE_DIRECT {
					direct++
				}
			}
		}
		v, ok := counts[c.String()]
		vrt.Assert(ok == (n > 0), "exactly the capabilities with entries are counted")
		vrt.Assert(v == int64(n), "the count is the number of entries")
		vrt.Cover(n > 1, "several entries")
		times := 0
		for i := 0; i < len(stats); i++ {
			s := stats[i]
			if s.GetCapability() != c {
				continue
			}
			times++
			vrt.Assert(s.GetCount() == int64(n), "the statistics count is the number of entries")
			vrt.Assert(s.GetDirectCount() == int64(direct) && s.GetTransitiveCount() == int64(n-direct), "direct and transitive counts are the numbers of entries with the label")
			found := false
			for k := 0; k < len(res); k++ {
				if res[k].GetCapability() == c && c07Same(res[k].GetPath(), s.GetExampleCallpath()) {
					found = true
				}
			}
			vrt.Assert(found, "the example is the path of an entry")
			vrt.Cover(direct > 0 && direct < n, "both labels")
		}
		vrt.Assert(times == vrt.If(n > 0, 1, 0), "the statistics have each capability with entries once")
	}
	vrt.Assert(len(counts) == len(stats), "nothing else is counted")
	for i := 1; i < len(stats); i++ {
		vrt.Assert(stats[i-1].GetCapability() < stats[i].GetCapability(), "the statistics are in capability order")
	}
}

func c07Graph() *vgraph {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.fun(0, "F1")
	g.fun(1, "F2")
	for i := range g.fns {
		g.fns[i].cat = vgCats[vrt.Choice("cat"+vgItoa(i), 4)]
	}
	vgComplete(g, false)
	g.finish()
	return g
}

// VerifC07Three: counts and statistics against the per-function report over
// all call graphs of three functions, two in one package, each unclassified,
// safe or with one of two capabilities; with and without paths.
//
//verif:harness C07 both split=cat00:4,cat01:4,cat02:4,omit:2
func VerifC07Three() {
	omit := vrt.Bool("omit")
	c07Run(c07Graph(), vgCats[2:], omit)
}

// VerifC07Derived: the same where a function may have a capability because of
// what its source does.
//
//verif:harness C07 both split=cat00:4,cat01:4,cat02:4
func VerifC07Derived() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F0")
	g.method(0, "T", "F1")
	g.fun(1, "F2")
	g.derived()
	vgComplete(g, false)
	g.finish()
	c07Run(g, g.caps, false)
}

// VerifC07Both: three functions with all calls between them, the source of each
// giving it no capability, one of two or both.
//
//verif:harness C07 both split=cat00:4,cat01:4,cat02:4
func VerifC07Both() {
	g := vgBoth()
	c07Run(g, g.caps, false)
}

// VerifC07Four: the same with four functions in three packages and one
// capability.
//
//verif:harness C07 both split=cat00:3,cat01:2,cat02:2
func VerifC07Four() {
	g := newVgraph("ex.org/a", "ex.org/b", "lib")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.method(0, "T", "F2")
	g.fun(2, "F3")
	g.fns[0].cat = vgCats[vrt.Choice("cat00", 3)]
	g.fns[1].cat = vgCats[2*vrt.Choice("cat01", 2)]
	g.fns[2].cat = vgCats[2*vrt.Choice("cat02", 2)]
	g.fns[3].cat = cpb.Capability_CAPABILITY_FILES
	for i := 0; i < 3; i++ {
		for j := 0; j < 4; j++ {
			if i != j {
				e := g.edge(i, j, 1+i*4+j)
				e.incl = vrt.Bool("incl" + vgItoa(i) + vgItoa(j))
			}
		}
	}
	g.finish()
	c07Run(g, vgCats[2:3], false)
}

// VerifC07Machine: the machine-readable output, under both of its names, lists
// exactly the counted capabilities by name in sorted order.
//
//verif:harness C07 both split=cat00:4,cat01:4,cat02:4,long:2
func VerifC07Machine() {
	mode := "m"
	if vrt.Bool("long") {
		mode = "machine"
	}
	g := c07Graph()
	_, qm := vgQueried(g)
	vrt.OutReset("stdout")
	err := RunCapslock(nil, mode, g.pkgs, qm, &Config{Classifier: g})
	vrt.Assert(err == nil, "machine output succeeds")
	counts := GetCapabilityCounts(g.pkgs, qm, &Config{Classifier: g}).GetCapabilityCounts()
	n := vrt.OutLines("stdout")
	prev := ""
	files, network, known := 0, 0, true
	for i := 0; i < n; i++ {
		present, text := vrt.OutLine("stdout", i)
		if !present {
			continue
		}
		if text == "CAPABILITY_FILES" {
			files++
		} else if text == "CAPABILITY_NETWORK" {
			network++
		} else {
			known = false
		}
		if prev != "" {
			vrt.Assert(prev < text, "the list is sorted")
		}
		prev = text
	}
	_, f := counts["CAPABILITY_FILES"]
	_, w := counts["CAPABILITY_NETWORK"]
	vrt.Assert(files == vrt.If(f, 1, 0) && network == vrt.If(w, 1, 0), "exactly the counted capabilities are listed once")
	vrt.Assert(known, "nothing else is listed")
	vrt.Cover(f && w, "two capabilities")
}

// VerifC07Names: two functions with any of the capabilities, the machine list
// is sorted by name and not by number.
//
//verif:harness C07 both
func VerifC07Names() {
	g := newVgraph("ex.org/a")
	g.fun(0, "F0")
	g.fun(0, "F1")
	g.fns[0].cat = cpb.Capability(2 + vrt.Choice("cat00", 13))
	g.fns[1].cat = cpb.Capability(2 + vrt.Choice("cat01", 13))
	g.finish()
	qm := GetQueriedPackages(g.pkgs)
	vrt.OutReset("stdout")
	err := RunCapslock(nil, "m", g.pkgs, qm, &Config{Classifier: g})
	vrt.Assert(err == nil, "machine output succeeds")
	n := vrt.OutLines("stdout")
	a, b := g.fns[0].cat.String(), g.fns[1].cat.String()
	if a > b {
		a, b = b, a
	}
	k := 0
	for i := 0; i < n; i++ {
		present, text := vrt.OutLine("stdout", i)
		if !present {
			continue
		}
		vrt.Assert(k == 0 && text == a || k == 1 && text == b && a != b, "names in order")
		k++
	}
	vrt.Assert(k == vrt.If(a == b, 1, 2), "each name once")
	vrt.Cover(k == 2, "two names")
}

// VerifC07Default: the default and verbose summaries are given the same counts
// and statistics to render.
//
//verif:harness C07 both split=cat00:4,cat01:4,cat02:4,mode:4
func VerifC07Default() {
	mode := vrt.Choice("mode", 4)
	g := c07Graph()
	_, qm := vgQueried(g)
	var data any
	calls := 0
	vrt.TemplateHook = func(name string, d any) error {
		calls++
		data = d
		return nil
	}
	output := []string{"", "default", "v", "verbose"}[mode]
	err := RunCapslock(nil, output, g.pkgs, qm, &Config{Classifier: g})
	vrt.TemplateHook = nil
	vrt.Assert(err == nil && calls == 1, "one summary is rendered")
	counts := GetCapabilityCounts(g.pkgs, qm, &Config{Classifier: g}).GetCapabilityCounts()
	if mode < 2 {
		l, ok := data.(*cpb.CapabilityCountList)
		vrt.Assert(ok, "the summary renders the counts")
		if ok {
			got := l.GetCapabilityCounts()
			vrt.Assert(len(got) == len(counts) && got["CAPABILITY_FILES"] == counts["CAPABILITY_FILES"] && got["CAPABILITY_NETWORK"] == counts["CAPABILITY_NETWORK"], "the rendered counts are the counts")
		}
	} else {
		l, ok := data.(*cpb.CapabilityStatList)
		vrt.Assert(ok, "the verbose summary renders the statistics")
		if ok {
			got := l.GetCapabilityStats()
			vrt.Assert(len(got) == len(counts), "the rendered statistics have the counted capabilities")
			for i := 0; i < len(got); i++ {
				vrt.Assert(got[i].GetCount() == counts[got[i].GetCapability().String()], "the rendered statistics have the counts")
			}
		}
	}
	vrt.Cover(len(counts) == 2, "two capabilities")
}

// VerifC07Mixed: a function, a literal inside it, the initializer and a method
// of a package inside its own, and a function with one of two capabilities;
// nine free calls.
//
//verif:harness C07 both split=cat04:2,cat02:2
func VerifC07Mixed() {
	g := vgMixed()
	c07Run(g, g.caps, false)
}

// VerifC07Wide: the counts of a program with 41 entries, any one of its calls
// possibly excluded.
//
//verif:harness C07 both
func VerifC07Wide() {
	g, cut := vgWide(true)
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}, g.tpkgs[1]: {}}
	counts := GetCapabilityCounts(g.pkgs, qm, &Config{Classifier: g}).GetCapabilityCounts()
	stats := GetCapabilityStats(g.pkgs, qm, &Config{Classifier: g}).GetCapabilityStats()
	want := vrt.If(cut >= 40 && cut < 80, int64(40), int64(41))
	vrt.Assert(len(counts) == 1 && counts["CAPABILITY_FILES"] == want, "the count is the number of entries")
	vrt.Assert(len(stats) == 1, "the statistics have each capability with entries once")
	if len(stats) == 1 {
		s := stats[0]
		vrt.Assert(s.GetCount() == want, "the statistics count is the number of entries")
		vrt.Assert(s.GetDirectCount() == want-1 && s.GetTransitiveCount() == 1, "direct and transitive counts are the numbers of entries with the label")
		n := len(s.GetExampleCallpath())
		vrt.Assert(n == 2 || n == 3, "the example is the path of an entry")
	}
	vrt.Cover(want == 40, "a call is excluded")
}
