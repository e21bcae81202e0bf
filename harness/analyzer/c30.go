package analyzer

import (
	"go/types"
	"strconv"
	"strings"

	"github.com/fatih/color"
	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/packages"
)

//verif:use analyzer/c07.go
//verif:use analyzer/c24.go

// c30Run prints a summary; the lines are in slots that may be absent.
func c30Run(mode string, colored bool, pkgs []*packages.Package, qm map[*types.Package]struct{}, cfg *Config) (on []bool, lines []string) {
	color.NoColor = !colored
	vrt.OutReset("stdout")
	err := RunCapslock(nil, mode, pkgs, qm, cfg)
	vrt.Assert(err == nil, "the summary is written")
	for i := 0; i < vrt.OutLines("stdout"); i++ {
		present, text := vrt.OutLine("stdout", i)
		on, lines = append(on, present), append(lines, c30Plain(text))
	}
	return
}

// c30Plain removes the codes for colours.
func c30Plain(s string) string {
	parts := strings.Split(s, "\x1b[")
	for i := 1; i < len(parts); i++ {
		_, parts[i], _ = strings.Cut(parts[i], "m")
	}
	return strings.Join(parts, "")
}

// c30Words: the words of the line, separated by blanks and punctuation that
// does not occur in names, include all of these, each counted.
func c30Words(line string, words ...string) bool {
	have := strings.FieldsFunc(line, func(r rune) bool { return r == ' ' || r == '\t' || r == '(' || r == ')' || r == ',' || r == ';' })
	for i, w := range words {
		need := 0
		for _, x := range words[:i+1] {
			if x == w {
				need++
			}
		}
		for _, h := range have {
			if h == w || h == w+":" {
				need--
			}
		}
		if need > 0 {
			return false
		}
	}
	return true
}

var c30None = "no capabilities"

// VerifC30Default: the default summary of every call graph of three functions,
// two in one package, each unclassified, safe or with one of two capabilities.
//
//verif:harness C30 both split=cat00:4,cat01:4,cat02:4
func VerifC30Default() {
	g := c07Graph()
	_, qm := vgQueried(g)
	cfg := &Config{Classifier: g, OmitPaths: vrt.Bool("omit")}
	counts := GetCapabilityCounts(g.pkgs, qm, cfg).GetCapabilityCounts()
	on, lines := c30Run("", false, g.pkgs, qm, cfg)
	c30Default(on, lines, counts, vgCats[2:])
	vrt.Cover(len(counts) == 2 && counts[vgCats[2].String()] == 2, "two capabilities")
}

func c30Default(on []bool, lines []string, counts map[string]int64, caps []cpb.Capability) {
	none := false
	for i, l := range lines {
		if on[i] && strings.Contains(l, c30None) {
			none = true
		}
	}
	vrt.Assert(none == (len(counts) == 0), "it is said when there is no capability, and only then")
	for _, c := range caps {
		n := counts[c.String()]
		times, right := 0, false
		for i, l := range lines {
			if on[i] && strings.Contains(l, c.String()) {
				times++
				right = c30Words(l, c.String(), strconv.Itoa(int(n)))
			}
		}
		vrt.Assert(times == vrt.If(n > 0, 1, 0), "every counted capability is shown once and no other")
		vrt.Assert(n == 0 || right, "it is shown with its count")
	}
}

// VerifC30Verbose: the verbose summary of the same graphs, under both names of
// the mode.
//
//verif:harness C30 both split=cat00:4,cat01:4,cat02:4,omit:2
func VerifC30Verbose() {
	g := c07Graph()
	_, qm := vgQueried(g)
	cfg := &Config{Classifier: g, OmitPaths: vrt.Bool("omit")}
	stats := GetCapabilityStats(g.pkgs, qm, cfg).GetCapabilityStats()
	on, lines := c30Run([]string{"v", "verbose"}[vrt.Choice("long", 2)], false, g.pkgs, qm, cfg)
	c30Verbose(on, lines, stats, vgCats[2:])
	vrt.Cover(len(stats) == 2 && stats[0].GetCount() == 2, "two capabilities")
}

func c30Verbose(on []bool, lines []string, stats []*cpb.CapabilityStats, caps []cpb.Capability) {
	none := false
	for i, l := range lines {
		if on[i] && strings.Contains(l, c30None) {
			none = true
		}
	}
	vrt.Assert(none == (len(stats) == 0), "it is said when there is no capability, and only then")
	for _, c := range caps {
		var s *cpb.CapabilityStats
		for i := 0; i < len(stats); i++ {
			if stats[i].GetCapability() == c {
				s = stats[i]
			}
		}
		times, right := 0, false
		at := 0 // functions of the example seen so far
		inside, bad := false, false
		path := s.GetExampleCallpath()
		for i, l := range lines {
			if !on[i] {
				continue
			}
			if strings.Contains(l, "CAPABILITY_") {
				inside = strings.Contains(l, c.String())
				if inside {
					times++
					right = c30Words(l, c.String(), strconv.Itoa(int(s.GetCount())), strconv.Itoa(int(s.GetDirectCount())), strconv.Itoa(int(s.GetTransitiveCount())))
				}
				continue
			}
			if !inside || !strings.Contains(l, "ex.org/") {
				continue
			}
			if at >= len(path) {
				bad = true
				continue
			}
			f := path[at]
			at++
			if !strings.HasSuffix(l, f.GetName()) {
				bad = true
			}
			if site := f.GetSite(); site != nil && !strings.Contains(l, site.GetFilename()+":"+strconv.Itoa(int(site.GetLine()))+":"+strconv.Itoa(int(site.GetColumn()))) {
				bad = true
			}
		}
		vrt.Assert(times == vrt.If(s != nil, 1, 0), "every counted capability is shown once and no other")
		vrt.Assert(s == nil || right, "it is shown with its counts")
		vrt.Assert(!bad && at == len(path), "the example is shown function by function with its call sites")
	}
}

// VerifC30Derived: both summaries with and without colours for a method, an
// instance of a generic function and a function of another package, with
// capabilities given or derived from source.
//
//verif:harness C30 both split=cat00:4,cat01:4,cat02:4,verbose:2,colored:2
func VerifC30Derived() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.method(0, "T", "F0")
	g.instance(0, "G1", "int")
	g.fun(1, "F2")
	g.derived()
	vgComplete(g, false)
	g.finish()
	_, qm := vgQueried(g)
	cfg := &Config{Classifier: g}
	colored := vrt.Bool("colored")
	if vrt.Bool("verbose") {
		stats := GetCapabilityStats(g.pkgs, qm, cfg).GetCapabilityStats()
		on, lines := c30Run("v", colored, g.pkgs, qm, cfg)
		c30Verbose(on, lines, stats, g.caps)
		vrt.Cover(len(stats) == 2 && stats[0].GetCount() == 2, "two capabilities in the verbose summary")
		return
	}
	counts := GetCapabilityCounts(g.pkgs, qm, cfg).GetCapabilityCounts()
	on, lines := c30Run("", colored, g.pkgs, qm, cfg)
	c30Default(on, lines, counts, g.caps)
	vrt.Cover(len(counts) == 2, "two capabilities")
}

// VerifC30Modules: both summaries list the modules of three packages, any
// imports between them, with and without a capability.
//
//verif:harness C30 both
func VerifC30Modules() {
	v := newVimports("ex.org/a", "ex.org/b", "os")
	v.root[0] = true
	v.imports[0][1] = vrt.Bool("ab")
	v.imports[0][2] = vrt.Bool("ac")
	for i := range v.mod {
		v.mod[i] = vrt.Choice("mod"+vgItoa(i), len(c24Mods))
	}
	v.finish()
	if vrt.Bool("some") {
		v.g.fns[0].cat = vgCats[2]
	}
	cfg := &Config{Classifier: v.g}
	on, lines := c30Run([]string{"", "v"}[vrt.Choice("verbose", 2)], vrt.Bool("colored"), v.roots, v.queried(), cfg)
	r := v.reached()
	for k, m := range c24Mods {
		if m == nil || m.Path == "" {
			continue
		}
		want := false
		for i := range r {
			if r[i] && v.mod[i] == k && m.Version != "" {
				want = true
			}
		}
		times, right := 0, false
		for i, l := range lines {
			if on[i] && c30Words(l, m.Path) {
				times++
				right = c30Words(l, m.Path, m.Version)
			}
		}
		vrt.Assert(times == vrt.If(want, 1, 0) && (right || !want), "every module is listed once with its version")
	}
	n, none := 0, false
	for i, l := range lines {
		if on[i] && strings.Contains(l, "CAPABILITY_") {
			n++
		}
		if on[i] && strings.Contains(l, c30None) {
			none = true
		}
	}
	vrt.Assert(none == (n == 0), "it is said when there is no capability, and only then")
	vrt.Assert(n == vrt.If(v.g.fns[0].cat == vgCats[2], 1, 0), "the capability is shown")
	vrt.Cover(n == 1 && v.mod[0] == 1 && v.mod[1] == 2 && v.imports[0][1], "modules and a capability")
}

// VerifC30Names: both summaries, with and without colours, of a function that
// has any of the capabilities there are.
//
//verif:harness C30 both split=capability:13,verbose:2
func VerifC30Names() {
	g := newVgraph("ex.org/a")
	g.fun(0, "F0")
	g.fun(0, "F1")
	var caps []cpb.Capability
	for n := cpb.Capability(2); len(caps) < 13; n++ {
		if _, ok := cpb.Capability_name[int32(n)]; ok {
			caps = append(caps, n)
		}
	}
	c := caps[vrt.Choice("capability", len(caps))]
	g.fns[1].cat = c
	g.edge(0, 1, 1).incl = vrt.Bool("call")
	g.finish()
	qm := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	verbose := vrt.Bool("verbose")
	mode := vrt.If(verbose, "v", "")
	on, lines := c30Run(mode, vrt.Bool("colored"), g.pkgs, qm, &Config{Classifier: g})
	n := vrt.If(g.edges[0].incl, "2", "1")
	times, right := 0, false
	for i, l := range lines {
		if on[i] && strings.Contains(l, "CAPABILITY_") {
			times++
			right = c30Words(l, c.String(), n) && (!verbose || c30Words(l, n, n, "0")) && strings.Count(l, "CAPABILITY_") == 1
		}
	}
	vrt.Assert(times == 1 && right, "the capability is shown once by its name with its counts")
	vrt.Cover(right && g.edges[0].incl, "two references")
}
