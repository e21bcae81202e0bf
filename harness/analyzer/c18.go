package analyzer

import (
	"go/types"
	"strings"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"google.golang.org/protobuf/proto"
)

//verif:use analyzer/c05.go

// c18Caps are the capabilities of the baseline entries, in order; the first is
// none that a current result has.
var c18Caps = []cpb.Capability{cpb.Capability_CAPABILITY_UNSPECIFIED, cpb.Capability_CAPABILITY_FILES, cpb.Capability_CAPABILITY_NETWORK, cpb.Capability_CAPABILITY_EXEC}

// A vpairs is a set of pairs of a capability and a name.
type vpairs struct {
	names []string // sorted
	in    [][]bool // by capability and name
}

func newVpairs(names []string) *vpairs {
	p := &vpairs{names: names, in: make([][]bool, len(c18Caps))}
	for i := range p.in {
		p.in[i] = make([]bool, len(names))
	}
	return p
}

func (p *vpairs) add(ok bool, c cpb.Capability, name string) {
	for i, k := range c18Caps {
		for j, n := range p.names {
			if ok && c == k && name == n {
				p.in[i][j] = true
			}
		}
	}
}

// c18Run compares with the baseline and checks status and announcements.
func c18Run(g *vgraph, base *cpb.CapabilityInfoList, bp, cp *vpairs, conf *Config) {
	_, qm := c18Queried(g)
	read := 0
	vrt.ReadFileHook = func(name string) ([]byte, error) {
		if name == "base.json" {
			read++
		}
		return nil, nil
	}
	vrt.UnmarshalHook = func(b []byte, m proto.Message) error {
		m.(*cpb.CapabilityInfoList).CapabilityInfo = base.CapabilityInfo
		return nil
	}
	vrt.OutReset("stdout")
	err := RunCapslock([]string{"base.json"}, "compare", g.pkgs, qm, conf)
	vrt.Assert(read == 1, "the baseline is read once")
	diff := 0
	for i := range c18Caps {
		for j := range bp.names {
			if bp.in[i][j] != cp.in[i][j] {
				diff++
			}
		}
	}
	_, different := err.(DifferenceFoundError)
	vrt.Assert(different == (diff != 0), "a difference is signalled exactly when the sets differ")
	vrt.Assert(different || err == nil, "nothing else is signalled")
	n := vrt.OutLines("stdout")
	said, last, ordered, right := 0, -1, true, true
	for k := 0; k < n; k++ {
		present, text := vrt.OutLine("stdout", k)
		if !present || !strings.Contains(text, "CAPABILITY_") {
			continue
		}
		said++
		rank := -1
		for i, c := range c18Caps {
			for j, name := range bp.names {
				if cp.in[i][j] && !bp.in[i][j] && text == "Package "+name+" has new capability "+c.String()+" compared to the baseline." {
					rank = i*len(bp.names) + j
				}
				if bp.in[i][j] && !cp.in[i][j] && text == "Package "+name+" no longer has capability "+c.String()+" which was in the baseline." {
					rank = i*len(bp.names) + j
				}
			}
		}
		if rank < 0 {
			right = false
		}
		if rank <= last {
			ordered = false
		}
		last = rank
	}
	vrt.Assert(right, "only differences are announced, with their direction")
	vrt.Assert(ordered, "announcements are in order and not repeated")
	vrt.Assert(said == diff, "every difference is announced")
	vrt.Cover(diff == 2, "two differences")
	vrt.Cover(diff == 0 && len(base.CapabilityInfo) > 0, "no difference")
}

func c18Omit(conf *Config) *Config {
	conf.OmitPaths = vrt.Bool("omit")
	return conf
}

// c18Queried: the first package is queried, the others possibly.
func c18Queried(g *vgraph) ([]bool, map[*types.Package]struct{}) {
	others := vrt.Bool("others")
	m := map[*types.Package]struct{}{g.tpkgs[0]: {}}
	if others {
		m[g.tpkgs[1]] = struct{}{}
		m[g.tpkgs[2]] = struct{}{}
	}
	return []bool{true, others, others}, m
}

// c18Graph has functions of three packages with one call chain.
func c18Graph(cats int) *vgraph {
	g := newVgraph("ex.org/a", "ex.org/b", "ex.org/c")
	g.fun(0, "F0")
	g.fun(1, "F1")
	g.fun(2, "F2")
	for i := range g.fns {
		g.fns[i].cat = []cpb.Capability{vgNone, vgCats[3], vgCats[2], vgSafe}[vrt.Choice("cat"+vgItoa(i), cats)]
	}
	g.edge(0, 1, 10)
	g.edge(1, 2, 11).incl = vrt.Bool("call")
	g.finish()
	return g
}

var c18Pkgs = []string{"ex.org/a", "ex.org/b", "ex.org/c", "ex.org/d"}

// c18Current is the set of pairs of queried functions, or of their packages.
func c18Current(g *vgraph, q []bool, names []string, of func(int) string) *vpairs {
	p := newVpairs(names)
	for _, c := range c18Caps[1:] {
		reach := g.reach(c)
		for k, f := range g.fns {
			p.add(q[f.pkg] && reach[k] && g.fns[k].cat != vgSafe, c, of(k))
		}
	}
	return p
}

// c18Entries is a baseline of up to n entries.
func c18Entries(n int, names []string, p *vpairs, set func(ci *cpb.CapabilityInfo, i, name int) bool) *cpb.CapabilityInfoList {
	l := &cpb.CapabilityInfoList{}
	if vrt.Thorough() {
		n++
	}
	for i := 0; i < n; i++ {
		c := c18Caps[vrt.Choice("bcap"+vgItoa(i), len(c18Caps))]
		k := vrt.Choice("bname"+vgItoa(i), len(names))
		present := vrt.Bool("entry" + vgItoa(i))
		ci := &cpb.CapabilityInfo{Capability: c.Enum(), CapabilityType: cpb.CapabilityType(vrt.Choice("btype"+vgItoa(i), 3)).Enum()}
		named := set(ci, i, k)
		if present {
			l.CapabilityInfo = append(l.CapabilityInfo, ci)
		}
		p.add(present && named, c, names[k])
	}
	return l
}

// VerifC18Package: the current result of three packages with any classification
// and calls, a baseline of up to two (thorough: three) entries over four packages and three
// capabilities, package or default granularity, with and without paths.
//
//verif:harness C18 both split=cat00:3,cat01:3,cat02:3,call:2,others:2
func VerifC18Package() {
	g := c18Graph(3)
	gran := []Granularity{GranularityPackage, GranularityUnset}[vrt.Choice("gran", 2)]
	q, _ := c18Queried(g)
	bp := newVpairs(c18Pkgs)
	base := c18Entries(2, c18Pkgs, bp, func(ci *cpb.CapabilityInfo, i, name int) bool {
		ci.PackageDir = proto.String(c18Pkgs[name])
		ci.PackageName = proto.String("p")
		return true
	})
	cp := c18Current(g, q, c18Pkgs, func(k int) string { return g.tpkgs[g.fns[k].pkg].Path() })
	c18Run(g, base, bp, cp, c18Omit(&Config{Classifier: g, Granularity: gran}))
}

// VerifC18Function: the same with function granularity; a baseline entry may
// have an empty path, a function without a name or a longer path.
//
//verif:harness C18 both split=cat00:3,cat01:3,cat02:3,call:2,others:2
func VerifC18Function() {
	g := c18Graph(3)
	q, _ := c18Queried(g)
	names := []string{"ex.org/a.F0", "ex.org/a.F3", "ex.org/b.F1", "ex.org/c.F2"}
	bp := newVpairs(names)
	base := c18Entries(2, names, bp, func(ci *cpb.CapabilityInfo, i, name int) bool {
		ci.PackageDir = proto.String("ex.org/a")
		form := vrt.Choice("form"+vgItoa(i), 4)
		switch form {
		case 1:
			ci.Path = []*cpb.Function{{}}
		case 2:
			ci.Path = []*cpb.Function{{Name: proto.String(names[name])}}
		case 3:
			ci.Path = []*cpb.Function{{Name: proto.String(names[name])}, {Name: proto.String("os.Remove"), Site: &cpb.Function_Site{Filename: proto.String("a.go"), Line: proto.Int64(3)}}}
		}
		return form >= 2
	})
	cp := c18Current(g, q, names, func(k int) string { return g.fns[k].name })
	c18Run(g, base, bp, cp, c18Omit(&Config{Classifier: g, Granularity: GranularityFunction}))
}

// VerifC18Intermediate: the same with intermediate granularity; each
// baseline entry names one package, without a path or with one on which it is
// alone; the first may have another package on its path.
//
//verif:harness C18 both split=cat00:2,cat01:2,cat02:2,form00:4,call:2,others:2
func VerifC18Intermediate() {
	g := c18Graph(2)
	q, _ := c18Queried(g)
	bp := newVpairs(c18Pkgs)
	base := c18Entries(2, c18Pkgs, bp, func(ci *cpb.CapabilityInfo, i, name int) bool {
		ci.PackageDir = proto.String(c18Pkgs[name])
		own := &cpb.Function{Name: proto.String("f"), Package: proto.String(c18Pkgs[name])}
		other, forms := 3, 2
		if i == 0 {
			other, forms = vrt.Choice("other", len(c18Pkgs)), 4
		}
		o := &cpb.Function{Name: proto.String("g"), Package: proto.String(c18Pkgs[other])}
		form := vrt.Choice("form"+vgItoa(i), forms)
		present := vrt.Bool("entry" + vgItoa(i))
		switch form {
		case 1:
			ci.Path = []*cpb.Function{own}
		case 2:
			ci.Path = []*cpb.Function{own, o}
		case 3:
			ci.Path = []*cpb.Function{o, {Name: proto.String("w")}, own}
		}
		bp.add(present && form >= 2, ci.GetCapability(), c18Pkgs[other])
		return true
	})
	cp := newVpairs(c18Pkgs)
	fwd := g.forward(q)
	for _, c := range c18Caps[1:] {
		reach := g.reach(c)
		for k, f := range g.fns {
			cp.add(fwd[k] && reach[k], c, g.tpkgs[f.home].Path())
		}
	}
	c18Run(g, base, bp, cp, c18Omit(&Config{Classifier: g, Granularity: GranularityIntermediate}))
}
