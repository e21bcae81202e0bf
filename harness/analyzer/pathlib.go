package analyzer

import (
	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use analyzer/graphlib.go
//verif:use analyzer/c01.go

// A vstep is one element of a reported path, resolved to the graph.
type vstep struct {
	idx  int  // function, or -1
	ok   bool // name, package and position are consistent
	site bool
	line int
	col  int
}

func vgStep(g *vgraph, f *cpb.Function) vstep {
	s := vstep{idx: g.index(f.GetName())}
	if s.idx >= 0 {
		want := ""
		if h := g.fns[s.idx].home; h >= 0 {
			want = g.tpkgs[h].Path()
		}
		s.ok = f.GetPackage() == want && (f.Package != nil) == (want != "")
	}
	if f.Site != nil {
		s.site = true
		s.line = int(f.Site.GetLine())
		s.col = int(f.Site.GetColumn())
		if f.Site.GetFilename() != "file.go" {
			s.ok = false
		}
	}
	return s
}

// vgCol is the column at which edge() places a call on its line.
func vgCol(line int) int { return line%7 + 1 }

// linked reports whether there is an included call between consecutive
// elements at the position stated.
func (g *vgraph) linked(a, b vstep) bool {
	r := false
	for _, e := range g.edges {
		pos := vrt.If(e.line > 0, b.site && b.line == e.line && b.col == vgCol(e.line), !b.site)
		r = vrt.If(e.from == a.idx && e.to == b.idx && e.exists && e.incl && pos, true, r)
	}
	return r
}

func (g *vgraph) catOf(i int) cpb.Capability {
	c := cpb.Capability(-1)
	for k, f := range g.fns {
		if k == i {
			c = f.cat
		}
	}
	return c
}

func (g *vgraph) ownOf(i int, c cpb.Capability) bool {
	r := false
	for k := range g.fns {
		if k == i {
			r = g.own(k, c)
		}
	}
	return r
}

// vgPath checks one reported chain for capability c; it must start with a
// function and end with one having the capability.
func vgPath(g *vgraph, path []*cpb.Function, c cpb.Capability) (genuine, described bool, steps []vstep) {
	genuine, described = len(path) > 0, true
	for i := 0; i < len(path); i++ {
		s := vgStep(g, path[i])
		if s.idx < 0 || !s.ok {
			described = false
		}
		if i == 0 && s.site {
			described = false
		}
		cat := g.catOf(s.idx)
		if i+1 < len(path) {
			if cat != vgNone {
				genuine = false
			}
		} else if !g.ownOf(s.idx, c) {
			genuine = false
		}
		if i > 0 && !g.linked(steps[i-1], s) {
			genuine = false
		}
		steps = append(steps, s)
	}
	return
}
