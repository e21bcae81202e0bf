package analyzer

import (
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/ssa"
)

//verif:use analyzer/syntaxlib.go
//verif:use analyzer/c01.go

// vgBoth builds three functions with all calls between them; the source of
// each gives it no capability, one of two, or both.
func vgBoth() *vgraph {
	g := newVgraph("ex.org/a", "ex.org/b")
	vsInfo(g)
	g.caps = []cpb.Capability{cpb.Capability_CAPABILITY_REFLECT, cpb.Capability_CAPABILITY_UNSAFE_POINTER}
	g.fun(0, "F0")
	g.method(1, "T", "F1")
	g.fun(1, "F2")
	for i, f := range g.fns {
		k := vrt.Choice("cat"+vgItoa(i), 4)
		f.refl, f.unsf = k == 1 || k == 3, k == 2 || k == 3
		if f.refl {
			f.fn.Blocks[0].Instrs = []ssa.Instruction{vsStore(vsReflectValue())}
		}
		var from types.Type = types.Typ[types.Int]
		if f.unsf {
			from = vsUnsafe()
		}
		p := g.pkgs[f.home]
		d := vsDecl(f.fn.Name(), vsBlock(vsStmt(vsConv(p, vsPtrInt(), from))))
		vsFile(p, d)
		vsSyntax(f.fn, d)
	}
	vgComplete(g, false)
	g.finish()
	return g
}
