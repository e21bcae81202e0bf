package analyzer

import (
	"go/types"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/packages"
)

//verif:use analyzer/graphlib.go
//verif:use analyzer/c01.go

// vimports is a program of several packages with the modules they are from.
type vimports struct {
	g       *vgraph
	imports [][]bool
	root    []bool
	mod     []int // index into c24Mods
	ignored []int
	dir     []string // of the source files, by default that of the standard library or of the program
	roots   []*packages.Package
	// how the modules are used: the main one of a workspace, needed only
	// indirectly
	main, indirect bool
}

var c24Mods = []*packages.Module{
	nil,
	{Path: "ex.org/one", Version: "v1.0.0"},
	{Path: "ex.org/two", Version: "v0.2.0"},
	{Path: "ex.org/main"},
	{Version: "v3.0.0"},
}

// c24Ignored are the names of ignored files.
var c24Ignored = []string{"x_windows.go", "y_arm64.s"}

var c24Std = []string{"fmt", "os", "vendor/golang.org/x/net"}

// c24Foreign is a package of the standard library that exists only on other
// systems than the one the library is listed for.
const c24Foreign = "internal/syscall/windows"

func c24IsStd(path string) bool {
	if path == c24Foreign {
		return true
	}
	for _, s := range c24Std {
		if s == path {
			return true
		}
	}
	return false
}

func newVimports(paths ...string) *vimports {
	v := &vimports{g: newVgraph(paths...)}
	n := len(paths)
	v.imports = make([][]bool, n)
	for i := range v.imports {
		v.imports[i] = make([]bool, n)
	}
	v.root = make([]bool, n)
	v.mod = make([]int, n)
	v.ignored = make([]int, n)
	v.dir = make([]string, n)
	v.main, v.indirect = vrt.Bool("mainmod"), vrt.Bool("indirect")
	vrt.LoadHook = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
		var out []*packages.Package
		for _, s := range c24Std {
			out = append(out, &packages.Package{ID: s, PkgPath: s, GoFiles: []string{"/go/src/" + s + "/f.go"}})
		}
		return out, nil
	}
	return v
}

// finish builds the packages.
func (v *vimports) finish() {
	for i, p := range v.g.pkgs {
		p.Imports = map[string]*packages.Package{}
		for j, q := range v.g.pkgs {
			if v.imports[i][j] {
				p.Imports[q.PkgPath] = q
			}
		}
		if m := c24Mods[v.mod[i]]; m != nil {
			// every package has its own copy of the data
			p.Module = &packages.Module{Path: m.Path, Version: m.Version, Main: v.main, Indirect: v.indirect}
		}
		dir := v.dir[i]
		if dir == "" {
			dir = "/src/"
			if c24IsStd(p.PkgPath) {
				dir = "/go/src/"
			}
			dir += p.PkgPath
		}
		p.GoFiles = []string{dir + "/f.go"}
		p.CompiledGoFiles = p.GoFiles
		for k := 0; k < 2; k++ {
			if k < v.ignored[i] {
				p.IgnoredFiles = append(p.IgnoredFiles, dir+"/"+c24Ignored[k])
			}
		}
		if v.root[i] {
			v.roots = append(v.roots, p)
		}
	}
	v.g.fun(0, "F0")
	v.g.finish()
}

// reached: the package is analysed or a dependency of one that is.
func (v *vimports) reached() []bool {
	n := len(v.g.pkgs)
	r := append([]bool(nil), v.root...)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if r[i] && v.imports[i][j] {
					r[j] = true
				}
			}
		}
	}
	return r
}

func (v *vimports) queried() map[*types.Package]struct{} { return GetQueriedPackages(v.roots) }

// modules checks a module list.
func (v *vimports) modules(mods []*cpb.ModuleInfo) {
	r := v.reached()
	prev := ""
	count := make([]int, len(c24Mods))
	known := true
	for i := 0; i < len(mods); i++ {
		m := mods[i]
		hit := false
		for k, w := range c24Mods {
			if w != nil && w.Path != "" && w.Version != "" && m.GetPath() == w.Path && m.GetVersion() == w.Version {
				count[k]++
				hit = true
			}
		}
		if !hit {
			known = false
		}
		vrt.Assert(m.GetPath() > prev, "modules are sorted")
		prev = m.GetPath()
	}
	vrt.Assert(known, "only modules with path and version are listed")
	for k, w := range c24Mods {
		if w == nil || w.Path == "" || w.Version == "" {
			continue
		}
		want := 0
		for i := range r {
			if r[i] && v.mod[i] == k {
				want = 1
			}
		}
		vrt.Assert(count[k] == want, "every module is listed once")
	}
}

// packages checks a package list.
func (v *vimports) packages(list []*cpb.PackageInfo) {
	r := v.reached()
	prev := ""
	count := make([]int, len(r))
	known := true
	for i := 0; i < len(list); i++ {
		e := list[i]
		hit := false
		for k, p := range v.g.pkgs {
			if e.GetPath() == p.PkgPath {
				count[k]++
				hit = true
				files := e.GetIgnoredFiles()
				vrt.Assert(len(files) == v.ignored[k], "all ignored files are listed")
				for j := 0; j < len(files); j++ {
					vrt.Assert(files[j] == c24Ignored[j], "ignored files have their names")
				}
			}
		}
		if !hit {
			known = false
		}
		vrt.Assert(e.GetPath() > prev, "packages are sorted")
		prev = e.GetPath()
	}
	vrt.Assert(known, "only packages of the program are listed")
	for k, p := range v.g.pkgs {
		want := 0
		if r[k] && !c24IsStd(p.PkgPath) {
			want = 1
		}
		vrt.Assert(count[k] == want, "every package outside the standard library is listed once")
	}
	vrt.Cover(len(list) == 3, "three packages listed")
}

// VerifC24Imports: six packages, two of them of the standard library, with
// every acyclic import relation, any of the first three analysed.
//
//verif:harness C24 both split=root00:2,root01:2,root02:2,order:2
func VerifC24Imports() {
	v := newVimports("ex.org/m", "ex.org/z/q", "fmt", "ex.org/b", "os", "ex.org/a")
	for i := range v.imports {
		for j := i + 1; j < len(v.imports); j++ {
			v.imports[i][j] = vrt.Bool("import" + vgItoa(i) + vgItoa(j))
		}
	}
	for i := 0; i < 3; i++ {
		v.root[i] = vrt.Bool("root" + vgItoa(i))
	}
	v.mod = []int{3, 1, 0, 1, 0, 2}
	v.ignored = []int{0, 1, 1, 0, 0, 2}
	v.finish()
	vrt.MapOrder(vrt.Choice("order", 2))
	cil := GetCapabilityInfo(v.roots, v.queried(), &Config{Classifier: v.g})
	v.modules(cil.GetModuleInfo())
	v.packages(cil.GetPackageInfo())
}

// VerifC24Modules: three packages importing one another, each with any kind of
// module data and up to two ignored files, for the three reports that have
// inventories.
//
//verif:harness C24 both
func VerifC24Modules() {
	v := newVimports("ex.org/b", "ex.org/a", "ex.org/c")
	for i := range v.imports {
		v.mod[i] = vrt.Choice("mod"+vgItoa(i), len(c24Mods))
		v.ignored[i] = vrt.Choice("ignored"+vgItoa(i), 3)
	}
	v.imports[0][1] = vrt.Bool("import1")
	v.imports[0][2] = vrt.Bool("import2")
	v.imports[1][2] = vrt.Bool("import3")
	v.root[0] = true
	v.root[2] = vrt.Bool("root")
	v.finish()
	switch vrt.Choice("report", 4) {
	case 0:
		cil := GetCapabilityInfo(v.roots, v.queried(), &Config{Classifier: v.g})
		v.modules(cil.GetModuleInfo())
		v.packages(cil.GetPackageInfo())
	case 1:
		cil := GetCapabilityInfo(v.roots, v.queried(), &Config{Classifier: v.g, Granularity: GranularityFunction, OmitPaths: true})
		v.modules(cil.GetModuleInfo())
		v.packages(cil.GetPackageInfo())
	case 2:
		v.modules(GetCapabilityStats(v.roots, v.queried(), &Config{Classifier: v.g}).GetModuleInfo())
	case 3:
		v.modules(GetCapabilityCounts(v.roots, v.queried(), &Config{Classifier: v.g}).GetModuleInfo())
	}
}

// VerifC24Paths: import paths that resemble those of the standard library are
// not taken for it, and packages of the library are never listed.
//
//verif:harness C24 both
func VerifC24Paths() {
	paths := []string{"fmt", "os", "os/x", "fmtx", "x/fmt", "ex.org/fmt", "vendor/golang.org/x/net", "golang.org/x/net", "main", "o"}
	k := vrt.Choice("path", len(paths))
	j := vrt.Choice("path2", len(paths))
	vrt.Assume(j != k)
	v := newVimports(paths...)
	for i := range paths {
		v.root[i] = i == k
	}
	for i := range paths {
		for l := range paths {
			v.imports[i][l] = i == k && l == j
		}
	}
	v.finish()
	cil := GetCapabilityInfo(v.roots, v.queried(), &Config{Classifier: v.g})
	v.modules(cil.GetModuleInfo())
	list := cil.GetPackageInfo()
	want := vrt.If(c24IsStd(paths[k]), 0, 1) + vrt.If(c24IsStd(paths[j]), 0, 1)
	vrt.Assert(len(list) == want, "exactly the packages outside the standard library are listed")
	for i := 0; i < len(list); i++ {
		p := list[i].GetPath()
		vrt.Assert((p == paths[k] || p == paths[j]) && !c24IsStd(p), "listed packages belong to the program")
		if i > 0 {
			vrt.Assert(list[i-1].GetPath() < p, "packages are sorted")
		}
	}
	vrt.Cover(want == 1, "one of two listed")
}

// VerifC24Systems: a program loaded for another system, with a package of the
// standard library that the system of the command does not have, and packages
// outside the library whose files are near its own; each imported or not.
//
//verif:harness C24 both
func VerifC24Systems() {
	v := newVimports("ex.org/a", c24Foreign, "tool", "x/y", "os")
	for i := 1; i < len(v.imports); i++ {
		v.imports[0][i] = vrt.Bool("import" + vgItoa(i))
		v.ignored[i] = i % 3
	}
	v.imports[2][1] = vrt.Bool("import21")
	v.dir[2] = []string{"/go/src2/tool", "/home/go/src/tool", "/go/srctool", "/go/bin/tool"}[vrt.Choice("dir", 4)]
	v.dir[3] = "/go/pkg/src/x/y"
	v.root[0] = true
	v.root[1] = vrt.Bool("root")
	v.mod[0] = 3
	v.finish()
	cil := GetCapabilityInfo(v.roots, v.queried(), &Config{Classifier: v.g})
	v.modules(cil.GetModuleInfo())
	v.packages(cil.GetPackageInfo())
	vrt.Cover(v.imports[0][1], "a package of another system")
}
