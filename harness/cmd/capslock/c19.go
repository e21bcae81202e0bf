package main

import (
	"strings"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/packages"
	"google.golang.org/protobuf/proto"
)

//verif:use cmd/capslock/c31.go

var c19Outputs = []string{"", "json", "j", "m", "machine", "v", "verbose", "g", "graph", "compare"}

// VerifC19Flags: every combination of ten output modes, up to two arguments,
// five granularities, five capability selections, a map or none, and the
// setting that goes with a map; everything around the command succeeds.
//
//verif:harness C19 both
func VerifC19Flags() {
	c := newVcmd()
	c.file = "func a.B CAPABILITY_FILES\n"
	output := c19Outputs[vrt.Choice("output", len(c19Outputs))]
	g := vrt.Choice("granularity", 5)
	cs := vrt.Choice("capabilities", 5)
	custom, disable := vrt.Bool("map"), vrt.Bool("disable")
	vrt.SetFlag("output", output)
	vrt.SetFlag("granularity", []string{"", "package", "function", "intermediate", "Package"}[g])
	vrt.SetFlag("capabilities", []string{"", "FILES", "-FILES,-CAPABILITY_NETWORK", "FILE", "FILES,-NETWORK"}[cs])
	if custom {
		vrt.SetFlag("capability_map", "map.cm")
	}
	vrt.SetBoolFlag("disable_builtin", disable)
	vrt.SetBoolFlag("noisy", vrt.Bool("noisy"))
	vrt.SetBoolFlag("omit_paths", vrt.Bool("omit"))
	n := vrt.Choice("args", 3)
	vrt.Argv = []string{"base.json", "extra"}[:n]
	vrt.SetIntFlag("v", vrt.Choice("v", 2))
	failed := g == 4 || cs >= 3 || disable && !custom
	if output == "compare" {
		failed = failed || n != 1
	} else {
		failed = failed || n > 0
	}
	status := c.run()
	c.check(status, failed, false)
	vrt.Assert(failed || output == "compare" || output == "m" || output == "machine" || c.printed(), "a result is printed otherwise")
	vrt.Cover(failed, "a failure")
	vrt.Cover(!failed && custom, "a run with a map")
}

// VerifC19Granularity: the granularity is any text of up to 14 ASCII
// characters, in a comparison or not.
//
//verif:harness C19 both split=len:15
func VerifC19Granularity() {
	c := newVcmd()
	b := make([]byte, vrt.Choice("len", 15))
	for i := range b {
		b[i] = vrt.Byte("byte" + string(rune('a'+i)))
	}
	g := string(b)
	vrt.SetFlag("granularity", g)
	vrt.SetFlag("output", "json")
	if vrt.Bool("compare") {
		vrt.SetFlag("output", "compare")
		vrt.Argv = []string{"base.json"}
	}
	known := g == "" || g == "package" || g == "function" || g == "intermediate"
	status := c.run()
	c.check(status, !known, false)
	vrt.Cover(status == 0 && len(g) > 0, "a known granularity")
	vrt.Cover(status == 2, "an unknown one")
}

// VerifC19Map: the capability map cannot be opened, or one of its two lines is
// one of seven forms, four of them malformed.
//
//verif:harness C19 both
func VerifC19Map() {
	c := newVcmd()
	lines := []string{"", "# comment", "func a.B CAPABILITY_FILES", "func a.B", "func a.B CAPABILITY_NONE", "package a", "what a b"}
	good := []bool{true, true, true, false, false, false, false}
	a, b := vrt.Choice("line1", 7), vrt.Choice("line2", 7)
	c.file = lines[a] + "\n" + strings.ReplaceAll(lines[b], "a.B", "a.C") + "\n"
	vrt.SetFlag("capability_map", "map.cm")
	vrt.SetFlag("output", "json")
	c.openErr = vrt.Bool("open")
	vrt.SetBoolFlag("disable_builtin", vrt.Bool("disable"))
	status := c.run()
	c.check(status, c.openErr || !good[a] || !good[b], false)
	vrt.Cover(status == 0, "success")
	vrt.Cover(status == 2, "failure")
}

// c19Entry is a baseline entry that the (empty) program does not have.
func c19Entry() *cpb.CapabilityInfo {
	return &cpb.CapabilityInfo{
		Capability: cpb.Capability_CAPABILITY_FILES.Enum(),
		PackageDir: proto.String("ex.org/a"),
		Path:       []*cpb.Function{{Name: proto.String("ex.org/a.F"), Package: proto.String("ex.org/a")}},
	}
}

// VerifC19Compare: a comparison whose baseline cannot be read, is malformed,
// equals the current result or differs from it, at every granularity.
//
//verif:harness C19 both
func VerifC19Compare() {
	c := newVcmd()
	vrt.SetFlag("output", "compare")
	vrt.SetFlag("granularity", []string{"", "package", "function", "intermediate"}[vrt.Choice("granularity", 4)])
	vrt.SetBoolFlag("omit_paths", vrt.Bool("omit"))
	c.readErr, c.jsonErr, c.loadErr = vrt.Bool("read"), vrt.Bool("json"), vrt.Bool("load")
	name := []string{"base.json", "missing.json"}[vrt.Choice("name", 2)]
	vrt.Argv = []string{name}
	different := vrt.Bool("different")
	if different {
		c.base.CapabilityInfo = []*cpb.CapabilityInfo{c19Entry()}
	}
	failed := c.readErr || c.jsonErr || c.loadErr || name != "base.json"
	status := c.run()
	c.check(status, failed, different)
	vrt.Cover(status == 1, "a difference")
	vrt.Cover(status == 0, "no difference")
}

// VerifC19Errors: two analysed packages and two dependencies, any import
// relation, any of them with up to two errors of three kinds or a module
// with an error, one without files to analyse, loading failing or finding no package, in three modes.
//
//verif:harness C19 both
func VerifC19Errors() {
	c := newVcmd()
	mode := vrt.Choice("mode", 3)
	vrt.SetFlag("output", []string{"json", "", "compare"}[mode])
	if mode == 2 {
		vrt.Argv = []string{"base.json"}
	}
	ps := []*packages.Package{vpkg("ex.org/a"), vpkg("ex.org/b"), vpkg("ex.org/c"), vpkg("os")}
	bad := make([]bool, len(ps))
	shared := &packages.Module{Path: "ex.org", Version: "v1"}
	modErr := vrt.Bool("moderr")
	if modErr {
		shared.Error = &packages.ModuleError{Err: "module"}
	}
	for i, p := range ps {
		k := vrt.Choice([]string{"kind00", "kind01", "kind02", "kind03"}[i], 4)
		switch k {
		case 1:
			p.Errors = []packages.Error{{Msg: "list", Kind: packages.ListError}}
		case 2:
			p.Errors = []packages.Error{{Msg: "parse", Kind: packages.ParseError}, {Msg: "type", Kind: packages.TypeError}}
		case 3:
			p.Module = shared
		}
		bad[i] = k == 1 || k == 2 || k == 3 && modErr
	}
	// one of the packages may have no files left to analyse
	empty := vrt.Choice("empty", len(ps)+1)
	for i, p := range ps {
		file := []string{"/src/" + p.PkgPath + "/x.go"}
		if i == empty {
			p.IgnoredFiles = file
		} else {
			p.GoFiles, p.CompiledGoFiles = file, file
		}
	}
	reached := []bool{true, true, false, false}
	for _, e := range [][2]int{{0, 2}, {1, 2}, {2, 3}} {
		if vrt.Bool([]string{"import0", "import1", "import2"}[e[0]]) {
			ps[e[0]].Imports[ps[e[1]].PkgPath] = ps[e[1]]
			if reached[e[0]] {
				reached[e[1]] = true
			}
		}
	}
	c.pkgs = ps[:2]
	none := vrt.Bool("none")
	if none {
		c.pkgs = nil
	}
	c.loadErr = vrt.Bool("load")
	failed := c.loadErr || none
	for i := range ps {
		failed = failed || reached[i] && bad[i]
	}
	status := c.run()
	c.check(status, failed, false)
	vrt.Cover(status == 0, "success")
	vrt.Cover(status == 2, "failure")
}

// VerifC19Profile: profiles are requested and creating or starting one fails.
// A failing CPU profile stops the run before any result; a failing memory
// profile comes after the result and is a failure as well.
//
//verif:harness C19 both
func VerifC19Profile() {
	c := newVcmd()
	vrt.SetFlag("output", "compare")
	vrt.Argv = []string{"base.json"}
	different := vrt.Bool("different")
	if different {
		c.base.CapabilityInfo = []*cpb.CapabilityInfo{c19Entry()}
	}
	cpu, mem := vrt.Bool("cpu"), vrt.Bool("mem")
	if cpu {
		vrt.SetFlag("cpuprofile", "cpu.out")
	}
	if mem {
		vrt.SetFlag("memprofile", "mem.out")
	}
	cf, mf := vrt.Bool("createcpu"), vrt.Bool("createmem")
	sf, hf := vrt.Bool("start"), vrt.Bool("heap")
	vrt.CreateHook = func(name string) (*vrt.OsFile, error) {
		if name == "cpu.out" && cf || name == "mem.out" && mf {
			return nil, verifErr
		}
		return &vrt.OsFile{Name: name, Ch: name}, nil
	}
	vrt.ProfHook = func(op string) error {
		if op == "start" && sf || op == "heap" && hf {
			return verifErr
		}
		return nil
	}
	early := cpu && (cf || sf)
	failed := early || mem && (mf || hf)
	status := c.run()
	vrt.Assert((status == 2) == failed, "the status is 2 exactly after a failure")
	vrt.Assert(failed || status == vrt.If(different, 1, 0), "the status is 1 exactly for a difference")
	vrt.Assert(!early || !c.printed(), "no result is printed after a failure")
	vrt.Assert(!failed || c.explained(), "a failure is explained")
	vrt.Cover(status == 1 && mem, "a difference and a profile")
}

// VerifC19Result: the result of any of nine modes cannot be encoded or
// rendered, or cannot be written, for a program of five functions with any of
// five calls.
//
//verif:harness C19 both
func VerifC19Result() {
	c := newVcmd()
	p := newC31()
	c.pkgs = p.pkgs
	output := c19Outputs[vrt.Choice("output", 9)]
	vrt.SetFlag("output", output)
	machine := output == "m" || output == "machine"
	graph := output == "g" || output == "graph"
	encode, write := vrt.Bool("encode"), vrt.Bool("write")
	if encode {
		vrt.MarshalHook = func(proto.Message) ([]byte, error) { return nil, verifErr }
		vrt.TemplateHook = func(string, any) error { return verifErr }
	}
	if write {
		vrt.WriteHook = func(ch string) error {
			if ch == "stdout" {
				return verifErr
			}
			return nil
		}
	}
	status := c.run()
	// G has a capability of its own, so there is always something to write
	failed := encode && !machine && !graph || write
	vrt.Assert((status == 2) == failed, "the status is 2 exactly after a failure")
	vrt.Assert(failed || status == 0, "the status is 0 otherwise")
	vrt.Assert(!failed || c.explained(), "a failure is explained")
	vrt.Cover(status == 0 && encode && graph, "nothing to encode")
	vrt.Cover(status == 2 && write && graph, "a graph that cannot be written")
}
