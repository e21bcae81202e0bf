package main

import (
	"errors"
	"go/token"
	"go/types"
	"strings"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/proto"
)

var verifErr = errors.New("failed")

// A vcmd is a run of the command with its surroundings.
type vcmd struct {
	file    string // content of the capability map
	openErr bool
	pkgs    []*packages.Package // result of loading
	loadErr bool
	loads   int
	readErr bool // of the baseline
	jsonErr bool
	base    *cpb.CapabilityInfoList
	marshal int
}

// newVcmd sets all flags to their defaults and makes everything succeed.
func newVcmd() *vcmd {
	for _, f := range []string{"output", "capability_map", "capabilities", "buildtags", "goos", "goarch", "cpuprofile", "memprofile", "granularity"} {
		vrt.SetFlag(f, "")
	}
	vrt.SetFlag("packages", "ex.org/a")
	for _, f := range []string{"noisy", "disable_builtin", "omit_paths"} {
		vrt.SetBoolFlag(f, false)
	}
	vrt.SetBoolFlag("force_local_module", true)
	vrt.SetIntFlag("v", 0)
	vrt.Argv = nil
	c := &vcmd{base: &cpb.CapabilityInfoList{}}
	prog := &ssa.Program{Fset: token.NewFileSet()}
	vrt.AllPackagesHook = func([]*packages.Package) *ssa.Program { return prog }
	vrt.AllFunctionsHook = func(*ssa.Program) map[*ssa.Function]bool { return map[*ssa.Function]bool{} }
	vrt.VtaHook = func(map[*ssa.Function]bool) *callgraph.Graph {
		return &callgraph.Graph{Nodes: map[*ssa.Function]*callgraph.Node{}}
	}
	vrt.LoadHook = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
		if len(patterns) == 1 && patterns[0] == "std" {
			return nil, nil
		}
		c.loads++
		if c.loadErr {
			return nil, verifErr
		}
		return c.pkgs, nil
	}
	vrt.OpenHook = func(name string) (*vrt.OsFile, error) {
		if c.openErr || name != "map.cm" {
			return nil, verifErr
		}
		return &vrt.OsFile{Name: name, Rd: strings.NewReader(c.file)}, nil
	}
	vrt.ReadFileHook = func(name string) ([]byte, error) {
		if c.readErr || name != "base.json" {
			return nil, verifErr
		}
		return nil, nil
	}
	vrt.UnmarshalHook = func(b []byte, m proto.Message) error {
		if c.jsonErr {
			return verifErr
		}
		m.(*cpb.CapabilityInfoList).CapabilityInfo = c.base.CapabilityInfo
		return nil
	}
	vrt.MarshalHook = func(m proto.Message) ([]byte, error) {
		c.marshal++
		return []byte("{}"), nil
	}
	vrt.TemplateHook = func(name string, data any) error {
		vrt.Emit("stdout", "summary\n")
		return nil
	}
	vrt.WriteHook = nil
	vrt.CreateHook = nil
	vrt.ProfHook = nil
	vrt.GetwdHook = nil
	vrt.ChdirHook = nil
	vrt.MkdirTempHook = nil
	vrt.RemoveAllHook = nil
	vrt.SetenvHook = nil
	vrt.EnvironHook = nil
	vrt.GetenvHook = nil
	vrt.ExecHook = nil
	vrt.OutReset("stdout")
	vrt.OutReset("stderr")
	vrt.OutReset("log")
	c.pkgs = []*packages.Package{vpkg("ex.org/a")}
	return c
}

func vpkg(path string) *packages.Package {
	return &packages.Package{ID: path, Name: "a", PkgPath: path, Types: types.NewPackage(path, "a"), Imports: map[string]*packages.Package{}}
}

// run runs the command; status is its exit status.
func (c *vcmd) run() (status int) {
	code, exited := vrt.CatchExit(verifOrigMain)
	if !exited {
		return 0
	}
	return code
}

// printed reports whether something was written to standard output.
func (c *vcmd) printed() bool { return vwritten("stdout") }

// explained reports whether something was written to standard error.
func (c *vcmd) explained() bool { return vwritten("stderr") || vwritten("log") }

func vwritten(ch string) bool {
	n := vrt.OutLines(ch)
	for i := 0; i < n; i++ {
		present, text := vrt.OutLine(ch, i)
		if present && text != "" {
			return true
		}
	}
	return false
}

// check compares the status with what is expected.
func (c *vcmd) check(status int, failed, different bool) {
	vrt.Assert((status == 2) == failed, "the status is 2 exactly after a failure")
	vrt.Assert(failed || status == vrt.If(different, 1, 0), "the status is 1 exactly for a difference")
	vrt.Assert(!failed || !c.printed(), "no result is printed after a failure")
	vrt.Assert(!failed || c.explained(), "a failure is explained")
}
