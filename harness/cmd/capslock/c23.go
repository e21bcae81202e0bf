package main

import (
	"strings"

	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/packages"
)

//verif:use cmd/capslock/cmdlib.go

// VerifC23Command: the flags of the command for tags, system, architecture and
// packages reach the loader, both in place and in the temporary module.
//
//verif:harness C23 both
func VerifC23Command() {
	c := newVcmd()
	tags := []string{"", "a", "a,b", "x y"}[vrt.Choice("tags", 4)]
	goos := []string{"", "linux", "plan9"}[vrt.Choice("goos", 3)]
	goarch := []string{"", "amd64", "386"}[vrt.Choice("goarch", 3)]
	list := []string{"ex.org/a", "./...,ex.org/b", "a,b,c", "./my dir,file=x.go"}[vrt.Choice("packages", 4)]
	retry := vrt.Bool("retry")
	vrt.SetFlag("buildtags", tags)
	vrt.SetFlag("goos", goos)
	vrt.SetFlag("goarch", goarch)
	vrt.SetFlag("packages", list)
	vrt.SetFlag("output", "json")
	vrt.SetBoolFlag("force_local_module", false)
	environ := []string{"HOME=/h", "GOOS=aix", "PATH=/bin"}
	vrt.EnvironHook = func() []string { return append([]string(nil), environ...) }
	vrt.GetwdHook = func() (string, error) { return "/h", nil }
	vrt.ChdirHook = func(string) error { return nil }
	vrt.MkdirTempHook = func(dir, pattern string) (string, error) { return "/tmp/x", nil }
	vrt.RemoveAllHook = func(string) error { return nil }
	vrt.ExecHook = func(*vrt.ExecCmd) error { return nil }
	last := func(env []string, k string) string {
		v := "(none)"
		for _, e := range env {
			if strings.HasPrefix(e, k+"=") {
				v = e[len(k)+1:]
			}
		}
		return v
	}
	loads := 0
	vrt.LoadHook = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
		if cfg == nil || len(patterns) == 1 && patterns[0] == "std" {
			return nil, nil
		}
		loads++
		vrt.Assert(strings.Join(patterns, ",") == list, "patterns are passed on unchanged")
		env := cfg.Env
		if len(env) == 0 {
			env = environ
		}
		vrt.Assert(last(env, "GOOS") == vrt.If(goos == "", "aix", goos), "the system is as requested or inherited")
		vrt.Assert(last(env, "GOARCH") == vrt.If(goarch == "", "(none)", goarch), "the architecture is as requested or inherited")
		vrt.Assert(last(env, "HOME") == "/h" && last(env, "PATH") == "/bin", "the rest of the environment is passed on")
		got := ""
		for _, f := range cfg.BuildFlags {
			if strings.HasPrefix(f, "-tags=") {
				got = f[len("-tags="):]
			}
		}
		vrt.Assert(got == tags, "build tags are passed on")
		if retry && loads == 1 {
			return nil, nil
		}
		return c.pkgs, nil
	}
	status := c.run()
	vrt.Assert(status == 0, "the run succeeds")
	vrt.Assert(loads == vrt.If(retry, 2, 1), "packages are loaded")
	vrt.Cover(retry && tags == "a,b" && goos == "linux", "tags in the temporary module")
}
