package main

import (
	"path"
	"strings"

	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

//verif:use cmd/capslock/cmdlib.go

// A vtemp is the state of the surroundings during the fallback.
type vtemp struct {
	c         *vcmd
	cwd       string
	dir       string // the temporary directory
	made      int    // temporary directories made
	removed   bool   // the temporary directory is gone
	elsewhere bool   // something else was removed
	inits     int
	got       [2]int // fetches in the temporary module
	strayed   bool   // a command ran outside the temporary directory
	loads     int
	loadDirs  [3]string
	analyses  int
	away      bool // analysed or read a file away from home
	first     int  // result of the first load
	second    int  // result of the second load
	analysed  *packages.Package
	broken    bool // nothing can be loaded at home
}

// vtempAt are places of the temporary directory, vtempName its name when made.
var vtempAt = []string{"/tmp/x1", "/home/u/work/x1"}
var vtempName = []string{"/tmp/x1", "work/x1"}

// abs resolves a name in the working directory.
func (t *vtemp) abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = t.cwd + "/" + name
	}
	return path.Clean(name)
}

// place is where packages are loaded.
func (t *vtemp) place(cfg *packages.Config) string {
	if cfg == nil || cfg.Dir == "" {
		return t.cwd
	}
	return t.abs(cfg.Dir)
}

// vtempResult: 0 the packages, 1 an error, 2 no packages, 3 packages of which
// one could not be listed, 4 and 5 packages with a type or syntax error.
func vtempResult(k int, tag string) ([]*packages.Package, error) {
	a, b := vpkg("ex.org/a"), vpkg("ex.org/b")
	a.Name = tag
	switch k {
	case 1:
		return nil, verifErr
	case 2:
		return nil, nil
	case 3:
		b.Errors = []packages.Error{{Msg: "list", Kind: packages.ListError}}
	case 4:
		b.Errors = []packages.Error{{Msg: "type", Kind: packages.TypeError}}
	case 5:
		b.Errors = []packages.Error{{Msg: "parse", Kind: packages.ParseError}}
	}
	return []*packages.Package{a, b}, nil
}

func newVtemp() *vtemp {
	t := &vtemp{c: newVcmd(), cwd: "/home/u"}
	relative := vrt.Choice("relative", 2)
	t.dir = vtempAt[relative]
	vrt.SetFlag("packages", "ex.org/a,ex.org/b")
	vrt.SetFlag("output", "compare")
	vrt.Argv = []string{"base.json"}
	vrt.SetBoolFlag("force_local_module", false)
	fail := func(name string) bool { return vrt.Bool(name) }
	getwd, setenv, mktemp, enter, back := fail("getwd"), fail("setenv"), fail("mktemp"), fail("enter"), fail("back")
	modinit, get0, get1, rm := fail("modinit"), fail("get0"), fail("get1"), fail("remove")
	vrt.GetwdHook = func() (string, error) {
		if getwd {
			return "", verifErr
		}
		return t.cwd, nil
	}
	vrt.SetenvHook = func(k, v string) error {
		if setenv {
			return verifErr
		}
		return nil
	}
	vrt.MkdirTempHook = func(dir, pattern string) (string, error) {
		if mktemp {
			return "", verifErr
		}
		t.made++
		return vtempName[relative], nil
	}
	vrt.ChdirHook = func(dir string) error {
		dir = t.abs(dir)
		if dir == t.dir && enter || dir == "/home/u" && back {
			return verifErr
		}
		if dir != t.dir && dir != "/home/u" {
			return verifErr
		}
		t.cwd = dir
		return nil
	}
	vrt.RemoveAllHook = func(name string) error {
		if t.abs(name) == t.dir {
			t.removed = true
		} else {
			t.elsewhere = true
		}
		if rm {
			return verifErr
		}
		return nil
	}
	vrt.ExecHook = func(c *vrt.ExecCmd) error {
		if t.abs(c.Dir) != t.dir || t.removed {
			t.strayed = true
		}
		for i := 1; i < len(c.Args); i++ {
			switch c.Args[i] {
			case "init":
				if modinit {
					return verifErr
				}
				t.inits++
			case "ex.org/a":
				if get0 {
					return verifErr
				}
				t.got[0]++
			case "ex.org/b":
				if get1 {
					return verifErr
				}
				t.got[1]++
			}
		}
		return nil
	}
	vrt.LoadHook = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
		if len(patterns) == 1 && patterns[0] == "std" {
			if t.broken && t.place(cfg) == "/home/u" {
				return nil, verifErr
			}
			return nil, nil
		}
		t.loads++
		dir := t.place(cfg)
		if t.loads == 1 {
			t.loadDirs[1] = dir
			return vtempResult(t.first, "one")
		}
		t.loadDirs[2] = dir
		return vtempResult(t.second, "two")
	}
	prog := &ssa.Program{}
	vrt.AllPackagesHook = func(pkgs []*packages.Package) *ssa.Program {
		if len(pkgs) > 0 {
			t.analysed = pkgs[0]
		}
		return prog
	}
	vrt.VtaHook = func(map[*ssa.Function]bool) *callgraph.Graph {
		t.analyses++
		if t.cwd != "/home/u" {
			t.away = true
		}
		return &callgraph.Graph{Nodes: map[*ssa.Function]*callgraph.Node{}}
	}
	read := vrt.ReadFileHook
	vrt.ReadFileHook = func(name string) ([]byte, error) {
		if t.cwd != "/home/u" {
			t.away = true
		}
		return read(name)
	}
	return t
}

// VerifC22Faults: every combination of results of the two loads (packages, an
// error, none, one not listed, one with errors), of failures of the nine steps
// of the fallback, of the setting that disables it, and of
// an absolute or relative place for temporary files; the error may be one of
// the directory in which nothing can be loaded, the standard library included.
//
//verif:harness C22 both
func VerifC22Faults() {
	t := newVtemp()
	t.first, t.second = vrt.Choice("first", 6), vrt.Choice("second", 6)
	t.broken = t.first == 1 && vrt.Bool("broken")
	force := vrt.Bool("force")
	vrt.SetBoolFlag("force_local_module", force)
	vrt.SetIntFlag("v", vrt.Choice("v", 3))
	retry := t.first >= 1 && t.first <= 3 && !force
	status := t.c.run()
	vrt.Assert(t.loads <= 2 && (t.loads < 2 || retry), "a second attempt only when the first found nothing or could not list")
	vrt.Assert(t.loadDirs[1] == "/home/u", "the first attempt is in place")
	vrt.Assert(t.loads < 2 || t.loadDirs[2] == t.dir, "the second attempt is in the temporary module")
	vrt.Assert(t.made <= vrt.If(retry, 1, 0), "at most one temporary directory, and only for the fallback")
	vrt.Assert(t.made == 0 || t.removed, "the temporary directory is removed")
	vrt.Assert(!t.elsewhere, "nothing else is removed")
	vrt.Assert(!t.strayed, "commands run in the temporary module")
	vrt.Assert(t.loads < 2 || t.inits >= 1 && t.got[0] >= 1 && t.got[1] >= 1, "every package is fetched before the second attempt")
	vrt.Assert(!t.away, "analysis and file access happen in the original directory")
	faulty := vrt.Bool("getwd") || vrt.Bool("setenv") || vrt.Bool("mktemp") || vrt.Bool("enter") || vrt.Bool("back") || vrt.Bool("modinit") || vrt.Bool("get0") || vrt.Bool("get1")
	failed := t.first != 0
	if retry {
		failed = faulty || t.second != 0
	}
	vrt.Assert((status == 2) == failed, "failures are reported")
	vrt.Assert(failed || status == 0, "no other status")
	vrt.Assert(!failed || t.c.explained(), "a failure is explained")
	vrt.Assert(!failed || t.analyses == 0 && !t.c.printed(), "no result after a failure")
	vrt.Assert(failed || t.analyses == 1, "the packages are analysed")
	vrt.Assert(failed || t.analysed != nil && t.analysed.Name == vrt.If(retry, "two", "one"), "the packages loaded last are analysed")
	vrt.Cover(retry && status == 0, "a successful fallback")
	vrt.Cover(t.broken && status == 0, "a result although nothing can be loaded here")
	vrt.Cover(t.made == 1 && vrt.Bool("back") && t.second == 0, "no way back")
}
