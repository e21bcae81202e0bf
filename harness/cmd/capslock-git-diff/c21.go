package main

import (
	"path"
	"strings"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"google.golang.org/protobuf/proto"
)

//verif:use cmd/capslock-git-diff/difflib.go

const vhome = "/home/u/repo/sub"

// A vgit is the state of the surroundings of the revision diff.
type vgit struct {
	cwd    string
	place  int       // index into vplaces
	made   int       // temporary directories made
	live   [3]bool   // the n-th temporary directory exists
	cloned [3]bool   // the repository was cloned into it
	at     [3]string // commit checked out in it
	runs   int       // runs of the analyser
	where  [3]string // directory of each
	rev    [3]string // commit of the clone at that time
	args   [3][]string
	parses int
	astray bool // a command ran in the wrong place, or something else was removed
	failed bool // an operation failed
	// a temporary directory is not where it was asked for
	misplaced bool
	env       []string
	stuck     bool // the original directory could not be entered again
}

// A vfault makes the first and the second operation of a kind fail or not.
type vfault struct {
	g    *vgit
	n    int
	bits [2]bool
}

func (f *vfault) next() bool {
	bad := f.n == 0 && f.bits[0] || f.n == 1 && f.bits[1]
	f.n++
	if bad {
		f.g.failed = true
	}
	return bad
}

func (g *vgit) fault(name string) *vfault {
	return &vfault{g: g, bits: [2]bool{vrt.Bool(name + "0"), vrt.Bool(name + "1")}}
}

// vplaces are the values of the setting for temporary files.
var vplaces = []string{"", "/scratch", "work"}

// vtmp are the temporary directories in each place, vtmpName what they are
// called when made.
var vtmp = [][]string{
	{"/tmp/t0", "/tmp/t1", "/tmp/t2"},
	{"/scratch/t0", "/scratch/t1", "/scratch/t2"},
	{vhome + "/work/t0", vhome + "/work/t1", vhome + "/work/t2"},
}
var vtmpName = [][]string{vtmp[0], vtmp[1], {"work/t0", "work/t1", "work/t2"}}

// tmp is the location of the n-th temporary directory.
func (g *vgit) tmp(n int) string { return vtmp[g.place][n] }

// abs resolves a name in a directory.
func vabs(dir, name string) string {
	if !strings.HasPrefix(name, "/") {
		name = dir + "/" + name
	}
	return path.Clean(name)
}

// vrevs are names of revisions: tags, the current one, a branch of another
// repository and a revision relative to a branch. vcommits are the commits
// they stand for.
var vrevs = []string{".", "v1", "v2", "HEAD", "origin/x", "x~1"}
var vcommits = []string{"", "c1", "c2", "c3", "c4", "c5"}

// vresolve returns the commit a revision names, or nothing. In a clone, the
// names of branches are those of the repository it was made of.
func vresolve(rev string, clone bool) string {
	rev = strings.TrimSuffix(strings.TrimSuffix(rev, "^{commit}"), "^0")
	for i, c := range vcommits {
		if i == 0 {
			continue
		}
		if rev == c {
			return c
		}
		if rev == vrevs[i] {
			if clone && i == 4 {
				return "c6"
			}
			if clone && i == 5 {
				return ""
			}
			return c
		}
	}
	return ""
}

// vhooks are variables git sets when it runs commands itself; with them it uses
// the repository it was started in.
var vhooks = []string{"", "GIT_DIR=/home/u/repo/.git", "GIT_INDEX_FILE=/home/u/repo/.git/index.lock", "GIT_WORK_TREE=" + vhome}

// directed: a command is directed to the original repository. Only the last of
// the variables is of effect while cloning.
func (g *vgit) directed(c *vrt.ExecCmd, cloning bool) bool {
	for _, e := range c.Environ() {
		for i, h := range vhooks {
			if i > 0 && e == h && (!cloning || i == len(vhooks)-1) {
				return true
			}
		}
	}
	return false
}

// newVgit: the second analysis finds something when added is set.
func newVgit(prefix string, added bool) *vgit {
	g := &vgit{cwd: vhome}
	mktemp, gitdir, show, clone := g.fault("mktemp"), g.fault("gitdir"), g.fault("prefix"), g.fault("clone")
	getwd, enter, checkout, sub := g.fault("getwd"), g.fault("enter"), g.fault("checkout"), g.fault("sub")
	resolve, analyse, parse, back := g.fault("resolve"), g.fault("analyse"), g.fault("parse"), g.fault("back")
	below := func(n int) string {
		return g.tmp(n) + strings.TrimSuffix("/"+prefix, "/")
	}
	repo := "/home/u/repo/.git"
	if prefix == "" {
		repo = vhome + "/.git"
	}
	g.place = vrt.Choice("scratch", len(vplaces))
	scratch := vplaces[g.place]
	g.env = []string{"HOME=/home/u", vhooks[vrt.Choice("hook", len(vhooks))], "USER=u"}
	vrt.GetenvHook = func(k string) (string, bool) {
		if k == "CAPSLOCKTOOLSTMPDIR" {
			return scratch, scratch != "" || vrt.Bool("empty")
		}
		for _, e := range g.env {
			if v, ok := strings.CutPrefix(e, k+"="); ok {
				return v, true
			}
		}
		return "", false
	}
	vrt.EnvironHook = func() []string { return append([]string(nil), g.env...) }
	vrt.UnsetenvHook = func(k string) error {
		for i, e := range g.env {
			if strings.HasPrefix(e, k+"=") {
				g.env[i] = ""
			}
		}
		return nil
	}
	vrt.GetwdHook = func() (string, error) {
		if getwd.next() {
			return "", verifErr
		}
		return g.cwd, nil
	}
	vrt.MkdirTempHook = func(dir, pattern string) (string, error) {
		if dir != scratch && (dir == "" || vabs(g.cwd, dir) != path.Dir(g.tmp(0))) {
			g.misplaced = true
		}
		if mktemp.next() {
			return "", verifErr
		}
		n := g.made
		g.made++
		g.live[n] = true
		return vtmpName[g.place][n], nil
	}
	vrt.ChdirHook = func(dir string) error {
		dir = vabs(g.cwd, dir)
		if dir == vhome {
			if back.next() {
				g.stuck = true
				return verifErr
			}
			g.cwd = vhome
			return nil
		}
		for n := range g.live {
			if dir == below(n) && g.at[n] != "" {
				if !g.live[n] || sub.next() {
					return verifErr
				}
				g.cwd = below(n)
				return nil
			}
			if dir == g.tmp(n) {
				if !g.live[n] || enter.next() {
					return verifErr
				}
				g.cwd = g.tmp(n)
				return nil
			}
		}
		return verifErr
	}
	vrt.RemoveAllHook = func(name string) error {
		for n := range g.live {
			if vabs(g.cwd, name) == g.tmp(n) {
				g.live[n] = false
				return nil
			}
		}
		g.astray = true
		return nil
	}
	vrt.ExecHook = func(c *vrt.ExecCmd) error {
		dir := g.cwd
		if c.Dir != "" {
			dir = vabs(dir, c.Dir)
		}
		if c.Path == "capslock" {
			n := g.runs
			g.runs++
			g.where[n] = dir
			g.args[n] = c.Args
			for k := range g.live {
				if strings.HasPrefix(dir+"/", g.tmp(k)+"/") {
					g.rev[n] = g.at[k]
					if !g.live[k] {
						g.astray = true
					}
				}
			}
			if analyse.next() {
				return verifErr
			}
			return nil
		}
		if len(c.Args) < 2 {
			return verifErr
		}
		switch c.Args[1] {
		case "rev-parse":
			if dir != vhome {
				g.astray = true
			}
			if c.Args[2] == "--git-dir" || c.Args[2] == "--absolute-git-dir" {
				if gitdir.next() {
					return verifErr
				}
				// git names the directory relatively at the top of the tree
				if prefix == "" && c.Args[2] == "--git-dir" {
					c.Stdout.Write([]byte(".git\n"))
				} else {
					c.Stdout.Write([]byte(repo + "\n"))
				}
				return nil
			}
			if c.Args[2] == "--show-prefix" {
				if show.next() {
					return verifErr
				}
				c.Stdout.Write([]byte(prefix + "\n"))
				return nil
			}
			for _, a := range c.Args[2:] {
				if commit := vresolve(a, false); commit != "" {
					if resolve.next() {
						return verifErr
					}
					c.Stdout.Write([]byte(commit + "\n"))
					return nil
				}
			}
			return verifErr
		case "clone":
			if g.directed(c, true) {
				g.astray = true
			}
			source := false
			into := -1
			for _, a := range c.Args[2:] {
				if vabs(dir, a) == repo {
					source = true
				}
				for n := range g.live {
					if vabs(dir, a) == g.tmp(n) {
						into = n
					}
				}
			}
			if !source || into < 0 || !g.live[into] || g.cloned[into] {
				g.astray = true
				return verifErr
			}
			if clone.next() {
				return verifErr
			}
			g.cloned[into] = true
			return nil
		case "checkout", "switch":
			if g.directed(c, false) {
				g.astray = true
			}
			if checkout.next() {
				return verifErr
			}
			for n := range g.live {
				if dir == g.tmp(n) {
					if !g.cloned[n] {
						g.astray = true
					}
					for _, a := range c.Args[2:] {
						if commit := vresolve(a, true); commit != "" {
							g.at[n] = commit
							return nil
						}
					}
					return verifErr
				}
			}
			g.astray = true
			return nil
		case "log":
			return nil
		}
		return verifErr
	}
	vrt.UnmarshalHook = func(b []byte, m proto.Message) error {
		g.parses++
		bad := parse.next()
		var list []*cpb.CapabilityInfo
		if g.parses == 2 && added {
			list = append(list, &cpb.CapabilityInfo{
				Capability: cpb.Capability_CAPABILITY_FILES.Enum(),
				PackageDir: proto.String("ex.org/a"),
				Path:       []*cpb.Function{{Name: proto.String("ex.org/a.F"), Package: proto.String("ex.org/a")}},
			})
		}
		m.(*cpb.CapabilityInfoList).CapabilityInfo = list
		if bad {
			return verifErr
		}
		return nil
	}
	return g
}

// vgitCheck checks what was run and what is left.
func vgitCheck(g *vgit, status int, revs [2]string, prefix, granularity, capabilities, pkgs string, added bool) {
	for n := range g.live {
		vrt.Assert(!g.live[n], "the temporary directories are removed")
	}
	vrt.Assert(g.stuck || g.cwd == vhome, "the working directory is the original one")
	vrt.Assert(!g.misplaced, "temporary directories are made where they were asked for")
	vrt.Assert(!g.astray, "every command runs in its place and nothing else is removed")
	compared := false
	n := vrt.OutLines("stdout")
	for i := 0; i < n; i++ {
		if present, _ := vrt.OutLine("stdout", i); present {
			compared = true
		}
	}
	if g.failed {
		vrt.Assert(status == 2, "a failure gives status 2")
		vrt.Assert(!compared, "no comparison after a failure")
		vrt.Assert(vdiffExplained(), "a failure is explained")
	} else {
		vrt.Assert(status == vrt.If(added, 1, 0), "the status tells whether the second result has more")
		vrt.Assert(compared, "the comparison is printed")
		vrt.Assert(g.runs == 2 && g.parses == 2, "both revisions are analysed")
	}
	temps := 0
	for r := 0; r < 2; r++ {
		dir := vhome
		rev := ""
		if revs[r] != "." {
			dir = g.tmp(temps) + strings.TrimSuffix("/"+prefix, "/")
			temps++
			rev = vresolve(revs[r], false)
		}
		if g.runs <= r {
			continue
		}
		vrt.Assert(g.where[r] == dir, "the analyser runs in the corresponding directory")
		vrt.Assert(g.rev[r] == rev, "the analyser runs on the revision asked for")
		gr, ca, pa, out := false, capabilities == "", false, false
		for i, a := range g.args[r] {
			if i == 0 {
				continue
			}
			switch a {
			case "-granularity=" + granularity:
				gr = true
			case "-packages=" + pkgs:
				pa = true
			case "-output=json":
				out = true
			case "-capabilities=" + capabilities:
				ca = true
			default:
				out = false
			}
		}
		vrt.Assert(gr && ca && pa && out, "the settings are passed on")
	}
	vrt.Cover(!g.failed && g.made == 2, "two clones compared")
	vrt.Cover(g.failed && g.runs == 2 && g.made == 2, "a late failure")
}

// VerifC21Faults: every failure pattern of making the temporary directory,
// finding the repository and the commit, cloning, entering, checking out, analysing, reading
// the result and returning, for both revisions, each the current state or a
// tag, the last commit, a branch of another repository or a revision relative to
// a branch, in the top or a lower directory, without a place for temporary
// files or with one named absolutely or relatively, started by git itself or not.
//
//verif:harness C21 both
func VerifC21Faults() {
	revs := [2]string{
		vrevs[vrt.Choice("rev0", len(vrevs))],
		vrevs[vrt.Choice("rev1", len(vrevs))],
	}
	prefix := []string{"", "sub/", " a b/"}[vrt.Choice("below", 3)]
	added := vrt.Bool("added")
	vdiffFlags("package", "", revs[0], revs[1])
	g := newVgit(prefix, added)
	vgitCheck(g, vdiffRun(), revs, prefix, "package", "", "./...", added)
}

// VerifC21Settings: the granularity, capabilities and packages asked for, with
// failures of the analysis only.
//
//verif:harness C21 both
func VerifC21Settings() {
	granularity := []string{"package", "intermediate", "function", ""}[vrt.Choice("granularity", 4)]
	capabilities := []string{"", "-UNANALYZED", "FILES,NETWORK"}[vrt.Choice("capabilities", 3)]
	pkgs := []string{"./...", "./x", "ex.org/a,ex.org/b"}[vrt.Choice("packages", 3)]
	added := vrt.Bool("added")
	revs := [2]string{[]string{".", "v1"}[vrt.Choice("rev0", 2)], "v2"}
	args := []string{revs[0], revs[1], pkgs}
	if pkgs == "./..." && vrt.Bool("default") {
		args = args[:2]
	}
	vdiffFlags(granularity, capabilities, args...)
	vrt.SetBoolFlag("v", vrt.Bool("verbose"))
	g := newVgit("", added)
	vgitCheck(g, vdiffRun(), revs, "", granularity, capabilities, pkgs, added)
}

// VerifC21Usage: any wrong number of arguments up to five.
//
//verif:harness C21 both
func VerifC21Usage() {
	n := vrt.Choice("args", 6)
	vrt.Assume(n != 2 && n != 3)
	vdiffFlags("package", "", []string{"v1", "v2", "./x", "y", "z"}[:n]...)
	g := newVgit("", false)
	status := vdiffRun()
	vrt.Assert(status == 2, "a wrong number of arguments gives status 2")
	vrt.Assert(g.runs == 0 && g.made == 0 && vrt.OutLines("stdout") == 0, "nothing is run or compared")
}
