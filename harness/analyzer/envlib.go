package analyzer

import (
	"strings"

	"github.com/google/capslock/vrt"
	"golang.org/x/tools/go/packages"
)

// A vload is what the loader was asked for.
type vload struct {
	calls    int
	cfg      *packages.Config
	patterns []string
	environ  []string
}

// VloadStart makes the loader record its arguments.
func vloadStart(environ []string) *vload {
	l := &vload{environ: environ}
	vrt.EnvironHook = func() []string { return append([]string(nil), environ...) }
	vrt.GetenvHook = func(k string) (string, bool) { return vlookup(environ, k) }
	vrt.LoadHook = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
		l.calls++
		l.cfg = cfg
		l.patterns = patterns
		return nil, nil
	}
	return l
}

// vlookup is the value a program sees: the last one.
func vlookup(env []string, k string) (string, bool) {
	v, ok := "", false
	for _, e := range env {
		if strings.HasPrefix(e, k+"=") {
			v, ok = e[len(k)+1:], true
		}
	}
	return v, ok
}

// env is the environment the packages are loaded with.
func (l *vload) env() []string {
	if len(l.cfg.Env) == 0 {
		return l.environ
	}
	return l.cfg.Env
}

// tags is the value of the last tags flag.
func (l *vload) tags() (string, bool) {
	v, ok := "", false
	fl := l.cfg.BuildFlags
	for i := 0; i < len(fl); i++ {
		f := fl[i]
		if strings.HasPrefix(f, "--") {
			f = f[1:]
		}
		if strings.HasPrefix(f, "-tags=") {
			v, ok = f[len("-tags="):], true
		} else if f == "-tags" && i+1 < len(fl) {
			v, ok = fl[i+1], true
			i++
		}
	}
	return v, ok
}

// check compares what the loader is asked for with what was requested.
func (l *vload) check(patterns []string, tags, goos, goarch string) {
	vrt.Assert(l.calls == 1, "packages are loaded once")
	vrt.Assert(len(l.patterns) == len(patterns), "all patterns are passed on")
	for i := 0; i < len(l.patterns) && i < len(patterns); i++ {
		vrt.Assert(l.patterns[i] == patterns[i], "patterns are passed on unchanged")
	}
	got, ok := l.tags()
	vrt.Assert(got == tags && ok == (tags != ""), "build tags are passed on")
	for _, s := range []struct{ k, want string }{{"GOOS", goos}, {"GOARCH", goarch}} {
		want, has := vlookup(l.environ, s.k)
		if s.want != "" {
			want, has = s.want, true
		}
		got, ok := vlookup(l.env(), s.k)
		vrt.Assert(got == want && ok == has, "system and architecture are as requested or inherited")
	}
	for _, k := range []string{"HOME", "GOFLAGS", "GOOSX", "GOWORK", "PATH"} {
		want, has := vlookup(l.environ, k)
		got, ok := vlookup(l.env(), k)
		vrt.Assert(got == want && ok == has, "the rest of the environment is passed on")
	}
	need := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
		packages.NeedTypesSizes | packages.NeedModule
	vrt.Assert(l.cfg.Mode&need == need, "all information is requested")
	vrt.Assert(l.cfg.Dir == "" || l.cfg.Dir == ".", "packages are loaded in the current directory")
}

// venviron is an environment with or without the variables that matter.
func venviron() []string {
	env := []string{"HOME=/home/u"}
	add := func(name, entry string) {
		if vrt.Bool(name) {
			env = append(env, entry)
		}
	}
	add("env_goos", "GOOS=plan9")
	add("env_goosx", "GOOSX=1")
	add("env_goarch", "GOARCH=386")
	add("env_goflags", "GOFLAGS=-mod=mod")
	env = append(env, "PATH=/bin")
	add("env_again", "GOOS=aix")
	return env
}

var vtags = []string{"", "a", "a,b", "linux,-x", "a b"}
var vgoos = []string{"", "linux", "windows", "plan9"}
var vgoarch = []string{"", "amd64", "386"}
