package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	gotoken "go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/google/capslock"
const vrtPath = modPath + "/vrt"

// Loaded is the program under analysis.
type Loaded struct {
	prog   *ssa.Program
	hasher typeutil.Hasher
	mu     sync.Mutex
	pkgs   map[string]*ssa.Package
	embeds map[string]string // global -> content
	dirs   []string          // directories of the checked packages
}

// shims lists the external functions replaced by stand-ins in package vrt.
var shims = map[string]string{
	"golang.org/x/tools/go/callgraph/vta.CallGraph":                  "VtaCallGraph",
	"golang.org/x/tools/go/ssa/ssautil.AllPackages":                  "SsaAllPackages",
	"golang.org/x/tools/go/ssa/ssautil.AllFunctions":                 "SsaAllFunctions",
	"golang.org/x/tools/go/packages.Load":                            "PackagesLoad",
	"golang.org/x/tools/go/packages.Visit":                           "PackagesVisit",
	"google.golang.org/protobuf/encoding/protojson.Unmarshal":        "ProtojsonUnmarshal",
	"google.golang.org/protobuf/encoding/protojson.Marshal":          "ProtojsonMarshal",
	"google.golang.org/protobuf/encoding/protojson.MarshalOptions":   "ProtojsonMarshalOptions",
	"google.golang.org/protobuf/encoding/protojson.UnmarshalOptions": "ProtojsonUnmarshalOptions",
	"runtime/pprof.StartCPUProfile":                                  "PprofStart",
	"runtime/pprof.StopCPUProfile":                                   "PprofStop",
	"runtime/pprof.WriteHeapProfile":                                 "PprofHeap",
	"runtime.GC":                                                     "RuntimeGC",
	"text/template.Must":                                             "TemplateMust",
	"text/template.New":                                              "TemplateNew",
	"text/template.FuncMap":                                          "TemplateFuncMap",
	"text/template.Template":                                         "Template",
	"text/tabwriter.NewWriter":                                       "TabNewWriter",
	"text/tabwriter.Writer":                                          "TabWriter",
	"bufio.NewWriter":                                                "BufNewWriter",
	"bufio.NewWriterSize":                                            "BufNewWriterSize",
	"bufio.Writer":                                                   "BufWriter",
	"os/exec.Command":                                                "ExecCommand",
	"os/exec.Cmd":                                                    "ExecCmd",
	"fmt.Print":                                                      "FmtPrint",
	"fmt.Println":                                                    "FmtPrintln",
	"fmt.Printf":                                                     "FmtPrintf",
	"log.Print":                                                      "LogPrint",
	"log.Println":                                                    "LogPrintln",
	"log.Printf":                                                     "LogPrintf",
	"log.Fatal":                                                      "LogFatal",
	"log.Fatalf":                                                     "LogFatalf",
	"log.Fatalln":                                                    "LogFatalln",
	"flag.String":                                                    "FlagString",
	"flag.Bool":                                                      "FlagBool",
	"flag.Int":                                                       "FlagInt",
	"flag.StringVar":                                                 "FlagStringVar",
	"flag.BoolVar":                                                   "FlagBoolVar",
	"flag.IntVar":                                                    "FlagIntVar",
	"flag.Parse":                                                     "FlagParse",
	"flag.Args":                                                      "FlagArgs",
	"flag.Arg":                                                       "FlagArg",
	"flag.NArg":                                                      "FlagNArg",
	"flag.PrintDefaults":                                             "FlagPrintDefaults",
	"flag.Usage":                                                     "FlagUsage",
	"os.ReadFile":                                                    "OsReadFile",
	"os.WriteFile":                                                   "OsWriteFile",
	"os.Open":                                                        "OsOpen",
	"os.Create":                                                      "OsCreate",
	"os.Getwd":                                                       "OsGetwd",
	"path/filepath.Abs":                                              "FilepathAbs",
	"os.Chdir":                                                       "OsChdir",
	"os.MkdirTemp":                                                   "OsMkdirTemp",
	"os.MkdirAll":                                                    "OsMkdirAll",
	"os.Mkdir":                                                       "OsMkdir",
	"os.RemoveAll":                                                   "OsRemoveAll",
	"os.Remove":                                                      "OsRemove",
	"os.Exit":                                                        "OsExit",
	"os.Setenv":                                                      "OsSetenv",
	"os.Unsetenv":                                                    "OsUnsetenv",
	"os.Getenv":                                                      "OsGetenv",
	"os.LookupEnv":                                                   "OsLookupEnv",
	"os.Environ":                                                     "OsEnviron",
	"os.TempDir":                                                     "OsTempDir",
	"os.Args":                                                        "OsArgs",
	"os.Stdout":                                                      "OsStdout",
	"os.Stderr":                                                      "OsStderr",
	"os.File":                                                        "OsFile",
}

var shimmedImports = map[string]bool{}

func init() {
	for k := range shims {
		i := strings.LastIndex(k, ".")
		shimmedImports[k[:i]] = true
	}
}

// rewrite replaces the references to shimmed functions in one source file.
func rewriteSource(filename string, src []byte, isCmd bool) ([]byte, error) {
	fset := gotoken.NewFileSet()
	f, err := parser.ParseFile(fset, filename, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	names := map[string]string{} // local name -> path
	used := map[string]bool{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		if shimmedImports[p] && n != "_" && n != "." {
			names[n] = p
		}
	}
	type edit struct {
		off, end int
		text     string
	}
	var edits []edit
	off := func(p gotoken.Pos) int { return fset.Position(p).Offset }
	local := map[*ast.Object]bool{}
	_ = local
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := names[id.Name]
		if !ok {
			return true
		}
		if s, ok := shims[p+"."+sel.Sel.Name]; ok {
			edits = append(edits, edit{off(sel.Pos()), off(sel.End()), "vrt." + s})
			used[id.Name] = true
		}
		return true
	})
	if isCmd {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				edits = append(edits, edit{off(fd.Name.Pos()), off(fd.Name.End()), "verifOrigMain"})
			}
		}
	}
	if len(edits) == 0 {
		return src, nil
	}
	if len(used) > 0 {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `; import vrt "` + vrtPath + `"`})
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out bytes.Buffer
	last := 0
	for _, e := range edits {
		out.Write(src[last:e.off])
		out.WriteString(e.text)
		last = e.end
	}
	out.Write(src[last:])
	out.WriteString("\n")
	// keep the imports used
	keep := map[string]string{"golang.org/x/tools/go/callgraph/vta": "var _ = %s.CallGraph", "golang.org/x/tools/go/ssa/ssautil": "var _ = %s.AllFunctions",
		"golang.org/x/tools/go/packages": "var _ %s.Package", "google.golang.org/protobuf/encoding/protojson": "var _ = %s.Marshal",
		"runtime/pprof": "var _ = %s.StopCPUProfile", "runtime": "var _ = %s.GC", "text/template": "var _ %s.Template", "text/tabwriter": "var _ %s.Writer",
		"bufio": "var _ %s.Reader", "os/exec": "var _ %s.Error", "fmt": "var _ %s.Stringer", "log": "var _ = %s.Print", "flag": "var _ = %s.Parse", "os": "var _ %s.FileMode", "path/filepath": "var _ = %s.Base"}
	var ns []string
	for n := range used {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&out, keep[names[n]]+"\n", n)
	}
	return out.Bytes(), nil
}

// safeRefs are the operating-system references that native runs may execute.
var safeRefs = map[string]bool{"os.FileMode": true, "os.ErrNotExist": true, "os.IsNotExist": true, "os.PathSeparator": true, "os.ModePerm": true, "os.DevNull": true,
	"os/exec.Error": true, "os/exec.ExitError": true, "os/exec.ErrNotFound": true, "os.PathError": true, "os.IsExist": true, "os.ErrExist": true}

// unsafeRef names a reference in a rewritten source file that reaches the
// operating system without going through a stand-in.
func unsafeRef(filename string, src []byte) string {
	fset := gotoken.NewFileSet()
	f, err := parser.ParseFile(fset, filename, src, 0)
	if err != nil {
		return err.Error()
	}
	names := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		if p == "os" || p == "os/exec" || p == "syscall" || p == "io/ioutil" || p == "golang.org/x/sys/unix" {
			names[n] = p
		}
	}
	bad := ""
	ast.Inspect(f, func(n ast.Node) bool {
		if sel, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := sel.X.(*ast.Ident); ok && id.Obj == nil {
				if p, ok := names[id.Name]; ok && !safeRefs[p+"."+sel.Sel.Name] {
					bad = filepath.Base(filename) + " uses " + p + "." + sel.Sel.Name
				}
			}
		}
		return true
	})
	return bad
}

// repoDirs are the packages under analysis (relative to the repository root).
func repoDirs(repo string) []string {
	var out []string
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := fi.Name()
			if strings.HasPrefix(b, ".") && p != repo || b == "testpkgs" || b == "testdata" || b == "testing" || b == "docs" || b == "vrt" {
				return filepath.SkipDir
			}
			ents, _ := os.ReadDir(p)
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
					r, _ := filepath.Rel(repo, p)
					out = append(out, r)
					break
				}
			}
		}
		return nil
	})
	return out
}

type HarnessFn struct {
	Prop  string
	Pkg   string // directory
	Name  string
	Tiers string // quick, thorough, both
	File  string
	Opts  map[string]string
	Doc   string
	Case  map[string]uint64 // case split
}

var harnessRe = regexp.MustCompile(`^//verif:harness\s+(\S+)(.*)$`)

// scanHarness lists the harness functions declared in one file.
func scanHarness(dir, file string) ([]HarnessFn, error) {
	fset := gotoken.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var out []HarnessFn
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			m := harnessRe.FindStringSubmatch(c.Text)
			if m == nil {
				continue
			}
			h := HarnessFn{Prop: m[1], Pkg: dir, Name: fd.Name.Name, File: file, Tiers: "both", Opts: map[string]string{}, Doc: strings.Join(strings.Fields(fd.Doc.Text()), " ")}
			for _, o := range strings.Fields(m[2]) {
				if k, v, ok := strings.Cut(o, "="); ok {
					h.Opts[k] = v
				} else {
					h.Tiers = o
				}
			}
			out = append(out, h)
		}
	}
	return out, nil
}

var needRe = regexp.MustCompile(`(?m)^//verif:use\s+(.*)$`)

// buildOverlay computes the virtual files for the given property.
func buildOverlay(repo, verif, prop string, exclude map[string]bool) (map[string][]byte, []HarnessFn, error) {
	ov := map[string][]byte{}
	for _, d := range repoDirs(repo) {
		dir := filepath.Join(repo, d)
		ents, err := os.ReadDir(dir)
		if err != nil {
			return nil, nil, err
		}
		isCmd := strings.HasPrefix(d, "cmd/")
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, ".pb.go") {
				continue
			}
			p := filepath.Join(dir, n)
			src, err := os.ReadFile(p)
			if err != nil {
				return nil, nil, err
			}
			out, err := rewriteSource(p, src, isCmd)
			if err != nil {
				return nil, nil, err
			}
			ov[p] = out
		}
	}
	vf, err := filepath.Glob(filepath.Join(verif, "vrt", "*.go"))
	if err != nil {
		return nil, nil, err
	}
	for _, p := range vf {
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, nil, err
		}
		ov[filepath.Join(repo, "vrt", filepath.Base(p))] = src
	}
	// harness files
	var hs []HarnessFn
	root := filepath.Join(verif, "harness")
	files := map[string]bool{}
	var all []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			all = append(all, p)
		}
		return nil
	})
	var add func(p string) error
	add = func(p string) error {
		if files[p] {
			return nil
		}
		files[p] = true
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		ov[filepath.Join(repo, rel, "zz_verif_"+filepath.Base(p))] = src
		for _, m := range needRe.FindAllStringSubmatch(string(src), -1) {
			for _, u := range strings.Fields(m[1]) {
				if err := add(filepath.Join(root, u)); err != nil {
					return err
				}
			}
		}
		return nil
	}
	for _, p := range all {
		if exclude[filepath.Base(p)] {
			continue
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		h, err := scanHarness(rel, p)
		if err != nil {
			return nil, nil, err
		}
		for _, x := range h {
			if x.Prop == prop {
				hs = append(hs, x)
				if err := add(p); err != nil {
					return nil, nil, err
				}
			}
		}
	}
	// main functions for the native build
	byPkg := map[string][]HarnessFn{}
	for _, h := range hs {
		byPkg[h.Pkg] = append(byPkg[h.Pkg], h)
	}
	var imports, entries string
	n := 0
	var ds []string
	for d := range byPkg {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		es := ""
		for _, h := range byPkg[d] {
			if strings.HasPrefix(d, "cmd/") {
				es += fmt.Sprintf("\t\t%q: %s,\n", h.Name, h.Name)
			} else {
				es += fmt.Sprintf("\t\t%q: p%d.%s,\n", h.Name, n, h.Name)
			}
		}
		if strings.HasPrefix(d, "cmd/") {
			ov[filepath.Join(repo, d, "zz_verif_zmain.go")] = []byte("package main\n\nimport \"" + vrtPath + "\"\n\nfunc main() {\n\tvrt.NativeMain(map[string]func(){\n" + es + "\t})\n}\n")
			continue
		}
		imports += fmt.Sprintf("\tp%d %q\n", n, modPath+"/"+d)
		entries += es
		n++
	}
	for _, d := range repoDirs(repo) {
		if strings.HasPrefix(d, "cmd/") && byPkg[d] == nil {
			ov[filepath.Join(repo, d, "zz_verif_zmain.go")] = []byte("package main\n\nfunc main() { verifOrigMain() }\n")
		}
	}
	if entries != "" {
		ov[filepath.Join(repo, "zzverifmain", "main.go")] = []byte("package main\n\nimport (\n\t\"" + vrtPath + "\"\n" + imports + ")\n\nfunc main() {\n\tvrt.NativeMain(map[string]func(){\n" + entries + "\t})\n}\n")
	}
	return ov, hs, nil
}

type buildError struct{ msg string }

func (b buildError) Error() string { return b.msg }

// loadProgram loads and creates SSA packages for the harness packages.
func loadProgram(repo string, ov map[string][]byte, hs []HarnessFn) (*Loaded, error) {
	dirs := map[string]bool{}
	for _, h := range hs {
		dirs["./"+h.Pkg] = true
	}
	var pats []string
	for d := range dirs {
		pats = append(pats, d)
	}
	sort.Strings(pats)
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, buildError{strings.Join(errs, "; ")}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	ld := &Loaded{prog: prog, hasher: typeutil.MakeHasher(), pkgs: map[string]*ssa.Package{}, embeds: map[string]string{}}
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
	}
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
	}
	// embedded strings
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		if len(p.GoFiles) > 0 {
			ld.dirs = append(ld.dirs, filepath.Dir(p.GoFiles[0]))
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != gotoken.VAR || gd.Doc == nil {
					continue
				}
				for _, c := range gd.Doc.List {
					if pat, ok := strings.CutPrefix(c.Text, "//go:embed "); ok && len(gd.Specs) == 1 {
						vs := gd.Specs[0].(*ast.ValueSpec)
						if id, ok := vs.Type.(*ast.Ident); ok && id.Name == "string" {
							dir := filepath.Dir(p.Fset.Position(f.Pos()).Filename)
							if b, err := os.ReadFile(filepath.Join(dir, strings.TrimSpace(pat))); err == nil {
								ld.embeds[p.PkgPath+"."+vs.Names[0].Name] = string(b)
							}
						}
					}
				}
			}
		}
	})
	return ld, nil
}

// writeOverlay writes the overlay to dir for use with "go build -overlay".
func writeOverlay(dir string, ov map[string][]byte) (string, error) {
	rep := map[string]string{}
	var ks []string
	for k := range ov {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		p := filepath.Join(dir, fmt.Sprintf("f%03d.go", i))
		if err := os.WriteFile(p, ov[k], 0o644); err != nil {
			return "", err
		}
		rep[k] = p
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}
