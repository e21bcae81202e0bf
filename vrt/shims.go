package vrt

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/proto"
)

// ---- analysis front end ----

var (
	VtaHook          func(fns map[*ssa.Function]bool) *callgraph.Graph
	AllPackagesHook  func(pkgs []*packages.Package) *ssa.Program
	AllFunctionsHook func(prog *ssa.Program) map[*ssa.Function]bool
	LoadHook         func(cfg *packages.Config, patterns []string) ([]*packages.Package, error)
)

func VtaCallGraph(fns map[*ssa.Function]bool, initial *callgraph.Graph) *callgraph.Graph {
	return VtaHook(fns)
}

func SsaAllPackages(pkgs []*packages.Package, mode ssa.BuilderMode) (*ssa.Program, []*ssa.Package) {
	return AllPackagesHook(pkgs), nil
}

func SsaAllFunctions(prog *ssa.Program) map[*ssa.Function]bool { return AllFunctionsHook(prog) }

// PackagesVisit stands in for packages.Visit. In a symbolic run the imports of
// a package are taken in order without making a list of them first.
func PackagesVisit(pkgs []*packages.Package, pre func(*packages.Package) bool, post func(*packages.Package)) {
	if !Symbolic() {
		packages.Visit(pkgs, pre, post)
		return
	}
	seen := make(map[*packages.Package]bool)
	var visit func(*packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		if pre == nil || pre(p) {
			for _, q := range OrderedImports(p.Imports) {
				visit(q)
			}
		}
		if post != nil {
			post(p)
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
}

// OrderedImports returns the map itself; a symbolic run goes through it in the
// order of the keys.
func OrderedImports(m map[string]*packages.Package) map[string]*packages.Package { return m }

func PackagesLoad(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if LoadHook == nil {
		return nil, nil
	}
	return LoadHook(cfg, patterns)
}

// ---- protojson ----

var (
	UnmarshalHook func(b []byte, m proto.Message) error
	MarshalHook   func(m proto.Message) ([]byte, error)
)

func ProtojsonUnmarshal(b []byte, m proto.Message) error { return UnmarshalHook(b, m) }
func ProtojsonMarshal(m proto.Message) ([]byte, error)   { return MarshalHook(m) }

type ProtojsonMarshalOptions struct {
	Multiline         bool
	Indent            string
	AllowPartial      bool
	UseProtoNames     bool
	UseEnumNumbers    bool
	EmitUnpopulated   bool
	EmitDefaultValues bool
}

func (o ProtojsonMarshalOptions) Marshal(m proto.Message) ([]byte, error) { return MarshalHook(m) }
func (o ProtojsonMarshalOptions) Format(m proto.Message) string {
	b, _ := MarshalHook(m)
	return string(b)
}

type ProtojsonUnmarshalOptions struct {
	AllowPartial   bool
	DiscardUnknown bool
	RecursionLimit int
}

func (o ProtojsonUnmarshalOptions) Unmarshal(b []byte, m proto.Message) error {
	return UnmarshalHook(b, m)
}

// ---- profiling ----

var ProfHook func(op string) error

func prof(op string) error {
	if ProfHook != nil {
		return ProfHook(op)
	}
	return nil
}
func PprofStart(w io.Writer) error { return prof("start") }
func PprofStop()                   { prof("stop") }
func PprofHeap(w io.Writer) error  { return prof("heap") }
func RuntimeGC()                   {}

// ---- writers ----

// channels: "stdout", "stderr", "log", "buf0", ...

type OsFile struct {
	Ch   string
	Name string
	Rd   io.Reader
}

// WriteHook, if set, decides whether writing to a file fails.
var WriteHook func(ch string) error

func emit(ch, s string, n int) (int, error) {
	if WriteHook != nil {
		if err := WriteHook(ch); err != nil {
			return 0, err
		}
	}
	Emit(ch, s)
	return n, nil
}

func (f *OsFile) Write(b []byte) (int, error)       { return emit(f.Ch, string(b), len(b)) }
func (f *OsFile) WriteString(s string) (int, error) { return emit(f.Ch, s, len(s)) }
func (f *OsFile) Read(b []byte) (int, error) {
	if f.Rd == nil {
		return 0, io.EOF
	}
	return f.Rd.Read(b)
}
func (f *OsFile) Close() error {
	if CloseHook != nil {
		return CloseHook(f)
	}
	return nil
}

var CloseHook func(f *OsFile) error

var (
	OsStdout = &OsFile{Ch: "stdout", Name: "stdout"}
	OsStderr = &OsFile{Ch: "stderr", Name: "stderr"}
)

// MoveOut moves the text of one channel to the end of another.
func MoveOut(from, to string) {
	var n []outEv
	for _, o := range outs {
		if o.ch != from {
			n = append(n, o)
		}
	}
	for _, o := range outs {
		if o.ch == from {
			n = append(n, outEv{to, o.s})
		}
	}
	outs = n
}

var bufSeq int

type BufWriter struct {
	w  io.Writer
	ch string
}

func BufNewWriter(w io.Writer) *BufWriter { return BufNewWriterSize(w, 4096) }
func BufNewWriterSize(w io.Writer, n int) *BufWriter {
	bufSeq++
	return &BufWriter{w: w, ch: fmt.Sprintf("buf%d", bufSeq)}
}
func (b *BufWriter) Write(p []byte) (int, error) {
	Emit(b.ch, string(p))
	return len(p), nil
}
func (b *BufWriter) WriteString(s string) (int, error) {
	Emit(b.ch, s)
	return len(s), nil
}
func (b *BufWriter) WriteByte(c byte) error {
	Emit(b.ch, string([]byte{c}))
	return nil
}
func (b *BufWriter) WriteRune(r rune) (int, error) {
	Emit(b.ch, string(r))
	return 1, nil
}
func (b *BufWriter) Flush() error {
	if f, ok := b.w.(*OsFile); ok {
		if WriteHook != nil {
			if err := WriteHook(f.Ch); err != nil {
				return err
			}
		}
		MoveOut(b.ch, f.Ch)
		return nil
	}
	if f, ok := b.w.(*BufWriter); ok {
		MoveOut(b.ch, f.ch)
		return nil
	}
	n := OutLines(b.ch)
	for i := 0; i < n; i++ {
		p, s := OutLine(b.ch, i)
		if p {
			if _, err := io.WriteString(b.w, s+"\n"); err != nil {
				return err
			}
		}
	}
	OutReset(b.ch)
	return nil
}

type TabWriter struct{ BufWriter }

func TabNewWriter(w io.Writer, minwidth, tabwidth, padding int, padchar byte, flags uint) *TabWriter {
	bufSeq++
	return &TabWriter{BufWriter{w: w, ch: fmt.Sprintf("buf%d", bufSeq)}}
}

func FmtPrint(a ...any) (int, error) {
	return emit("stdout", fmt.Sprint(a...), 0)
}
func FmtPrintln(a ...any) (int, error) {
	return emit("stdout", fmt.Sprintln(a...), 0)
}
func FmtPrintf(f string, a ...any) (int, error) {
	return emit("stdout", fmt.Sprintf(f, a...), 0)
}

func LogPrint(a ...any)            { Emit("log", "log\n") }
func LogPrintln(a ...any)          { Emit("log", "log\n") }
func LogPrintf(f string, a ...any) { Emit("log", "log\n") }
func LogFatal(a ...any)            { Emit("log", "log\n"); OsExit(1) }
func LogFatalln(a ...any)          { Emit("log", "log\n"); OsExit(1) }
func LogFatalf(f string, a ...any) { Emit("log", "log\n"); OsExit(1) }

// ---- flags ----

var (
	strFlags  = map[string]*string{}
	boolFlags = map[string]*bool{}
	intFlags  = map[string]*int{}
	Argv      []string
	FlagUsage func()
	// FlagBad makes FlagParse report a usage error, as for an unknown flag.
	FlagBad bool
)

func FlagString(name, val, usage string) *string {
	p := new(string)
	*p = val
	strFlags[name] = p
	return p
}
func FlagBool(name string, val bool, usage string) *bool {
	p := new(bool)
	*p = val
	boolFlags[name] = p
	return p
}
func FlagInt(name string, val int, usage string) *int {
	p := new(int)
	*p = val
	intFlags[name] = p
	return p
}
func FlagStringVar(p *string, name, val, usage string) { *p = val; strFlags[name] = p }
func FlagBoolVar(p *bool, name string, val bool, usage string) {
	*p = val
	boolFlags[name] = p
}
func FlagIntVar(p *int, name string, val int, usage string) { *p = val; intFlags[name] = p }

// SetFlag sets the value of a string flag.
func SetFlag(name, v string) { *strFlags[name] = v }

// SetBoolFlag sets the value of a boolean flag.
func SetBoolFlag(name string, v bool) { *boolFlags[name] = v }

// SetIntFlag sets the value of an integer flag.
func SetIntFlag(name string, v int) { *intFlags[name] = v }

// GetFlag returns the value of a string flag.
func GetFlag(name string) string { return *strFlags[name] }

func FlagParse()         {}
func FlagArgs() []string { return Argv }
func FlagNArg() int      { return len(Argv) }
func FlagArg(i int) string {
	if i < 0 || i >= len(Argv) {
		return ""
	}
	return Argv[i]
}
func FlagPrintDefaults() {}

// ---- operating system ----

// Hooks; when nil the operation fails.
var (
	ReadFileHook  func(name string) ([]byte, error)
	WriteFileHook func(name string, b []byte) error
	OpenHook      func(name string) (*OsFile, error)
	CreateHook    func(name string) (*OsFile, error)
	GetwdHook     func() (string, error)
	ChdirHook     func(dir string) error
	MkdirTempHook func(dir, pattern string) (string, error)
	MkdirHook     func(dir string) error
	RemoveAllHook func(path string) error
	SetenvHook    func(k, v string) error
	UnsetenvHook  func(k string) error
	GetenvHook    func(k string) (string, bool)
	EnvironHook   func() []string
	ExecHook      func(c *ExecCmd) error
	OsArgs        = []string{"/bin/capslock"}
)

var errNoHook = errors.New("operation not available")

func OsReadFile(name string) ([]byte, error) {
	if ReadFileHook == nil {
		return nil, errNoHook
	}
	return ReadFileHook(name)
}
func OsWriteFile(name string, b []byte, mode os.FileMode) error {
	if WriteFileHook == nil {
		return errNoHook
	}
	return WriteFileHook(name, b)
}
func OsOpen(name string) (*OsFile, error) {
	if OpenHook == nil {
		return nil, errNoHook
	}
	return OpenHook(name)
}
func OsCreate(name string) (*OsFile, error) {
	if CreateHook == nil {
		return nil, errNoHook
	}
	return CreateHook(name)
}
func OsGetwd() (string, error) {
	if GetwdHook == nil {
		return "", errNoHook
	}
	return GetwdHook()
}

// FilepathAbs is relative to the working directory the harness decides on.
func FilepathAbs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := OsGetwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}
func OsChdir(dir string) error {
	if ChdirHook == nil {
		return errNoHook
	}
	return ChdirHook(dir)
}
func OsMkdirTemp(dir, pattern string) (string, error) {
	if MkdirTempHook == nil {
		return "", errNoHook
	}
	return MkdirTempHook(dir, pattern)
}
func OsMkdirAll(dir string, mode os.FileMode) error {
	if MkdirHook == nil {
		return errNoHook
	}
	return MkdirHook(dir)
}
func OsMkdir(dir string, mode os.FileMode) error { return OsMkdirAll(dir, mode) }
func OsRemoveAll(path string) error {
	if RemoveAllHook == nil {
		return errNoHook
	}
	return RemoveAllHook(path)
}
func OsRemove(path string) error { return OsRemoveAll(path) }
func OsExit(code int)            { Exit(code) }
func OsSetenv(k, v string) error {
	if SetenvHook == nil {
		return nil
	}
	return SetenvHook(k, v)
}
func OsUnsetenv(k string) error {
	if UnsetenvHook == nil {
		return nil
	}
	return UnsetenvHook(k)
}
func OsGetenv(k string) string {
	if GetenvHook == nil {
		return ""
	}
	v, _ := GetenvHook(k)
	return v
}
func OsLookupEnv(k string) (string, bool) {
	if GetenvHook == nil {
		return "", false
	}
	return GetenvHook(k)
}
func OsEnviron() []string {
	if EnvironHook == nil {
		return nil
	}
	return EnvironHook()
}
func OsTempDir() string { return "/tmp" }

// ExecCmd stands in for exec.Cmd.
type ExecCmd struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
}

func ExecCommand(name string, args ...string) *ExecCmd {
	return &ExecCmd{Path: name, Args: append([]string{name}, args...)}
}
func (c *ExecCmd) Run() error {
	if ExecHook == nil {
		return errNoHook
	}
	return ExecHook(c)
}
func (c *ExecCmd) Start() error { return c.Run() }
func (c *ExecCmd) Wait() error  { return nil }

type outBuf struct{ s string }

func (o *outBuf) Write(p []byte) (int, error) {
	o.s += string(p)
	return len(p), nil
}
func (c *ExecCmd) Output() ([]byte, error) {
	var o outBuf
	c.Stdout = &o
	err := c.Run()
	return []byte(o.s), err
}
func (c *ExecCmd) CombinedOutput() ([]byte, error) {
	var o outBuf
	c.Stdout = &o
	c.Stderr = &o
	err := c.Run()
	return []byte(o.s), err
}
func (c *ExecCmd) String() string { return c.Path }
func (c *ExecCmd) Environ() []string {
	if c.Env == nil {
		return OsEnviron()
	}
	return c.Env
}
