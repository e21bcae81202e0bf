From b0b2740d2ff1d737e2d3e85f4af8f3377e7a9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:33 +0000
Subject: [PATCH 01/16] fix: use the ignore_edge entries of the classifier in
 use

IncludeCall always consulted the built-in map, so ignore_edge lines of a
user-supplied capability map had no effect, and the built-in ones still
applied when the built-in map was excluded.
---
 interesting/interesting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 19770be..5be9707 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -183,7 +183,7 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 func (c *Classifier) IncludeCall(edge *callgraph.Edge) bool {
 	caller := edge.Caller.Func.String()
 	callee := edge.Callee.Func.String()
-	_, ok := internalMap.ignoredEdges[[2]string{caller, callee}]
+	_, ok := c.ignoredEdges[[2]string{caller, callee}]
 	return !ok
 }
 
-- 
2.43.0


From 9135efb349e2eba69c0ac68b60b6396cd803eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:41 +0000
Subject: [PATCH 02/16] fix: report errors from reading a capability map

A read error or an overlong line ended parsing silently, and the rest of
the map was ignored.
---
 interesting/interesting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 5be9707..00437bb 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -115,6 +115,9 @@ func parseCapabilityMap(source string, r io.Reader) (*Classifier, error) {
 			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("%v:%v: %w", source, line+1, err)
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From 6cdd41e750a92b663a389876e572e5c418019fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:20 +0000
Subject: [PATCH 03/16] fix: drop all unanalyzed entries when excluding
 unanalyzed

func and package lines can name CAPABILITY_UNANALYZED too (the built-in map
has one); the classifier that is documented to never return it still did.
---
 interesting/interesting.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 00437bb..3c16af0 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -144,6 +144,14 @@ func DefaultClassifier() *Classifier {
 func ClassifierExcludingUnanalyzed(classifier *Classifier) *Classifier {
 	withoutUnanalyzed := *classifier
 	withoutUnanalyzed.unanalyzedCategory = nil
+	// Function and package entries can also specify CAPABILITY_UNANALYZED.
+	isUnanalyzed := func(_ string, c cpb.Capability) bool {
+		return c == cpb.Capability_CAPABILITY_UNANALYZED
+	}
+	withoutUnanalyzed.functionCategory = maps.Clone(classifier.functionCategory)
+	maps.DeleteFunc(withoutUnanalyzed.functionCategory, isUnanalyzed)
+	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)
+	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)
 	return &withoutUnanalyzed
 }
 
-- 
2.43.0


From 3987a2536a399df9081c43b2a09529630850ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:20 +0000
Subject: [PATCH 04/16] fix: let a caller's unanalyzed entry override a builtin
 function entry

LoadClassifier documents that the caller's classifications always
override the builtin ones.  A builtin func entry was still preferred over
the caller's unanalyzed entry for the same function.
---
 interesting/interesting.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 3c16af0..020ddc9 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -181,6 +181,11 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)
 	}
 	cc(ret, internalMap)
+	// A function entry takes precedence over an unanalyzed entry, so a builtin
+	// one would hide the caller's unanalyzed entry for the same function.
+	for name := range userClassifier.unanalyzedCategory {
+		delete(ret.functionCategory, name)
+	}
 	cc(ret, userClassifier)
 	sort.Strings(ret.cgoSuffixes)
 	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates
-- 
2.43.0


From c4906f0b0c679869f2fb426f76a6fcb659aad09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:02 +0000
Subject: [PATCH 05/16] fix: keep calls in the other arguments of sort.Slice

When a call to sort.Slice or sort.SliceStable is replaced by a call to its
callback, its first argument is dropped.  If that argument contains a call,
the call and its capabilities were lost.  Leave such statements alone, as is
already done for the receiver of (*sync.Once).Do.
---
 analyzer/util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 836da8f..c179bea 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -283,6 +283,12 @@ func (m *packageFunctionMatcher) match(typeInfo *types.Info, call *ast.CallExpr)
 		// The function call doesn't have enough arguments.
 		return nil
 	}
+	for i, arg := range call.Args {
+		if i != m.functionTypedParameterIndex && mayHaveSideEffects(arg) {
+			// The other arguments are dropped when the call is rewritten.
+			return nil
+		}
+	}
 	return call.Args[m.functionTypedParameterIndex]
 }
 
-- 
2.43.0


From 0836b6282b3bb29e362b25334bea44d10954b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:13 +0000
Subject: [PATCH 06/16] fix: compare intermediate packages when paths are
 omitted

Comparison at intermediate granularity only looked at the packages on the
example paths.  With -omit_paths there are none, so no difference was ever
found.  Also use the package an entry is about.
---
 analyzer/compare.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index 2cc3c9e..62bb9f8 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -87,6 +87,11 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 				m[mk] = ci
 			}
 		case GranularityIntermediate:
+			// The path is missing if paths are omitted.
+			mk.key = ci.GetPackageDir()
+			if mk.key != "" {
+				m[mk] = ci
+			}
 			for _, f := range ci.Path {
 				mk.key = f.GetPackage()
 				if mk.key != "" {
-- 
2.43.0


From ebbce0ae3a383b7dfc7bc542b36c2fca16673904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:18 +0000
Subject: [PATCH 07/16] fix: escape backslashes in graph output

Names of generic functions can contain struct tags, which are written with
quotes preceded by backslashes.  Escaping only the quotes ended the quoted
name early.
---
 analyzer/graph.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/analyzer/graph.go b/analyzer/graph.go
index e3de0da..bc9ae37 100644
--- a/analyzer/graph.go
+++ b/analyzer/graph.go
@@ -123,12 +123,20 @@ func (gb *graphBuilder) Edge(from, to interface{}) {
 	}
 	gb.Write([]byte("\t"))
 	gb.Write([]byte(`"`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(from), `"`, `\"`)))
+	gb.Write([]byte(escapeName(gb.nodeNamer(from))))
 	gb.Write([]byte(`" -> "`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(to), `"`, `\"`)))
+	gb.Write([]byte(escapeName(gb.nodeNamer(to))))
 	gb.Write([]byte("\"\n"))
 }
 
+// escapeName returns name with the characters escaped that are special inside
+// a quoted string.  Names of generic functions contain struct tags, which have
+// both quotes and backslashes.
+func escapeName(name string) string {
+	name = strings.ReplaceAll(name, `\`, `\\`)
+	return strings.ReplaceAll(name, `"`, `\"`)
+}
+
 func (gb *graphBuilder) Done() {
 	if gb.done {
 		panic("done")
-- 
2.43.0


From bee74a61bc316054a07fb7140bf346a850d42b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:58 +0000
Subject: [PATCH 08/16] fix: remove the temporary clones of capslock-git-diff

---
 cmd/capslock-git-diff/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index d2189e4..5333398 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -92,6 +92,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	if err != nil {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
+	defer os.RemoveAll(tmpdir)
 	// Get the location of the .git directory, so we can make a temporary clone.
 	var b bytes.Buffer
 	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
-- 
2.43.0


From f17c82a90c7964c75bb45337e8092363301d2333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:35 +0000
Subject: [PATCH 09/16] fix: leave the caller's configuration unchanged when
 the granularity is unset

---
 analyzer/analyzer.go | 4 +++-
 analyzer/compare.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 6e24058..982396a 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -84,7 +84,9 @@ func GetClassifier(excludeUnanalyzed bool) *interesting.Classifier {
 //     in pkgs to a function with a capability.
 func GetCapabilityInfo(pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) *cpb.CapabilityInfoList {
 	if config.Granularity == GranularityUnset {
-		config.Granularity = GranularityFunction
+		c := *config // leave the caller's configuration as it is
+		c.Granularity = GranularityFunction
+		config = &c
 	}
 	if config.Granularity == GranularityIntermediate {
 		return intermediatePackages(pkgs, queriedPackages, config)
diff --git a/analyzer/compare.go b/analyzer/compare.go
index 62bb9f8..39f1b49 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -45,7 +45,9 @@ func GranularityFromString(g string) (Granularity, error) {
 
 func compare(baselineFilename string, pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) (different bool, err error) {
 	if config.Granularity == GranularityUnset {
-		config.Granularity = GranularityPackage
+		c := *config // leave the caller's configuration as it is
+		c.Granularity = GranularityPackage
+		config = &c
 	}
 	compareData, err := os.ReadFile(baselineFilename)
 	if err != nil {
-- 
2.43.0


From 63a97e7f230cd8e736fcaa98d267fa3bb0948987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:56 +0000
Subject: [PATCH 10/16] fix: report failures to write JSON and machine-readable
 output

The JSON and machine-readable modes ignored errors from writing to standard
output, so an incomplete result, for instance on a full disk, left the exit
status at 0.  The other modes already fail in this case.
---
 analyzer/scan.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyzer/scan.go b/analyzer/scan.go
index d603b75..2147e13 100644
--- a/analyzer/scan.go
+++ b/analyzer/scan.go
@@ -57,8 +57,8 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		if err != nil {
 			return fmt.Errorf("internal error: couldn't marshal protocol buffer: %s", err.Error())
 		}
-		fmt.Println(string(b))
-		return nil
+		_, err = fmt.Println(string(b))
+		return err
 	} else if output == "m" || output == "machine" {
 		var cs []string
 		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
@@ -67,7 +67,9 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		}
 		sort.Strings(cs)
 		for _, c := range cs {
-			fmt.Println(c)
+			if _, err := fmt.Println(c); err != nil {
+				return err
+			}
 		}
 		return nil
 	} else if output == "v" || output == "verbose" {
-- 
2.43.0


From f87b009778a733b7aa6c169a0252004f4adf95ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:33:48 +0000
Subject: [PATCH 11/16] fix: leave standard library packages of other systems
 out of the package list

---
 analyzer/load.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/analyzer/load.go b/analyzer/load.go
index 5f30575..427bea0 100644
--- a/analyzer/load.go
+++ b/analyzer/load.go
@@ -10,7 +10,9 @@ import (
 	"go/types"
 	"os"
 	"path"
+	"path/filepath"
 	"sort"
+	"strings"
 	"sync"
 
 	cpb "github.com/google/capslock/proto"
@@ -21,6 +23,7 @@ import (
 var (
 	standardLibraryPackagesOnce sync.Once
 	standardLibraryPackagesMap  map[string]struct{}
+	standardLibraryDir          string // the directory containing these packages
 )
 
 // LoadConfig specifies the build tags, GOOS value, and GOARCH value to use
@@ -85,11 +88,27 @@ func standardLibraryPackages() map[string]struct{} {
 		standardLibraryPackagesMap = make(map[string]struct{})
 		for _, p := range pkgs {
 			standardLibraryPackagesMap[p.PkgPath] = struct{}{}
+			if len(p.GoFiles) > 0 {
+				dir := filepath.Dir(p.GoFiles[0])
+				if d, ok := strings.CutSuffix(dir, filepath.FromSlash("/"+p.PkgPath)); ok {
+					standardLibraryDir = d
+				}
+			}
 		}
 	})
 	return standardLibraryPackagesMap
 }
 
+// inStandardLibraryDir returns whether pkg is in the same directory tree as the
+// packages returned by standardLibraryPackages, which do not include packages
+// that are only built for other systems.
+func inStandardLibraryDir(pkg *packages.Package) bool {
+	return standardLibraryDir != "" &&
+		len(pkg.GoFiles) > 0 &&
+		pkg.GoFiles[0] == filepath.Join(standardLibraryDir, pkg.PkgPath, filepath.Base(pkg.GoFiles[0])) &&
+		!strings.HasPrefix(pkg.PkgPath, "cmd/")
+}
+
 func collectModuleInfo(pkgs []*packages.Package) []*cpb.ModuleInfo {
 	pathToModule := make(map[string]*cpb.ModuleInfo)
 	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
@@ -129,6 +148,10 @@ func collectPackageInfo(pkgs []*packages.Package) []*cpb.PackageInfo {
 			// Skip this package since it is part of the Go standard library.
 			return
 		}
+		if inStandardLibraryDir(pkg) {
+			// It is part of the Go standard library for some other system.
+			return
+		}
 		pi := new(cpb.PackageInfo)
 		pi.Path = proto.String(pkg.PkgPath)
 		for _, i := range pkg.IgnoredFiles {
-- 
2.43.0


From 7e406c595e5727bb1ae360d4a4155f731613b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:34:29 +0000
Subject: [PATCH 12/16] fix: allow a relative name in CAPSLOCKTOOLSTMPDIR

---
 cmd/capslock-git-diff/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 5333398..70d8456 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -92,7 +92,13 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	if err != nil {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
-	defer os.RemoveAll(tmpdir)
+	defer func() { os.RemoveAll(tmpdir) }()
+	// The name can be relative, but we switch directories below.
+	absdir, err := filepath.Abs(tmpdir)
+	if err != nil {
+		return nil, fmt.Errorf("finding temporary directory: %w", err)
+	}
+	tmpdir = absdir
 	// Get the location of the .git directory, so we can make a temporary clone.
 	var b bytes.Buffer
 	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
-- 
2.43.0


From e58e0b8afaf619850e9f45660caf67968cef6890 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:35:43 +0000
Subject: [PATCH 13/16] fix: remove the temporary module when its name is
 relative

---
 cmd/capslock/capslock.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/capslock/capslock.go b/cmd/capslock/capslock.go
index 5de09d4..7509968 100644
--- a/cmd/capslock/capslock.go
+++ b/cmd/capslock/capslock.go
@@ -20,6 +20,7 @@ import (
 	"log"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"runtime"
 	"runtime/pprof"
 	"strings"
@@ -230,6 +231,12 @@ func makeTemporaryModule(packageNames []string) (remove func(), err error) {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
 	remove = func() { os.RemoveAll(tmpdir) }
+	// The name can be relative, but we switch directories below.
+	absdir, err := filepath.Abs(tmpdir)
+	if err != nil {
+		return remove, fmt.Errorf("finding temporary directory: %w", err)
+	}
+	tmpdir = absdir
 	if err = os.Chdir(tmpdir); err != nil {
 		return remove, fmt.Errorf("switching to temporary directory: %w", err)
 	}
-- 
2.43.0


From 19a71f5e9d3f735cf45c55ae3a994426b6cf6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:11 +0000
Subject: [PATCH 14/16] fix: list the standard library when the current module
 cannot be loaded

---
 analyzer/load.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer/load.go b/analyzer/load.go
index 427bea0..2c75d37 100644
--- a/analyzer/load.go
+++ b/analyzer/load.go
@@ -82,6 +82,10 @@ func LoadPackages(packageNames []string, lcfg LoadConfig) ([]*packages.Package,
 func standardLibraryPackages() map[string]struct{} {
 	standardLibraryPackagesOnce.Do(func() {
 		pkgs, err := packages.Load(nil, "std")
+		if err != nil {
+			// The current directory may be in a module that cannot be loaded.
+			pkgs, err = packages.Load(&packages.Config{Dir: os.TempDir()}, "std")
+		}
 		if err != nil {
 			panic(err.Error())
 		}
-- 
2.43.0


From 0ba2b570cd7259309d80aeca19cf9be0c66ec425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:48 +0000
Subject: [PATCH 15/16] fix: resolve revisions in the repository instead of its
 clone

---
 cmd/capslock-git-diff/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 70d8456..fb313ce 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -114,6 +114,13 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	prefix := strings.TrimSuffix(b.String(), "\n")
 	vlog("current path in repository: %q", prefix)
 	b.Reset()
+	// Resolve the revision here, as its name could mean another one in the clone.
+	if err = run(&b, "git", "rev-parse", "--verify", rev+"^{commit}"); err != nil {
+		return nil, err
+	}
+	commit := strings.TrimSuffix(b.String(), "\n")
+	vlog("revision %q is commit %q", rev, commit)
+	b.Reset()
 	// Clone the repo.
 	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
@@ -136,7 +143,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	}
 	vlog("switched to directory %q", tmpdir)
 	// Checkout the revision.
-	if err = run(nil, "git", "checkout", rev, "--"); err != nil {
+	if err = run(nil, "git", "checkout", commit, "--"); err != nil {
 		return nil, err
 	}
 	// Go to the same directory in the clone.
-- 
2.43.0


From 55a03fe21a33ead743dc8f3a93c057c1ea84b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:42 +0000
Subject: [PATCH 16/16] fix: leave the repository alone when variables such as
 GIT_DIR are set

---
 cmd/capslock-git-diff/main.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index fb313ce..ff35a11 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -61,8 +61,14 @@ func vlog(format string, a ...any) {
 
 // run executes the specified command and writes its stdout to w.
 func run(w io.Writer, command string, args ...string) error {
+	return runWithEnv(nil, w, command, args...)
+}
+
+// runWithEnv is like run, but uses the specified environment if it is non-nil.
+func runWithEnv(env []string, w io.Writer, command string, args ...string) error {
 	vlog("running %s with args %q", command, args)
 	cmd := exec.Command(command, args...)
+	cmd.Env = env
 	cmd.Stdout = w
 	var stderr bytes.Buffer
 	if *verbose {
@@ -82,6 +88,15 @@ func run(w io.Writer, command string, args ...string) error {
 	return nil
 }
 
+// cloneEnv returns the environment without the variables that make git use a
+// particular repository, which are set for git hooks, for example.
+func cloneEnv() []string {
+	return slices.DeleteFunc(os.Environ(), func(v string) bool {
+		name, _, _ := strings.Cut(v, "=")
+		return name == "GIT_DIR" || name == "GIT_COMMON_DIR" || name == "GIT_WORK_TREE" || name == "GIT_INDEX_FILE"
+	})
+}
+
 func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err error) {
 	vlog("analyzing at revision %q", rev)
 	if rev == "." {
@@ -122,7 +137,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	vlog("revision %q is commit %q", rev, commit)
 	b.Reset()
 	// Clone the repo.
-	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
+	if err = runWithEnv(cloneEnv(), nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
 	}
 	// Temporarily switch directory.
@@ -143,7 +158,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	}
 	vlog("switched to directory %q", tmpdir)
 	// Checkout the revision.
-	if err = run(nil, "git", "checkout", commit, "--"); err != nil {
+	if err = runWithEnv(cloneEnv(), nil, "git", "checkout", commit, "--"); err != nil {
 		return nil, err
 	}
 	// Go to the same directory in the clone.
-- 
2.43.0

