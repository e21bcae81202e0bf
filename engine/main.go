package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fRepo    = flag.String("repo", "/repo", "repository")
	fVerif   = flag.String("verif", "/verif", "verification directory")
	fOnly    = flag.String("harness", "", "run only this harness")
	fV       = flag.Bool("v", false, "verbose")
	fProf    = flag.Bool("fnprof", false, "print functions by steps")
	fPar     = flag.Int("par", 6, "harnesses run in parallel")
	fReplay  = flag.String("replay", "", "replay a counterexample file")
	fCPU     = flag.String("cpuprofile", "", "write CPU profile")
	fSecond  = flag.String("second", "", "second solver for cross-checking")
	fBudget  = flag.Int("budget", 0, "seconds of symbolic execution per harness")
	fNoEvid  = flag.Bool("noevidence", false, "do not write evidence")
	fListFns = flag.Bool("fns", false, "list encoded functions")
)

// VCResult is the outcome for one labelled condition.
type VCResult struct {
	Kind      string            `json:"kind"`
	Label     string            `json:"label"`
	Instances int               `json:"instances"`
	Verdict   string            `json:"verdict"`
	By        string            `json:"by"`
	Ms        int64             `json:"ms"`
	Where     string            `json:"where,omitempty"`
	Model     map[string]uint64 `json:"-"`
	Confirmed bool              `json:"-"`
	Native    string            `json:"-"`
}

type HResult struct {
	h         HarnessFn
	Name      string
	vcs       []*VCResult
	covers    []*VCResult
	err       string
	incon     []string
	fns       []string
	inputs    int
	steps     int64
	forks     int64
	merges    int64
	terms     int
	queries   int
	pruned    int
	byName    map[string]int
	agree     int
	disagree  int
	cases     int
	solverS   float64
	execS     float64
	validated int
	mismatch  []string
	second    string
	obs       []Obs
	ex        *Exec
}

type nativeRes struct {
	Failures []string          `json:"failures"`
	Covers   []string          `json:"covers"`
	Obs      map[string]string `json:"obs"`
	Panic    string            `json:"panic"`
	Assume   string            `json:"assume"`
	Done     bool              `json:"done"`
	timeout  bool
	crash    string
}

var scratch string

func main() {
	flag.Parse()
	debug.SetGCPercent(150)
	debug.SetMemoryLimit(26 << 30)
	if *fCPU != "" {
		f, _ := os.Create(*fCPU)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *fReplay != "" {
		os.Exit(replayFile(*fReplay))
	}
	code := runProperty()
	pprof.StopCPUProfile()
	os.Exit(code)
}

func fatal(code int, f string, a ...any) int {
	fmt.Printf(f+"\n", a...)
	return code
}

var zzRe = regexp.MustCompile(`zz_verif_([A-Za-z0-9_]+\.go)`)

func prepare(prop string) (ov map[string][]byte, hs []HarnessFn, ld *Loaded, dropped []string, err error) {
	exclude := map[string]bool{}
	for try := 0; try < 4; try++ {
		ov, hs, err = buildOverlay(*fRepo, *fVerif, prop, exclude)
		if err != nil {
			return
		}
		var keep []HarnessFn
		for _, h := range hs {
			if h.Tiers != "both" && h.Tiers != *fTier {
				continue
			}
			if *fOnly != "" && !strings.HasPrefix(h.Name, *fOnly) {
				continue
			}
			keep = append(keep, h)
		}
		hs = keep
		if len(hs) == 0 {
			return
		}
		ld, err = loadProgram(*fRepo, ov, hs)
		be, ok := err.(buildError)
		if !ok {
			return
		}
		ms := zzRe.FindAllStringSubmatch(be.msg, -1)
		n := 0
		for _, m := range ms {
			if !exclude[m[1]] {
				exclude[m[1]] = true
				n++
				dropped = append(dropped, m[1]+": "+be.msg)
			}
		}
		if n == 0 {
			return
		}
	}
	return
}

func runProperty() int {
	t0 := time.Now()
	var err error
	scratch, err = os.MkdirTemp("", "verif-"+*fProp+"-")
	if err != nil {
		return fatal(2, "scratch: %v", err)
	}
	defer os.RemoveAll(scratch)
	ov, hs, ld, dropped, err := prepare(*fProp)
	for _, d := range dropped {
		fmt.Printf("INCONCLUSIVE property=%s harness file does not build against the current source: %s\n", *fProp, d)
	}
	if err != nil {
		return fatal(2, "ERROR property=%s cannot load the program: %v", *fProp, err)
	}
	if len(hs) == 0 {
		if len(dropped) > 0 {
			writeEvidence(t0, nil, nil, dropped, nil)
			return 0
		}
		return fatal(2, "ERROR no harness for property %s", *fProp)
	}
	loadS := time.Since(t0).Seconds()
	// native build, concurrently
	nb := newNativeBuild(ov, hs)
	go nb.build()

	globalEnd = t0.Add(800 * time.Second)
	if *fTier == "thorough" {
		globalEnd = t0.Add(3 * time.Hour)
	}
	known := loadKnown(filepath.Join(*fVerif, "known_findings.txt"))
	hs = splitCases(hs)
	sem := make(chan bool, *fPar)
	var wg sync.WaitGroup
	results := make([]*HResult, len(hs))
	for i, h := range hs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if stopRun.Load() {
				return
			}
			r := runHarness(ld, h, nb)
			results[i] = r
			for _, v := range r.vcs {
				if v.Confirmed && known[*fProp+"|"+r.Name+"|"+v.Label] == "" {
					stopRun.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	<-nb.done
	_ = loadS
	results = mergeCases(results)
	code := 0
	var viol []string
	for _, r := range results {
		for _, v := range r.vcs {
			if v.Verdict != "sat" || v.Kind == "inconclusive" {
				continue
			}
			if !v.Confirmed {
				r.incon = append(r.incon, fmt.Sprintf("%s %q: counterexample not reproduced by the compiled code (%s)", v.Kind, v.Label, modelText(v.Model)+"; "+v.Native))
				continue
			}
			if k := known[*fProp+"|"+r.Name+"|"+v.Label]; k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k)
				continue
			}
			p := writeReplay(r, v)
			line := fmt.Sprintf("VIOLATION property=%s replay=%s", *fProp, p)
			fmt.Println(line)
			fmt.Printf("  harness %s, %s %q fails (%s)\n  inputs: %s\n  native: %s\n", r.Name, v.Kind, v.Label, v.Where, modelText(v.Model), v.Native)
			viol = append(viol, fmt.Sprintf("%s/%s: %s %q", *fProp, r.Name, v.Kind, v.Label))
			code = 1
		}
		if r.err != "" {
			fmt.Printf("INCONCLUSIVE property=%s harness=%s %s\n", *fProp, r.Name, r.err)
		}
		for _, s := range r.incon {
			fmt.Printf("INCONCLUSIVE property=%s harness=%s %s\n", *fProp, r.Name, s)
		}
		for _, s := range r.mismatch {
			fmt.Printf("INCONCLUSIVE property=%s harness=%s encoding and compiled code disagree: %s\n", *fProp, r.Name, s)
		}
		for _, c := range r.covers {
			if c.Verdict != "sat" {
				fmt.Printf("INCONCLUSIVE property=%s harness=%s cover %q is %s\n", *fProp, r.Name, c.Label, c.Verdict)
			}
		}
		q, disc := 0, 0
		for _, v := range r.vcs {
			if v.By != "rewriting" {
				q++
			}
			if v.Verdict == "unsat" {
				disc++
			}
		}
		fmt.Printf("%s %s: %d/%d conditions discharged (%d by solver), %d covers, %d inputs, %d functions, %d steps, exec %.1fs, solver %.1fs, %d native validations%s\n",
			*fProp, r.Name, disc, len(r.vcs), q, len(r.covers), r.inputs, len(r.fns), r.steps, r.execS, r.solverS, r.validated, r.second)
	}
	writeEvidence(t0, results, viol, dropped, nb)
	decided, open := 0, 0
	for _, r := range results {
		if r.err != "" || len(r.incon) > 0 || len(r.mismatch) > 0 {
			open++
		} else {
			decided++
		}
	}
	if code == 0 && decided == 0 {
		code = 2
	}
	fmt.Printf("%s %s: %s in %.1fs%s\n", *fProp, *fTier, map[int]string{0: "no violation", 1: "VIOLATED", 2: "NOTHING DECIDED"}[code], time.Since(t0).Seconds(),
		map[bool]string{true: fmt.Sprintf(" (%d of %d harnesses not fully decided)", open, open+decided)}[open > 0])
	return code
}

func modelText(m map[string]uint64) string {
	var ks []string
	for k, v := range m {
		if v != 0 && !strings.HasPrefix(k, "order!") {
			ks = append(ks, k+"="+strconv.FormatUint(v, 10))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// ---- symbolic execution of one harness ----

var wantMu sync.Mutex
var wantPkgs = map[*ssa.Package]bool{}

var (
	globalEnd = time.Now().Add(3 * time.Hour)
	stopRun   atomic.Bool
)

// splitCases expands harnesses with a split option into one instance for each
// combination of values of the named inputs.
func splitCases(hs []HarnessFn) []HarnessFn {
	var out []HarnessFn
	for _, h := range hs {
		cases := []map[string]uint64{nil}
		for _, f := range strings.Split(h.Opts["split"], ",") {
			name, ns, ok := strings.Cut(f, ":")
			n, err := strconv.Atoi(ns)
			if !ok || err != nil {
				continue
			}
			var next []map[string]uint64
			for _, c := range cases {
				for k := 0; k < n; k++ {
					m := map[string]uint64{name: uint64(k)}
					for a, b := range c {
						m[a] = b
					}
					next = append(next, m)
				}
			}
			cases = next
		}
		for _, c := range cases {
			h := h
			h.Case = c
			out = append(out, h)
		}
	}
	return out
}

// mergeCases combines the results of the cases of each harness.
func mergeCases(rs []*HResult) []*HResult {
	var out []*HResult
	by := map[string]*HResult{}
	sev := func(v *VCResult) int {
		switch {
		case v.Confirmed:
			return 4
		case v.Verdict == "sat":
			return 3
		case v.Verdict == "unsat" && v.By == "rewriting":
			return 0
		case v.Verdict == "unsat":
			return 1
		}
		return 2
	}
	for _, r := range rs {
		if r == nil {
			continue
		}
		r.cases = 1
		a := by[r.Name]
		if a == nil {
			by[r.Name] = r
			out = append(out, r)
			continue
		}
		a.cases++
		for _, v := range r.vcs {
			found := false
			for i, w := range a.vcs {
				if w.Kind == v.Kind && w.Label == v.Label {
					found = true
					if sev(v) > sev(w) {
						v.Instances += w.Instances
						v.Ms += w.Ms
						a.vcs[i] = v
					} else {
						w.Instances += v.Instances
						w.Ms += v.Ms
					}
					break
				}
			}
			if !found {
				a.vcs = append(a.vcs, v)
			}
		}
		for _, v := range r.covers {
			found := false
			for i, w := range a.covers {
				if w.Label == v.Label {
					found = true
					if w.Verdict != "sat" && v.Verdict == "sat" {
						a.covers[i] = v
					}
				}
			}
			if !found {
				a.covers = append(a.covers, v)
			}
		}
		seen := map[string]bool{}
		for _, f := range a.fns {
			seen[f] = true
		}
		for _, f := range r.fns {
			if !seen[f] {
				a.fns = append(a.fns, f)
			}
		}
		a.incon = append(a.incon, r.incon...)
		a.mismatch = append(a.mismatch, r.mismatch...)
		if a.err == "" {
			a.err = r.err
		}
		a.inputs = max(a.inputs, r.inputs)
		a.steps += r.steps
		a.forks += r.forks
		a.merges += r.merges
		a.terms += r.terms
		a.pruned += r.pruned
		a.queries += r.queries
		a.validated += r.validated
		a.solverS += r.solverS
		a.execS += r.execS
		a.agree += r.agree
		a.disagree += r.disagree
		for k, n := range r.byName {
			a.byName[k] += n
		}
	}
	return out
}

func topo(want map[*ssa.Package]bool, prog *ssa.Program) []*ssa.Package {
	var out []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if sp := prog.Package(p); sp != nil && want[sp] {
			out = append(out, sp)
		}
	}
	var ws []*ssa.Package
	for p := range want {
		ws = append(ws, p)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].Pkg.Path() < ws[j].Pkg.Path() })
	for _, p := range ws {
		visit(p.Pkg)
	}
	return out
}

func runHarness(ld *Loaded, h HarnessFn, nb *nativeBuild) (r *HResult) {
	r = &HResult{h: h, Name: h.Name}
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 1<<14)
			n := runtime.Stack(buf, false)
			r.err = fmt.Sprintf("engine failure: %v", e)
			fmt.Fprintf(os.Stderr, "%s: engine failure: %v\n%s\n", h.Name, e, buf[:n])
		}
	}()
	pkg := ld.pkgs[modPath+"/"+h.Pkg]
	if pkg == nil {
		r.err = "package not found"
		return
	}
	fn := pkg.Func(h.Name)
	if fn == nil {
		r.err = "harness not found"
		return
	}
	want := map[*ssa.Package]bool{pkg: true}
	wantMu.Lock()
	for p := range wantPkgs {
		want[p] = true
	}
	wantMu.Unlock()
	for p := range ld.pkgs {
		if strings.HasPrefix(p, modPath) && !strings.HasPrefix(p, modPath+"/cmd") {
			want[ld.pkgs[p]] = true
		}
	}
	budget := 420
	if *fTier == "thorough" {
		budget = 3000
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	t0 := time.Now()
	deadline := t0.Add(time.Duration(budget) * time.Second)
	if globalEnd.Before(deadline) {
		deadline = globalEnd
	}
	var ex *Exec
	for try := 0; ; try++ {
		ex = NewExec(ld)
		ex.tier = *fTier
		ex.verbose = *fV
		ex.deadline = deadline
		ex.harness = h.Name
		ex.preset = h.Case
		if *fProf {
			ex.prof = map[string]int64{}
		}
		if v := h.Opts["loopcap"]; v != "" {
			n, _ := strconv.Atoi(v)
			ex.loopCap = int32(n)
		}
		need, err := tryRun(ex, fn, topo(want, ld.prog))
		if need != nil {
			if want[need] || try > 60 {
				r.err = "initialisation order of " + need.Pkg.Path()
				return
			}
			want[need] = true
			wantMu.Lock()
			wantPkgs[need] = true
			wantMu.Unlock()
			if *fV {
				fmt.Fprintln(os.Stderr, h.Name, "restart: needs init of", need.Pkg.Path())
			}
			continue
		}
		if err != "" {
			r.err = err
		}
		break
	}
	r.ex = ex
	r.execS = time.Since(t0).Seconds()
	for f := range ex.fnsSeen {
		r.fns = append(r.fns, f.String())
	}
	sort.Strings(r.fns)
	r.inputs = len(ex.inputs)
	r.steps = ex.steps
	r.forks = ex.stats.forks
	r.merges = ex.stats.merges
	r.terms = len(ex.tt.terms)
	r.pruned = len(ex.pruned)
	if ex.prof != nil {
		type kv struct {
			k string
			v int64
		}
		var l []kv
		for k, v := range ex.prof {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i := 0; i < len(l) && i < 40; i++ {
			fmt.Fprintf(os.Stderr, "%10d %s\n", l[i].v, l[i].k)
		}
	}
	if *fV {
		fmt.Fprintf(os.Stderr, "%s: executed in %.1fs: %d steps, %d terms, %d vcs, %d pruned\n", h.Name, r.execS, ex.steps, len(ex.tt.terms), len(ex.vcs), len(ex.pruned))
	}
	r.solve(ex, nb)
	r.ex = nil
	return r
}

func tryRun(ex *Exec, fn *ssa.Function, inits []*ssa.Package) (need *ssa.Package, errs string) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case needInit:
				need = x.pkg
			case budgetErr:
				errs = x.msg
				ex.vc("inconclusive", x.msg, ex.tt.True, "")
			case deadPath:
			case unsupErr:
				errs = "unsupported: " + x.msg
			default:
				panic(e)
			}
		}
	}()
	st := &State{pc: ex.tt.True, heap: newHeap()}
	for _, p := range inits {
		ex.initDone[p] = true
	}
	for _, p := range inits {
		f := p.Func("init")
		if f == nil {
			continue
		}
		if _, ok := ex.run(st, f, nil, nil); !ok {
			return nil, "initialisation of " + p.Pkg.Path() + " fails"
		}
		if !st.pc.isTrue() {
			return nil, "initialisation of " + p.Pkg.Path() + " is not deterministic"
		}
	}
	for _, v := range ex.vcs {
		if v.kind == "inconclusive" && ex.verbose {
			fmt.Fprintln(os.Stderr, "init:", v.label, v.where)
		}
	}
	ex.fnsSeen = map[*ssa.Function]bool{}
	ex.steps = 0
	ex.run(st, fn, nil, nil)
	return nil, ""
}

// ---- solving ----

func (r *HResult) solve(ex *Exec, nb *nativeBuild) {
	t0 := time.Now()
	tmo := 240000
	if *fTier == "thorough" {
		tmo = 900000
	}
	stats := &solverStats{by: map[string]int{}}
	cross := *fSecond != ""
	ndump := 0
	type group struct {
		kind, label, where string
		conds              []*Term
		n                  int
	}
	var order []string
	groups := map[string]*group{}
	for _, v := range ex.vcs {
		k := v.kind + "|" + v.label
		g := groups[k]
		if g == nil {
			g = &group{kind: v.kind, label: v.label, where: v.where}
			groups[k] = g
			order = append(order, k)
		}
		g.n++
		if !v.cond.isFalse() {
			g.conds = append(g.conds, v.cond)
			g.where = v.where
		}
	}
	decide := func(t *Term, model bool) (string, string, map[string]uint64) {
		if d := os.Getenv("VERIF_DUMP"); d != "" {
			ndump++
			dumpQuery(ex.tt, t, fmt.Sprintf("%s/%s-%d", d, r.h.Name, ndump))
		}
		left := min(time.Duration(tmo)*time.Millisecond, max(5*time.Second, time.Until(globalEnd.Add(30*time.Second))))
		a := decideQuery(ex.tt, t, model, left, cross, stats)
		if a.m != nil {
			for k, v := range ex.preset {
				a.m[k] = v
			}
		}
		if *fV {
			fmt.Fprintf(os.Stderr, "%s query: %s by %s %.1fs\n", r.h.Name, a.res, a.by, a.s)
		}
		return a.res, a.by, a.m
	}
	for _, k := range order {
		g := groups[k]
		v := &VCResult{Kind: g.kind, Label: g.label, Instances: g.n, Where: g.where}
		r.vcs = append(r.vcs, v)
		t := ex.tt.OrFlat(g.conds)
		if len(g.conds) == 0 || t.isFalse() {
			v.Verdict, v.By = "unsat", "rewriting"
			continue
		}
		q0 := time.Now()
		block := ex.tt.True
		for try := 0; try < 4; try++ {
			res, by, m := decide(ex.tt.And(t, block), true)
			if try > 0 && res != "sat" {
				break
			}
			v.Verdict, v.By, v.Model = res, by, m
			if res != "sat" || g.kind == "inconclusive" {
				break
			}
			v.Confirmed, v.Native = nb.confirm(r, ex, v)
			if v.Confirmed {
				break
			}
			var eqs []*Term
			for _, in := range ex.inputs {
				if in.t.w == 0 {
					if m[in.name] == 1 {
						eqs = append(eqs, in.t)
					} else {
						eqs = append(eqs, ex.tt.Not(in.t))
					}
				} else {
					eqs = append(eqs, ex.tt.Eq(in.t, ex.tt.BV(in.t.w, m[in.name])))
				}
			}
			block = ex.tt.And(block, ex.tt.Not(ex.tt.And(eqs...)))
		}
		v.Ms = time.Since(q0).Milliseconds()
		if v.Verdict != "unsat" && v.Verdict != "sat" {
			r.incon = append(r.incon, fmt.Sprintf("%s %q: solver answered %s", v.Kind, v.Label, v.Verdict))
		}
		if v.Kind == "inconclusive" && v.Verdict == "sat" {
			r.incon = append(r.incon, fmt.Sprintf("not encoded: %s (%s)", v.Label, v.Where))
		}
	}
	// covers
	var corder []string
	covers := map[string][]*Term{}
	for _, c := range ex.covers {
		if _, ok := covers[c.label]; !ok {
			corder = append(corder, c.label)
		}
		covers[c.label] = append(covers[c.label], c.cond)
	}
	for _, l := range corder {
		v := &VCResult{Kind: "cover", Label: l, Instances: len(covers[l])}
		r.covers = append(r.covers, v)
		t := ex.tt.OrFlat(covers[l])
		q0 := time.Now()
		v.Verdict, v.By, v.Model = decide(t, true)
		v.Ms = time.Since(q0).Milliseconds()
		if v.Verdict == "sat" {
			nb.validate(r, ex, v)
		}
	}
	// the paths pruned by the internal solver are confirmed unreachable
	if len(ex.pruned) > 0 {
		res, _, _ := decide(ex.tt.OrFlat(ex.pruned), false)
		if res != "unsat" {
			r.incon = append(r.incon, "pruned paths not confirmed unreachable: "+res)
		}
	}
	r.queries = stats.queries
	r.byName = stats.by
	r.agree, r.disagree = stats.agree, stats.disagree
	r.solverS = time.Since(t0).Seconds()
	if cross {
		r.second = fmt.Sprintf(", other solvers agree %d times, disagree %d times", stats.agree, stats.disagree)
		if stats.disagree > 0 {
			r.incon = append(r.incon, "two solvers disagree")
		}
	}
}

// ---- native side ----

type nativeBuild struct {
	ov   map[string][]byte
	hs   []HarnessFn
	done chan bool
	bins map[string]string
	err  string
	off  string // reason for not running natively
	runs int
	mu   sync.Mutex
}

func newNativeBuild(ov map[string][]byte, hs []HarnessFn) *nativeBuild {
	nb := &nativeBuild{ov: ov, hs: hs, done: make(chan bool), bins: map[string]string{}}
	for p, src := range ov {
		if strings.Contains(p, "zz_verif_") || strings.Contains(p, "/vrt/") {
			continue
		}
		if m := unsafeRef(p, src); m != "" {
			nb.off = m
		}
	}
	return nb
}

func (nb *nativeBuild) build() {
	defer close(nb.done)
	ovf, err := writeOverlay(scratch, nb.ov)
	if err != nil {
		nb.err = err.Error()
		return
	}
	targets := map[string]string{}
	for _, h := range nb.hs {
		if strings.HasPrefix(h.Pkg, "cmd/") {
			targets[h.Pkg] = "./" + h.Pkg
		} else {
			targets[h.Pkg] = "./zzverifmain"
		}
	}
	built := map[string]string{}
	i := 0
	for pk, t := range targets {
		if built[t] == "" {
			i++
			bin := filepath.Join(scratch, fmt.Sprintf("native%d", i))
			cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, t)
			cmd.Dir = *fRepo
			cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
			if out, err := cmd.CombinedOutput(); err != nil {
				nb.err = "native build: " + err.Error() + ": " + string(out)
				fmt.Println("native build failed:", nb.err)
				continue
			}
			built[t] = bin
		}
		nb.bins[pk] = built[t]
	}
}

func (nb *nativeBuild) run(h HarnessFn, model map[string]uint64, timeout time.Duration) (*nativeRes, error) {
	<-nb.done
	if nb.off != "" {
		return nil, fmt.Errorf("native execution disabled: %s", nb.off)
	}
	bin := nb.bins[h.Pkg]
	if bin == "" {
		return nil, fmt.Errorf("no native binary: %s", nb.err)
	}
	nb.mu.Lock()
	nb.runs++
	id := nb.runs
	nb.mu.Unlock()
	dir := filepath.Join(scratch, fmt.Sprintf("run%d", id))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(model)
	mf := filepath.Join(dir, "model.json")
	if err := os.WriteFile(mf, b, 0o644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_HARNESS="+h.Name, "VERIF_HTIER="+*fTier, "VERIF_MODEL="+mf, "GOMEMLIMIT=2GiB", "TMPDIR="+dir)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	res := &nativeRes{}
	if ctx.Err() != nil {
		res.timeout = true
		return res, nil
	}
	i := bytes.LastIndex(out.Bytes(), []byte("VERIF-RESULT "))
	if i < 0 {
		s := out.String()
		if len(s) > 400 {
			s = s[:400]
		}
		res.crash = fmt.Sprintf("%v: %s", err, s)
		return res, nil
	}
	if e := json.Unmarshal(bytes.TrimSpace(out.Bytes()[i+len("VERIF-RESULT "):]), res); e != nil {
		res.crash = e.Error()
	}
	return res, nil
}

// confirm replays a counterexample against the compiled code.
func (nb *nativeBuild) confirm(r *HResult, ex *Exec, v *VCResult) (bool, string) {
	tries := 1
	for _, in := range ex.inputs {
		if strings.HasPrefix(in.name, "order!") {
			tries = 400
		}
	}
	if n, err := strconv.Atoi(r.h.Opts["retry"]); err == nil {
		tries = n
	}
	last := ""
	for i := 0; i < tries; i++ {
		res, err := nb.run(r.h, v.Model, 30*time.Second)
		if err != nil {
			return false, err.Error()
		}
		switch v.Kind {
		case "assert":
			for _, f := range res.Failures {
				if f == v.Label {
					return true, fmt.Sprintf("assertion %q failed in the compiled code (run %d)", f, i+1)
				}
			}
		case "panic":
			if res.Panic != "" {
				return true, "panic: " + res.Panic
			}
			if res.crash != "" {
				return true, "crash: " + res.crash
			}
		case "unwind":
			if res.timeout {
				return true, "does not terminate within 30s"
			}
			if res.crash != "" {
				return true, "crash: " + res.crash
			}
		}
		last = fmt.Sprintf("failures=%v panic=%q crash=%q timeout=%v assume=%q", res.Failures, res.Panic, res.crash, res.timeout, res.Assume)
	}
	return false, last
}

func (nb *nativeBuild) validate(r *HResult, ex *Exec, v *VCResult) {
	for _, in := range ex.inputs {
		if strings.HasPrefix(in.name, "order!") {
			return
		}
	}
	res, err := nb.run(r.h, v.Model, 30*time.Second)
	if err != nil {
		r.mismatch = append(r.mismatch, "cover "+v.Label+": "+err.Error())
		return
	}
	ok := false
	for _, c := range res.Covers {
		ok = ok || c == v.Label
	}
	if !ok {
		r.mismatch = append(r.mismatch, fmt.Sprintf("cover %q not reached natively (panic=%q assume=%q crash=%q) with %s", v.Label, res.Panic, res.Assume, res.crash, modelText(v.Model)))
		return
	}
	memo := map[int32]uint64{}
	want := map[string][]string{}
	for _, o := range ex.obs {
		if ex.tt.evalTerm(o.g, v.Model, memo) == 1 {
			if s, ok := ex.evalText(o.v, v.Model, memo); ok {
				want[o.label] = append(want[o.label], s)
			} else {
				want[o.label] = append(want[o.label], "\x00")
			}
		}
	}
	got := map[string][]string{}
	for k, s := range res.Obs {
		l, _, _ := strings.Cut(k, "#")
		got[l] = append(got[l], s)
	}
	for l, w := range want {
		g := got[l]
		sort.Strings(w)
		sort.Strings(g)
		skip := false
		for _, s := range w {
			skip = skip || s == "\x00"
		}
		if !skip && strings.Join(w, "\x01") != strings.Join(g, "\x01") {
			r.mismatch = append(r.mismatch, fmt.Sprintf("observation %q: encoding %q, native %q with %s", l, w, g, modelText(v.Model)))
			return
		}
	}
	r.validated++
}

// evalText evaluates a value under a model as fmt.Sprint would print it.
func (ex *Exec) evalText(v Value, m map[string]uint64, memo map[int32]uint64) (string, bool) {
	switch x := v.(type) {
	case *Union:
		for _, a := range x.alts {
			if ex.tt.evalTerm(a.g, m, memo) == 1 {
				return ex.evalText(a.v, m, memo)
			}
		}
	case Iface:
		if x.t == nil {
			return "<nil>", true
		}
		if t, ok := x.v.(*Term); ok {
			val := ex.tt.evalTerm(t, m, memo)
			if t.w == 0 {
				return strconv.FormatBool(val == 1), true
			}
			if _, s, _ := bitsOf(x.t); s {
				return strconv.FormatInt(sext64(val, t.w), 10), true
			}
			return strconv.FormatUint(val, 10), true
		}
		return ex.evalText(x.v, m, memo)
	case Str:
		return string(x), true
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(ex.tt.evalTerm(t, m, memo))
		}
		return string(b), true
	case *Term:
		return strconv.FormatUint(ex.tt.evalTerm(x, m, memo), 10), true
	}
	return "", false
}

// ---- reports ----

type replayRec struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Label    string            `json:"label"`
	Tier     string            `json:"tier"`
	Inputs   map[string]uint64 `json:"inputs"`
	Native   string            `json:"native"`
	Where    string            `json:"where"`
	How      string            `json:"how"`
}

func writeReplay(r *HResult, v *VCResult) string {
	dir := filepath.Join(*fVerif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	name := *fProp + "-" + r.Name + "-" + sanitize(v.Label) + ".json"
	p := filepath.Join(dir, name)
	b, _ := json.MarshalIndent(replayRec{*fProp, r.Name, v.Kind, v.Label, *fTier, v.Model, v.Native, v.Where, "bash run.sh replay " + p}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			b[i] = '_'
		}
	}
	if len(b) > 60 {
		b = b[:60]
	}
	return string(b)
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return fatal(2, "%v", err)
	}
	var rec replayRec
	if err := json.Unmarshal(b, &rec); err != nil {
		return fatal(2, "%v", err)
	}
	scratch, err = os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return fatal(2, "%v", err)
	}
	defer os.RemoveAll(scratch)
	*fTier = rec.Tier
	ov, hs, err := buildOverlay(*fRepo, *fVerif, rec.Property, nil)
	if err != nil {
		return fatal(2, "%v", err)
	}
	nb := newNativeBuild(ov, hs)
	nb.build()
	for _, h := range hs {
		if h.Name != rec.Harness {
			continue
		}
		for i := 0; i < 400; i++ {
			res, err := nb.run(h, rec.Inputs, 30*time.Second)
			if err != nil {
				return fatal(2, "%v", err)
			}
			if len(res.Failures) > 0 || res.Panic != "" || res.crash != "" || res.timeout {
				fmt.Printf("reproduced: failures=%v panic=%q crash=%q timeout=%v\n", res.Failures, res.Panic, res.crash, res.timeout)
				return 1
			}
		}
		return fatal(0, "not reproduced")
	}
	return fatal(2, "harness %s not found", rec.Harness)
}

func loadKnown(path string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	// known: property=C01 harness=H label=L :: text
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) label=(.*?) :: (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out[m[1]+"|"+m[2]+"|"+m[3]] = m[4]
		}
	}
	return out
}

func writeEvidence(t0 time.Time, rs []*HResult, viol []string, dropped []string, nb *nativeBuild) {
	if *fNoEvid {
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{}
	fns := map[string]bool{}
	var queries, disc, bySolver, covers, validated, inst, pruned, agree, disagree int
	byName := map[string]int{}
	var steps, forks int64
	var solverS, execS float64
	var hl []any
	var bounds []string
	for _, r := range rs {
		for _, f := range r.fns {
			if strings.Contains(f, modPath) && !strings.Contains(f, vrtPath) {
				fns[f] = true
			}
		}
		queries += r.queries
		agree += r.agree
		disagree += r.disagree
		for k, n := range r.byName {
			byName[k] += n
		}
		solverS += r.solverS
		execS += r.execS
		steps += r.steps
		forks += r.forks
		pruned += r.pruned
		validated += r.validated
		for _, v := range r.vcs {
			inst += v.Instances
			if v.Verdict == "unsat" {
				disc++
			}
			if v.By != "rewriting" {
				bySolver++
			}
		}
		for _, c := range r.covers {
			if c.Verdict == "sat" {
				covers++
			}
		}
		hl = append(hl, map[string]any{"harness": r.Name, "bounds": r.h.Doc, "symbolic_inputs": r.inputs, "conditions": r.vcs, "reachability_witnesses": r.covers,
			"terms": r.terms, "cases": r.cases, "exec_s": round(r.execS), "solver_s": round(r.solverS), "inconclusive": append(append([]string{}, r.incon...), r.mismatch...), "error": r.err})
		if r.h.Doc != "" {
			bounds = append(bounds, r.Name+": "+r.h.Doc)
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["explanation"] = "Bounded symbolic execution of the real functions, from the go/ssa form built from the current working tree. Every listed condition is the negated property (or a possible panic or an exceeded loop bound) over all values of the symbolic inputs; the solver must answer unsat. A query is decided by z3 on its bit-vector form or by kissat on its bit-blasted form, whichever answers first; the thorough tier also asks cvc5 and compares all answers. Reachability witnesses are satisfied by the solver and their models executed by the compiled code for comparison."
	cov["functions_encoded"] = fl
	cov["functions_encoded_count"] = len(fl)
	cov["conditions_discharged"] = disc
	cov["condition_instances"] = inst
	cov["conditions_needing_solver"] = bySolver
	cov["solver_queries"] = queries
	cov["solver_time_s"] = round(solverS)
	cov["symbolic_execution_s"] = round(execS)
	cov["ssa_instructions_executed"] = steps
	cov["path_forks"] = forks
	cov["answers_by_solver"] = byName
	if *fSecond != "" {
		cov["cross_checks_agreeing"] = agree
		cov["cross_checks_disagreeing"] = disagree
	}
	cov["pruned_branches_confirmed"] = pruned
	cov["reachability_witnesses"] = covers
	cov["models_validated_natively"] = validated
	cov["harnesses"] = hl
	if len(dropped) > 0 {
		cov["harness_files_not_building"] = dropped
	}
	ev := map[string]any{"property": *fProp, "tier": *fTier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.Since(t0).Seconds()), "violations": len(viol)}
	as := []string{"Bounds and stand-ins per harness: see coverage.harnesses[].bounds; everything outside those bounds is not covered.",
		"Trusted: the go/ssa front end, this engine's instruction semantics (validated by native replay of solver models), z3 and kissat."}
	ev["assumptions"] = append(as, bounds...)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", *fProp+".json"), append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }
