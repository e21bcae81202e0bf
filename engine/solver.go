package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// A query is decided by a portfolio: an SMT solver on the bit-vector form and
// a SAT solver on the bit-blasted form.  The first definite answer counts;
// with cross-checking both answers are awaited and compared.

type answer struct {
	by, res string
	m       map[string]uint64
	s       float64
}

type solverStats struct {
	queries   int
	by        map[string]int
	agree     int
	disagree  int
	unchecked int
}

type runningSolver struct {
	cmd  *exec.Cmd
	done chan answer
}

// runSolver starts a solver process with the given input; parse reads the answer.
func runSolver(name string, args []string, input []byte, tmo time.Duration, out chan<- answer, parse func([]byte) (string, map[string]uint64)) func() {
	cmd := exec.Command(name, args...)
	cmd.Stdin = bytes.NewReader(input)
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = io.Discard
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	t0 := time.Now()
	started := make(chan bool)
	go func() {
		if err := cmd.Start(); err != nil {
			close(started)
			out <- answer{by: name, res: "unknown: " + err.Error()}
			return
		}
		close(started)
		t := time.AfterFunc(tmo, func() { cmd.Process.Kill() })
		cmd.Wait()
		t.Stop()
		res, m := parse(o.Bytes())
		out <- answer{by: name, res: res, m: m, s: time.Since(t0).Seconds()}
	}()
	return func() {
		<-started
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	}
}

// smtScript renders a query as a stand-alone SMT-LIB script.
func smtScript(tt *TermTable, t *Term, model bool) ([]byte, []*Term) {
	var b bytes.Buffer
	s := &Smt{in: bufio.NewWriter(&b), tt: tt, done: map[int32]bool{}, vars: map[string]string{}}
	if model {
		s.put("(set-option :produce-models true)\n")
	}
	s.put("(set-logic QF_BV)\n")
	s.addAxioms()
	s.define(t)
	s.put("(assert " + s.ref(t) + ")\n(check-sat)\n")
	if model {
		for _, v := range s.rev {
			s.put("(get-value (" + s.vars[v.name] + "))\n")
		}
	}
	s.put("(exit)\n")
	s.in.Flush()
	return b.Bytes(), s.rev
}

func parseSmt(vars []*Term, model bool) func([]byte) (string, map[string]uint64) {
	return func(b []byte) (string, map[string]uint64) {
		var lines []string
		for _, l := range strings.Split(string(b), "\n") {
			if l = strings.TrimSpace(l); l != "" {
				lines = append(lines, l)
			}
		}
		if len(lines) == 0 {
			return "unknown: no answer", nil
		}
		switch lines[0] {
		case "unsat":
			return "unsat", nil
		case "sat":
			if !model {
				return "sat", nil
			}
			m := map[string]uint64{}
			if len(lines) < len(vars)+1 {
				return "unknown: incomplete model", nil
			}
			for i, v := range vars {
				if strings.Contains(lines[i+1], "(error") {
					return "unknown: " + lines[i+1], nil
				}
				m[v.name] = parseVal(lines[i+1])
			}
			return "sat", m
		}
		return "unknown: " + lines[0], nil
	}
}

func parseKissat(vars map[int32]*Term) func([]byte) (string, map[string]uint64) {
	return func(b []byte) (string, map[string]uint64) {
		sc := bufio.NewScanner(bytes.NewReader(b))
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		res := "unknown: no answer"
		m := map[string]uint64{}
		for sc.Scan() {
			l := sc.Text()
			switch {
			case l == "s UNSATISFIABLE":
				res = "unsat"
			case l == "s SATISFIABLE":
				res = "sat"
			case strings.HasPrefix(l, "v "):
				for _, f := range strings.Fields(l[2:]) {
					n, err := strconv.Atoi(f)
					if err != nil || n == 0 {
						continue
					}
					val := uint64(1)
					if n < 0 {
						n, val = -n, 0
					}
					t := vars[int32(n)]
					if t == nil {
						continue
					}
					if i := strings.LastIndexByte(t.name, '#'); i >= 0 {
						if bit, err := strconv.Atoi(t.name[i+1:]); err == nil {
							m[t.name[:i]] |= val << uint(bit)
							continue
						}
					}
					m[t.name] = val
				}
			}
		}
		if res != "sat" {
			m = nil
		}
		return res, m
	}
}

func cnfBytes(nv int, clauses [][]int32) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "p cnf %d %d\n", nv, len(clauses))
	var buf []byte
	for _, c := range clauses {
		buf = buf[:0]
		for _, l := range c {
			buf = strconv.AppendInt(buf, int64(l), 10)
			buf = append(buf, ' ')
		}
		b.Write(append(buf, '0', '\n'))
	}
	return b.Bytes()
}

var solverSlots = make(chan bool, 10)

// decideQuery asks the portfolio.
func decideQuery(tt *TermTable, t *Term, model bool, tmo time.Duration, cross bool, st *solverStats) answer {
	st.queries++
	if t.isFalse() {
		return answer{by: "rewriting", res: "unsat"}
	}
	solverSlots <- true
	defer func() { <-solverSlots }()
	out := make(chan answer, 4)
	var kills []func()
	script, vars := smtScript(tt, t, model)
	secs := fmt.Sprintf("-T:%d", int(tmo.Seconds())+5)
	kills = append(kills, runSolver("z3-new", []string{"-in", "-smt2", secs}, script, tmo, out, parseSmt(vars, model)))
	n := 1
	if nv, cl, cv, exact := cnfOf(tt, t); exact {
		kills = append(kills, runSolver("kissat", []string{"-q"}, cnfBytes(nv, cl), tmo, out, parseKissat(cv)))
		n++
	}
	if cross {
		kills = append(kills, runSolver("cvc5", []string{"--produce-models", "--lang=smt2", "-"}, script, min(tmo, 120*time.Second), out, parseSmt(vars, model)))
		n++
	}
	var best answer
	best.res = "unknown: timeout"
	for i := 0; i < n; i++ {
		a := <-out
		if strings.HasPrefix(a.res, "unknown") {
			continue
		}
		if best.by == "" {
			best = a
			st.by[a.by]++
			if !cross {
				break
			}
			// leave the others a limited time
			d := max(60*time.Second, time.Duration(6*a.s*float64(time.Second)))
			time.AfterFunc(min(d, 300*time.Second), func() {
				for _, k := range kills {
					k()
				}
			})
			continue
		}
		if a.res == best.res {
			st.agree++
		} else {
			st.disagree++
		}
	}
	for _, k := range kills {
		k()
	}
	return best
}
