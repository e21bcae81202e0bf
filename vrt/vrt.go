// Package vrt is the run-time support of the verification harnesses: symbolic
// inputs and assertions (interpreted by the engine, or read from a model when
// replaying natively) and stand-ins for the environment.
package vrt

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"
	"unsafe"
)

// ---- inputs, assertions (engine intrinsics) ----

type result struct {
	Failures []string          `json:"failures"`
	Covers   []string          `json:"covers"`
	Obs      map[string]string `json:"obs"`
	Panic    string            `json:"panic"`
	Assume   string            `json:"assume"`
	Done     bool              `json:"done"`
}

var (
	mu    sync.Mutex
	model map[string]uint64
	tier  string
	res   = result{Obs: map[string]string{}}
)

// Bool returns a symbolic boolean.
func Bool(name string) bool { return model[name] != 0 }

// Choice returns a symbolic integer in [0,n).
func Choice(name string, n int) int { return int(model[name]) }

// Byte returns a symbolic ASCII byte.
func Byte(name string) byte { return byte(model[name]) }

type assumeFailed struct{ s string }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(assumeFailed{"assumption failed"})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		mu.Lock()
		res.Failures = append(res.Failures, label)
		mu.Unlock()
	}
}

// Cover records that a point is reachable.
func Cover(b bool, label string) {
	if b {
		res.Covers = append(res.Covers, label)
	}
}

// Observe exposes a value for comparison between the encoding and a native run.
func Observe(label string, v any) {
	k := label
	for i := 2; ; i++ {
		if _, ok := res.Obs[k]; !ok {
			break
		}
		k = fmt.Sprintf("%s#%d", label, i)
	}
	res.Obs[k] = fmt.Sprint(v)
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return tier == "thorough" }

// Symbolic reports whether the code is run by the engine.
func Symbolic() bool { return false }

// MapOrder selects the iteration order of maps: 0 insertion, 1 reversed, 2 any.
func MapOrder(mode int) {}

// SetField sets an unexported field of *p.
func SetField(p any, field string, v any) {
	f := reflect.ValueOf(p).Elem().FieldByName(field)
	f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	if v == nil {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	rv := reflect.ValueOf(v)
	if f.Kind() != reflect.Interface && rv.Type() != f.Type() {
		rv = rv.Convert(f.Type())
	}
	f.Set(rv)
}

// If returns a or b without forking.
func If[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// ---- process exit ----

type exitT struct{ code int }

var exitCh chan int

// CatchExit runs f and reports whether it called OsExit.
func CatchExit(f func()) (code int, exited bool) {
	ch := make(chan int, 1)
	exitCh = ch
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case c := <-ch:
		exitCh = nil
		return c, true
	case r := <-done:
		select {
		case c := <-ch:
			return c, true
		default:
		}
		if r != nil {
			panic(r)
		}
		exitCh = nil
		return 0, false
	}
}

// Exit ends the simulated process.
func Exit(code int) {
	if exitCh == nil {
		panic(fmt.Sprintf("exit %d", code))
	}
	exitCh <- code
	select {} // deferred calls do not run
}

// ---- captured output ----

type outEv struct{ ch, s string }

var outs []outEv

// Emit appends text to an output channel.
func Emit(ch, s string) { outs = append(outs, outEv{ch, s}) }

// OutReset clears a channel.
func OutReset(ch string) {
	var n []outEv
	for _, o := range outs {
		if o.ch != ch {
			n = append(n, o)
		}
	}
	outs = n
}

// OutLines returns the number of line slots of a channel.
func OutLines(ch string) int { return len(nativeLines(ch)) }

// OutLine returns the i-th line slot: whether it is present and its text.
func OutLine(ch string, i int) (bool, string) {
	l := nativeLines(ch)
	return true, l[i]
}

func nativeLines(ch string) []string {
	var b []byte
	for _, o := range outs {
		if o.ch == ch {
			b = append(b, o.s...)
		}
	}
	var lines []string
	start := 0
	for i := range b {
		if b[i] == '\n' {
			lines = append(lines, string(b[start:i]))
			start = i + 1
		}
	}
	if start < len(b) {
		lines = append(lines, string(b[start:]))
	}
	return lines
}

// ---- native driver ----

// NativeMain runs one harness on a concrete model.
func NativeMain(hs map[string]func()) {
	name := os.Getenv("VERIF_HARNESS")
	tier = os.Getenv("VERIF_HTIER")
	if b, err := os.ReadFile(os.Getenv("VERIF_MODEL")); err == nil {
		if err := json.Unmarshal(b, &model); err != nil {
			fmt.Println("bad model:", err)
			os.Exit(3)
		}
	}
	h := hs[name]
	if h == nil {
		fmt.Println("no harness", name)
		os.Exit(3)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(assumeFailed); ok {
					res.Assume = a.s
					return
				}
				res.Panic = fmt.Sprint(r)
			}
		}()
		h()
		res.Done = true
	}()
	b, _ := json.Marshal(res)
	fmt.Println("VERIF-RESULT " + string(b))
}

// ---- plain versions of library routines written in assembly ----

func PlainCountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func PlainCount(s []byte, c byte) int { return PlainCountString(string(s), c) }

func PlainIndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func PlainLastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func PlainIndexString(s, t string) int {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return i
		}
	}
	return -1
}

func PlainIndex(s, t []byte) int { return PlainIndexString(string(s), string(t)) }

func PlainCompareString(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func PlainCompare(a, b []byte) int { return PlainCompareString(string(a), string(b)) }
