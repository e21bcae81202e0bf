package analyzer

import (
	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

//verif:use analyzer/graphlib.go
//verif:use analyzer/c01.go

// c25Read reads a quoted name at the start of s: a backslash makes the next
// character stand for itself.
func c25Read(s string) (name, rest string, ok bool) {
	if len(s) == 0 || s[0] != '"' {
		return "", "", false
	}
	var b []byte
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case '"':
			return string(b), s[i+1:], true
		case '\\':
			i++
			if i == len(s) {
				return "", "", false
			}
		}
		b = append(b, s[i])
	}
	return "", "", false
}

// c25Line reads an edge.
func c25Line(s string) (from, to string, ok bool) {
	for len(s) > 0 && (s[0] == '\t' || s[0] == ' ') {
		s = s[1:]
	}
	from, s, ok = c25Read(s)
	if !ok || len(s) < 4 || s[:4] != " -> " {
		return "", "", false
	}
	to, s, ok = c25Read(s[4:])
	return from, to, ok && (s == "" || s == ";")
}

var c25Chars = []string{"a", "\"", "\\", " ", "n", "é", "<", ";"}

// c25Name is a name of up to n characters.
func c25Name(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		k := vrt.Choice("char"+vgItoa(i), len(c25Chars)+1)
		if k < len(c25Chars) {
			s += c25Chars[k]
		}
	}
	return s
}

// c25Check writes the graph and reads it back.
func c25Check(g *vgraph, edges [][2]string) {
	_, qm := vgQueried(g)
	for _, p := range g.tpkgs {
		qm[p] = struct{}{}
	}
	vrt.OutReset("stdout")
	err := RunCapslock(nil, "graph", g.pkgs, qm, &Config{Classifier: g})
	vrt.Assert(err == nil, "the graph is written")
	n := vrt.OutLines("stdout")
	k, last := 0, ""
	seen := make([]bool, len(edges))
	for i := 0; i < n; i++ {
		present, text := vrt.OutLine("stdout", i)
		if !present {
			continue
		}
		if k == 0 {
			vrt.Assert(text == "digraph {", "the first line opens the graph")
		} else if k <= len(edges) {
			from, to, ok := c25Line(text)
			vrt.Assert(ok, "an edge is two quoted names")
			hit := false
			for j, e := range edges {
				if from == e[0] && to == e[1] && !seen[j] {
					seen[j] = true
					hit = true
				}
			}
			vrt.Assert(hit, "the names read back are the names of an edge")
		}
		last = text
		k++
	}
	vrt.Assert(k == len(edges)+2, "one line per edge")
	vrt.Assert(last == "}", "the last line closes the graph")
}

// c25Graph has a call F0 -> F1 of a function with a capability.
func c25Graph(from, to string) (*vgraph, [][2]string) {
	g := newVgraph("ex.org/a")
	g.fun(0, from)
	g.fun(0, to)
	g.fns[1].cat = cpb.Capability_CAPABILITY_FILES
	g.edge(0, 1, 1)
	g.finish()
	return g, [][2]string{{g.fns[0].name, g.fns[1].name}, {g.fns[1].name, "CAPABILITY_FILES"}}
}

// VerifC25Caller: the calling function has any name of up to four characters
// over eight, among them the quote and the backslash.
//
//verif:harness C25 both split=char00:9,char01:9
func VerifC25Caller() {
	s := c25Name(4)
	g, edges := c25Graph("F"+s, "G")
	c25Check(g, edges)
	vrt.Cover(s == "\\\"\\a", "a name with quotes and backslashes")
}

// VerifC25Callee: the called function, which has the capability, has any name
// of up to four characters.
//
//verif:harness C25 both split=char00:9,char01:9
func VerifC25Callee() {
	s := c25Name(4)
	g, edges := c25Graph("F", s+"G")
	c25Check(g, edges)
	vrt.Cover(s == "\\\"\\a", "a name with quotes and backslashes")
}

// VerifC25Ends: special characters at the end of both names, where the closing
// quote follows.
//
//verif:harness C25 both split=char00:9,char01:9
func VerifC25Ends() {
	s := c25Name(2)
	g, edges := c25Graph("F"+s, "G"+s)
	c25Check(g, edges)
	vrt.Cover(s == "\\\\", "backslashes at the end")
}

// VerifC25Capability: any of the capabilities at the end of a link.
//
//verif:harness C25 both
func VerifC25Capability() {
	g := newVgraph("ex.org/a")
	g.fun(0, "F")
	c := cpb.Capability(2 + vrt.Choice("cat", 13))
	g.fns[0].cat = c
	g.finish()
	c25Check(g, [][2]string{{g.fns[0].name, c.String()}})
	vrt.Cover(c == cpb.Capability_CAPABILITY_EXEC, "the last capability")
}

// VerifC25Instances: two instantiations of a generic function, of which the
// second has any type argument of up to two characters after its first, a
// method and a wrapper are named in full.
//
//verif:harness C25 both
func VerifC25Instances() {
	g := newVgraph("ex.org/a", "ex.org/b")
	g.fun(0, "F")
	g.instance(1, "G", "int")
	g.instance(1, "G", "s"+c25Name(2))
	g.method(1, "T", "G")
	g.wrapper("G")
	g.fun(1, "X")
	g.fns[5].cat = cpb.Capability_CAPABILITY_FILES
	edges := [][2]string{{g.fns[5].name, "CAPABILITY_FILES"}}
	for i := 1; i < 5; i++ {
		g.edge(0, i, i)
		g.edge(i, 5, 10+i)
		edges = append(edges, [2]string{g.fns[0].name, g.fns[i].name}, [2]string{g.fns[i].name, g.fns[5].name})
	}
	g.finish()
	c25Check(g, edges)
	vrt.Cover(true, "nine edges")
}

// VerifC25Bytes: three (thorough: five) bytes of the calling function's name
// are any ASCII bytes but line feeds.
//
//verif:harness C25 both
func VerifC25Bytes() {
	n := 3
	if vrt.Thorough() {
		n = 5
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.Byte("byte" + vgItoa(i))
		vrt.Assume(b[i] != '\n')
	}
	g, edges := c25Graph("F"+string(b), "G")
	c25Check(g, edges)
	vrt.Cover(b[0] == '\\' && b[1] == '"' && b[2] == 127, "special characters")
}

// VerifC25BytesCallee: the same for the called function.
//
//verif:harness C25 both
func VerifC25BytesCallee() {
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.Byte("byte" + vgItoa(i))
		vrt.Assume(b[i] != '\n')
	}
	g, edges := c25Graph("F", "G"+string(b))
	c25Check(g, edges)
	vrt.Cover(b[0] == '\\' && b[1] == '"' && b[2] == 127, "special characters")
}
