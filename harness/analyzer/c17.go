package analyzer

import (
	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
)

var c17Caps = []struct {
	short string
	c     cpb.Capability
}{
	{"UNSPECIFIED", cpb.Capability_CAPABILITY_UNSPECIFIED},
	{"SAFE", cpb.Capability_CAPABILITY_SAFE},
	{"FILES", cpb.Capability_CAPABILITY_FILES},
	{"NETWORK", cpb.Capability_CAPABILITY_NETWORK},
	{"RUNTIME", cpb.Capability_CAPABILITY_RUNTIME},
	{"READ_SYSTEM_STATE", cpb.Capability_CAPABILITY_READ_SYSTEM_STATE},
	{"MODIFY_SYSTEM_STATE", cpb.Capability_CAPABILITY_MODIFY_SYSTEM_STATE},
	{"OPERATING_SYSTEM", cpb.Capability_CAPABILITY_OPERATING_SYSTEM},
	{"SYSTEM_CALLS", cpb.Capability_CAPABILITY_SYSTEM_CALLS},
	{"ARBITRARY_EXECUTION", cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION},
	{"CGO", cpb.Capability_CAPABILITY_CGO},
	{"UNANALYZED", cpb.Capability_CAPABILITY_UNANALYZED},
	{"UNSAFE_POINTER", cpb.Capability_CAPABILITY_UNSAFE_POINTER},
	{"REFLECT", cpb.Capability_CAPABILITY_REFLECT},
	{"EXEC", cpb.Capability_CAPABILITY_EXEC},
}

// names that are not capabilities
var c17Bad = []string{"", "BOGUS", "CAPABILITY_", "files", "FILES ", "--FILES", "CAPABILITY_CAPABILITY_FILES", "CAPABILITY", " NETWORK", "FILES;NETWORK"}

// c17Elem returns the text of one element, whether it is valid, its
// capability and whether it is negated.
func c17Elem(id string, caps, bad int) (text string, ok bool, c cpb.Capability, neg bool) {
	k := vrt.Choice("name"+id, caps+bad)
	neg = vrt.Bool("neg" + id)
	full := vrt.Bool("full" + id)
	if k < caps {
		text, c, ok = c17Caps[k].short, c17Caps[k].c, true
		if full {
			text = "CAPABILITY_" + text
		}
	} else {
		text = c17Bad[k-caps]
	}
	if neg {
		text = "-" + text
	}
	return
}

func c17Check(sel string, n int, oks, negs []bool, caps []cpb.Capability) {
	cs, err := NewCapabilitySet(sel)
	valid := true
	for i := 0; i < n; i++ {
		if !oks[i] || negs[i] != negs[0] {
			valid = false
		}
	}
	vrt.Observe("sel", sel)
	vrt.Observe("valid", valid)
	vrt.Assert((err == nil) == valid, "parses exactly the well-formed selections")
	vrt.Assert(err == nil || cs == nil, "no selection is returned with an error")
	vrt.Assert(!valid || cs != nil, "a non-empty selection is not nil")
	if !valid || err != nil {
		vrt.Cover(true, "rejected selection")
		return
	}
	vrt.Cover(negs[0], "negated selection")
	vrt.Cover(!negs[0], "plain selection")
	q := vrt.Choice("query", len(c17Caps)+2)
	c := cpb.Capability(77)
	if q < len(c17Caps) {
		c = c17Caps[q].c
	} else if q > len(c17Caps) {
		c = -1
	}
	listed := false
	for i := 0; i < n; i++ {
		if caps[i] == c {
			listed = true
		}
	}
	vrt.Cover(cs.Has(c), "member")
	vrt.Cover(!cs.Has(c), "non-member")
	vrt.Assert(cs.Has(c) == (listed != negs[0]), "membership is exactly the listed or the unlisted capabilities")
}

// VerifC17One: one element, every capability name with and without prefix and sign, and
// ten malformed names; every capability number queried.
//
//verif:harness C17
func VerifC17One() {
	t, ok, c, neg := c17Elem("0", len(c17Caps), len(c17Bad))
	if t == "" {
		// the empty selection is the set of all capabilities
		cs, err := NewCapabilitySet(t)
		vrt.Assert(err == nil, "the empty selection is accepted")
		vrt.Assert(cs.Has(cpb.Capability(vrt.Choice("query", len(c17Caps)+2))), "the empty selection contains everything")
		vrt.Cover(true, "empty selection")
		return
	}
	c17Check(t, 1, []bool{ok}, []bool{neg}, []cpb.Capability{c})
}

// VerifC17Two: two elements out of eight capability names with and without prefix and
// sign and three malformed names each.
//
//verif:harness C17
func VerifC17Two() {
	t0, ok0, c0, n0 := c17Elem("0", 7, 3)
	t1, ok1, c1, n1 := c17Elem("1", 8, 3)
	c17Check(t0+","+t1, 2, []bool{ok0, ok1}, []bool{n0, n1}, []cpb.Capability{c0, c1})
}

// VerifC17Three: three elements out of four capability names with and without prefix and
// sign and two malformed names.
//
//verif:harness C17
func VerifC17Three() {
	t0, ok0, c0, n0 := c17Elem("0", 3, 0)
	t1, ok1, c1, n1 := c17Elem("1", 3, 0)
	t2, ok2, c2, n2 := c17Elem("2", 4, 1)
	c17Check(t0+","+t1+","+t2, 3, []bool{ok0, ok1, ok2}, []bool{n0, n1, n2}, []cpb.Capability{c0, c1, c2})
}
