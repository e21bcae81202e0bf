package main

import (
	"errors"
	"strings"

	cpb "github.com/google/capslock/proto"
	"github.com/google/capslock/vrt"
	"google.golang.org/protobuf/proto"
)

var verifErr = errors.New("failed")

// vdiffRun runs the command and returns its exit status.
func vdiffRun() int {
	vrt.OutReset("stdout")
	vrt.OutReset("stderr")
	vrt.OutReset("log")
	code, exited := vrt.CatchExit(verifOrigMain)
	if !exited {
		return 0
	}
	return code
}

// vdiffExplained reports whether something was written to standard error.
func vdiffExplained() bool {
	for _, ch := range []string{"stderr", "log"} {
		n := vrt.OutLines(ch)
		for i := 0; i < n; i++ {
			if present, text := vrt.OutLine(ch, i); present && text != "" {
				return true
			}
		}
	}
	return false
}

// vdiffFlags sets the flags.
func vdiffFlags(granularity, capabilities string, args ...string) {
	vrt.SetBoolFlag("v", false)
	vrt.SetFlag("granularity", granularity)
	vrt.SetFlag("capabilities", capabilities)
	vrt.Argv = args
}

var vdiffCaps = []cpb.Capability{cpb.Capability_CAPABILITY_FILES, cpb.Capability_CAPABILITY_NETWORK}

// A vlist is an analysis result together with the pairs it contains.
type vlist struct {
	l  *cpb.CapabilityInfoList
	in [][]bool // by capability and name
}

var vnum = []string{"0", "1", "2", "3", "4", "5"}

// newVlist: up to n entries over the names, with a path of only the entry's own
// name (form 1) or another name after or before it (2, 3); the analyser always
// has the entry's name on the path.  Form 0 is an entry without a path, which
// at function granularity has no name.
func newVlist(tag string, n int, names []string, function, missing bool, lo, forms int) *vlist {
	v := &vlist{l: &cpb.CapabilityInfoList{}, in: make([][]bool, len(vdiffCaps))}
	for i := range v.in {
		v.in[i] = make([]bool, len(names))
	}
	for i := 0; i < n; i++ {
		ci := vrt.Choice(tag+"cap"+vnum[i], len(vdiffCaps))
		k := vrt.Choice(tag+"name"+vnum[i], len(names))
		o := 0
		form := lo + vrt.Choice(tag+"form"+vnum[i], forms-lo)
		if forms > 2 {
			o = vrt.Choice(tag+"other"+vnum[i], len(names))
		}
		present := vrt.Bool(tag + "entry" + vnum[i])
		fn := func(j int) *cpb.Function {
			if function {
				return &cpb.Function{Name: proto.String(names[j]), Package: proto.String("ex.org/p")}
			}
			return &cpb.Function{Name: proto.String(names[j] + ".F"), Package: proto.String(names[j])}
		}
		e := &cpb.CapabilityInfo{Capability: vdiffCaps[ci].Enum()}
		named := true
		if function {
			e.PackageDir = proto.String("ex.org/p")
			if form == 0 {
				named = false
			}
		} else if missing && vrt.Bool(tag+"missing"+vnum[i]) {
			named = false
		} else {
			e.PackageDir = proto.String(names[k])
		}
		switch form {
		case 1:
			e.Path = []*cpb.Function{fn(k)}
		case 2:
			e.Path = []*cpb.Function{fn(k), {Name: proto.String("w")}, fn(o)}
		case 3:
			if function {
				e.Path = []*cpb.Function{fn(k), fn(o), fn(o)}
			} else {
				e.Path = []*cpb.Function{fn(o), fn(k), {Name: proto.String("os.Remove"), Package: proto.String("os"), Site: &cpb.Function_Site{Filename: proto.String("a.go")}}}
			}
		}
		if present {
			v.l.CapabilityInfo = append(v.l.CapabilityInfo, e)
		}
		for a := range vdiffCaps {
			for b := range names {
				if present && named && a == ci && b == k {
					v.in[a][b] = true
				}
			}
		}
	}
	return v
}

// add adds an entry for a package.
func (v *vlist) add(c, k int, names []string) {
	v.l.CapabilityInfo = append(v.l.CapabilityInfo, &cpb.CapabilityInfo{
		Capability: vdiffCaps[c].Enum(),
		PackageDir: proto.String(names[k]),
		Path:       []*cpb.Function{{Name: proto.String(names[k] + ".F"), Package: proto.String(names[k])}},
	})
	v.in[c][k] = true
}

// vdiffCheck checks status, announcements and counts.
func vdiffCheck(status int, base, cur *vlist, names []string) {
	fresh, uses := 0, 0
	any := false
	for a := range vdiffCaps {
		old, added := false, 0
		for b := range names {
			if base.in[a][b] {
				old = true
			}
			if cur.in[a][b] && !base.in[a][b] {
				added++
				any = true
			}
		}
		if added > 0 && !old {
			fresh++
		}
		if old {
			uses += added
		}
	}
	vrt.Assert(status == vrt.If(any, 1, 0), "the status is 1 exactly when a use was added")
	count := make([][]int, len(vdiffCaps))
	for a := range count {
		count[a] = make([]int, len(names))
	}
	freshLine, usesLine := 0, 0
	known := true
	n := vrt.OutLines("stdout")
	for i := 0; i < n; i++ {
		present, text := vrt.OutLine("stdout", i)
		if !present {
			continue
		}
		if strings.HasPrefix(text, "Added ") {
			hit := false
			for k := 1; k <= 6; k++ {
				one := k == 1
				if text == "Added "+string([]byte{byte('0' + k)})+vrt.If(one, " new capability:", " new capabilities:") {
					freshLine += k
					hit = true
				}
				if text == "Added "+string([]byte{byte('0' + k)})+vrt.If(one, " new use of existing capability:", " new uses of existing capabilities:") {
					usesLine += k
					hit = true
				}
			}
			if !hit {
				known = false
			}
			continue
		}
		if !strings.Contains(text, " has capability ") && !strings.Contains(text, " have capability ") {
			continue
		}
		hit := 0
		for a, c := range vdiffCaps {
			if strings.HasSuffix(text, " capability "+c.String()+":") {
				for b, name := range names {
					if strings.Contains(text, " "+name+" ") || strings.Contains(text, " "+name+", ") {
						count[a][b]++
						hit++
					}
				}
			}
		}
		if hit != strings.Count(text, ",")+1 {
			known = false
		}
	}
	vrt.Assert(known, "only known names and capabilities are announced")
	for a := range vdiffCaps {
		for b := range names {
			vrt.Assert(count[a][b] == vrt.If(cur.in[a][b] && !base.in[a][b], 1, 0), "exactly the added uses are announced, once each")
		}
	}
	vrt.Assert(freshLine == fresh, "the number of new capabilities is right")
	vrt.Assert(usesLine == uses, "the number of new uses of existing capabilities is right")
	vrt.Cover(fresh == 1 && uses == 1 || uses == len(names)-1, "a new capability and a new use")
	vrt.Cover(!any && len(base.l.CapabilityInfo) > 0 && len(cur.l.CapabilityInfo) > 0, "nothing added")
}

// vdiffLists makes the analyser give the two results in turn.
func vdiffLists(base, cur *vlist) {
	runs := 0
	vrt.ExecHook = func(c *vrt.ExecCmd) error {
		if c.Path == "capslock" {
			runs++
		}
		return nil
	}
	vrt.UnmarshalHook = func(b []byte, m proto.Message) error {
		l := base.l
		if runs == 2 {
			l = cur.l
		}
		m.(*cpb.CapabilityInfoList).CapabilityInfo = l.CapabilityInfo
		return nil
	}
}
