package main

import (
	"github.com/google/capslock/vrt"

	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/proto"
)

//verif:use cmd/capslock/c31.go

// c29Save makes the encoding of results a text that can be decoded again: the
// file read later is what was written to standard output.
type c29doc struct {
	cil  *cpb.CapabilityInfoList
	file string
}

func (d *c29doc) hooks() {
	vrt.MarshalHook = func(m proto.Message) ([]byte, error) {
		d.cil, _ = m.(*cpb.CapabilityInfoList)
		return []byte("{\n\t\"document\": 1\n}"), nil
	}
	vrt.ReadFileHook = func(name string) ([]byte, error) {
		if name != "base.json" {
			return nil, verifErr
		}
		return []byte(d.file), nil
	}
	vrt.UnmarshalHook = func(b []byte, m proto.Message) error {
		s := string(b)
		for len(s) > 0 && (s[len(s)-1] == '\n' || s[len(s)-1] == ' ') {
			s = s[:len(s)-1]
		}
		to, ok := m.(*cpb.CapabilityInfoList)
		if !ok || d.cil == nil || s != "{\n\t\"document\": 1\n}" {
			return verifErr
		}
		to.CapabilityInfo = d.cil.CapabilityInfo
		to.ModuleInfo = d.cil.ModuleInfo
		to.PackageInfo = d.cil.PackageInfo
		return nil
	}
}

// c29Text is everything written to standard output.
func c29Text() string {
	s := ""
	for i := 0; i < vrt.OutLines("stdout"); i++ {
		if present, text := vrt.OutLine("stdout", i); present {
			s += text + "\n"
		}
	}
	return s
}

// VerifC29Self: a run writes its result as JSON and a second run with the same
// settings, except for those about paths and verbosity, compares with it, for
// a program of five functions with any of five calls, two of them known to the
// built-in map, four maps, four granularities, three selections and the
// settings for unanalyzed functions and the built-in map.
//
//verif:harness C29 both split=granularity:4,map:4,noisy:2
func VerifC29Self() {
	c := newVcmd()
	p := newC31()
	c31Set(c)
	c.pkgs = p.pkgs
	d := &c29doc{}
	d.hooks()
	vrt.SetFlag("output", []string{"json", "j"}[vrt.Choice("short", 2)])
	status := c.run()
	vrt.Assert(status == 0 && d.cil != nil, "the result is written")
	d.file = c29Text()
	n := len(d.cil.GetCapabilityInfo())
	vrt.OutReset("stdout")
	vrt.SetFlag("output", "compare")
	vrt.SetBoolFlag("omit_paths", vrt.Bool("omit2"))
	vrt.Argv = []string{"base.json"}
	status = c.run()
	vrt.Assert(status == 0, "no difference is reported")
	vrt.Assert(!c.printed(), "nothing is printed")
	vrt.Cover(n > 2, "a result with several entries")
}

// VerifC29Coarser: the same when the result is saved for functions and the
// comparison is made for packages, or without saying which.
//
//verif:harness C29 both split=granularity:4,map:4,noisy:2
func VerifC29Coarser() {
	c := newVcmd()
	p := newC31()
	c31Set(c)
	c.pkgs = p.pkgs
	d := &c29doc{}
	d.hooks()
	vrt.SetFlag("output", "json")
	g := vrt.Choice("granularity", 4)
	vrt.SetFlag("granularity", []string{"", "function"}[g%2])
	status := c.run()
	vrt.Assert(status == 0 && d.cil != nil, "the result is written")
	d.file = c29Text()
	n := len(d.cil.GetCapabilityInfo())
	vrt.OutReset("stdout")
	vrt.SetFlag("output", "compare")
	vrt.SetFlag("granularity", []string{"", "package"}[g/2])
	vrt.Argv = []string{"base.json"}
	status = c.run()
	vrt.Assert(status == 0, "no difference is reported")
	vrt.Cover(n > 2, "a result with several entries")
}

// VerifC29Twice: saving the result twice gives the same text and entries.
//
//verif:harness C29 both
func VerifC29Twice() {
	c := newVcmd()
	p := newC31()
	c.pkgs = p.pkgs
	d := &c29doc{}
	d.hooks()
	vrt.SetFlag("output", "json")
	s1 := c.run()
	a, first := c29Text(), d.cil
	vrt.OutReset("stdout")
	s2 := c.run()
	vrt.Assert(s1 == 0 && s2 == 0 && a == c29Text(), "the same text")
	vrt.Assert(c31Same(first.GetCapabilityInfo(), d.cil.GetCapabilityInfo()), "the same entries")
	vrt.Cover(len(first.GetCapabilityInfo()) > 2, "several entries")
}
