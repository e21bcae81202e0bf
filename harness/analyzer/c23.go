package analyzer

import (
	"github.com/google/capslock/vrt"
)

//verif:use analyzer/envlib.go
//verif:use analyzer/graphlib.go

// VerifC23Load: every combination of given and missing tags, system and
// architecture with every inherited environment over six variables.
//
//verif:harness C23 both
func VerifC23Load() {
	l := vloadStart(venviron())
	tags := vtags[vrt.Choice("tags", len(vtags))]
	goos := vgoos[vrt.Choice("goos", len(vgoos))]
	goarch := vgoarch[vrt.Choice("goarch", len(vgoarch))]
	patterns := []string{"./...", "ex.org/a"}
	_, err := LoadPackages(patterns, LoadConfig{BuildTags: tags, GOOS: goos, GOARCH: goarch})
	vrt.Assert(err == nil, "no error of its own")
	l.check(patterns, tags, goos, goarch)
	vrt.Cover(tags == "a,b" && goos == "linux" && goarch == "", "tags and system given")
}

// VerifC23Values: values of up to three arbitrary characters.
//
//verif:harness C23 both
func VerifC23Values() {
	l := vloadStart([]string{"HOME=/h", "GOOS=plan9", "PATH=/bin"})
	value := func(name string) string {
		b := make([]byte, 3)
		for i := range b {
			b[i] = vrt.Byte(name + vgItoa(i))
			vrt.Assume(b[i] > ' ' && b[i] != 127)
		}
		return string(b)
	}
	tags, goos, goarch := value("tags"), value("goos"), value("goarch")
	pattern := value("pattern")
	_, err := LoadPackages([]string{pattern}, LoadConfig{BuildTags: tags, GOOS: goos, GOARCH: goarch})
	vrt.Assert(err == nil, "no error of its own")
	l.check([]string{pattern}, tags, goos, goarch)
	vrt.Cover(tags == "a=b" && goos == "w=x", "values with an equals sign")
}

// VerifC23Patterns: up to three patterns in any order.
//
//verif:harness C23 both
func VerifC23Patterns() {
	l := vloadStart([]string{"HOME=/h"})
	var patterns []string
	n := vrt.Choice("n", 4)
	table := []string{"./...", "ex.org/a", "std", "", "file=a.go"}
	for i := 0; i < n; i++ {
		patterns = append(patterns, table[vrt.Choice("pattern"+vgItoa(i), len(table))])
	}
	_, err := LoadPackages(patterns, LoadConfig{})
	vrt.Assert(err == nil, "no error of its own")
	l.check(patterns, "", "", "")
	vrt.Cover(n == 3 && patterns[0] == patterns[2], "repeated patterns")
}
