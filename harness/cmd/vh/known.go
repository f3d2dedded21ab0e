package main

import (
	"bufio"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/cases"
)

type finding struct{ key, text string }

// findings reads the listed known findings of a property. Lines: "finding: property=<id> key=<key> <what fails>".
// "fixed:" lines are a record only.
func findings(id string) (fs []finding) {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l, ok := strings.CutPrefix(sc.Text(), "finding: property="+id+" key=")
		if !ok {
			continue
		}
		k, text, _ := strings.Cut(l, " ")
		fs = append(fs, finding{k, text})
	}
	return
}

func knownKeys(id string) (ks []string) {
	for _, f := range findings(id) {
		ks = append(ks, f.key)
	}
	return
}

func cmpProp(j *cases.Job) string {
	if j.Case != nil {
		return j.Case.Prop
	}
	return j.Prop
}
