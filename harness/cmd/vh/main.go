// Command vh builds the variants of the code under test, runs the workers of a property, classifies what happens,
// shrinks failures, and writes evidence.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"verif/harness/cases"
)

var (
	verif  string // /verif
	repo   string // /repo
	tmp    string
	seed   uint64
	tier   string
	begun  = time.Now()
	silent = false
)

func die(format string, a ...any) {
	fmt.Printf("ERROR "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	killAll()
	if tmp != "" {
		os.RemoveAll(tmp)
	}
}

func main() {
	verif = os.Getenv("VH_VERIF")
	repo = os.Getenv("VH_REPO")
	tmp = os.Getenv("VH_TMP")
	if verif == "" || repo == "" || tmp == "" || len(os.Args) < 2 {
		fmt.Println("run check.sh")
		os.Exit(2)
	}
	tier = os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		} else {
			seed = cases.HashStr(s) >> 1
		}
	}
	switch os.Args[1] {
	case "check":
		code := check(os.Args[2])
		cleanup()
		os.Exit(code)
	case "replay":
		code := replayFile(os.Args[2])
		cleanup()
		os.Exit(code)
	case "warm":
		ok := true
		for _, v := range variantNames {
			if err := buildVariant(v); err != nil {
				fmt.Println("build", v, err)
				ok = false
			}
		}
		cleanup()
		if !ok {
			os.Exit(2)
		}
		fmt.Println("all variants build")
		return
	case "gen": // print a case
		i, _ := strconv.Atoi(os.Args[4])
		if err := buildVariant(os.Args[3]); err != nil {
			die("%v", err)
		}
		fmt.Println(genCase(os.Args[2], os.Args[3], i).JSON())
		cleanup()
		return
	}
	die("unknown command %s", os.Args[1])
}

func replayDir() string {
	d := filepath.Join(verif, "replays")
	os.MkdirAll(d, 0o755)
	return d
}
