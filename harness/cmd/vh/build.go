package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/cases"
	"verif/harness/instr"
)

type variant struct {
	args []string
	env  []string
	hook bool
}

var variantNames = []string{"plain", "tune", "instr", "race", "tunerace", "i386", "tune386"}

var variants = map[string]variant{
	"plain":    {},
	"tune":     {args: []string{"-tags", "tuneparam"}},
	"instr":    {args: []string{"-tags", "tuneparam,verifinstr"}, hook: true},
	"instr386": {args: []string{"-tags", "tuneparam,verifinstr"}, env: []string{"GOARCH=386", "CGO_ENABLED=0"}, hook: true},
	"race":     {args: []string{"-race"}, env: []string{"CGO_ENABLED=1"}},
	"tunerace": {args: []string{"-race", "-tags", "tuneparam"}, env: []string{"CGO_ENABLED=1"}},
	"i386":     {env: []string{"GOARCH=386", "CGO_ENABLED=0"}},
	"tune386":  {args: []string{"-tags", "tuneparam"}, env: []string{"GOARCH=386", "CGO_ENABLED=0"}},
}

var built = map[string]bool{}
var builtMu sync.Mutex

func bin(v string) string { return filepath.Join(tmp, "worker."+v) }

func goCmd(dir string, env []string, args ...string) ([]byte, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	c.Env = append(c.Env, env...)
	return c.CombinedOutput()
}

// buildVariant compiles the worker against the working tree of the repository.
func buildVariant(name string) error {
	builtMu.Lock()
	ok := built[name]
	builtMu.Unlock()
	if ok {
		return nil
	}
	v, ok := variants[name]
	if !ok {
		return fmt.Errorf("no variant %s", name)
	}
	args := []string{"test", "-c", "-vet=off", "-o", bin(name)}
	args = append(args, v.args...)
	if v.hook {
		d := filepath.Join(tmp, "ov."+name)
		os.MkdirAll(d, 0o755)
		ov, err := instr.Hooks(repo, d)
		if err != nil {
			return err
		}
		args = append(args, "-overlay", ov)
	}
	args = append(args, "./worker")
	out, err := goCmd(filepath.Join(verif, "harness"), v.env, args...)
	if err != nil {
		return fmt.Errorf("%v: %s", err, strings.TrimSpace(string(out)))
	}
	builtMu.Lock()
	built[name] = true
	builtMu.Unlock()
	return nil
}

// buildAll builds the variants of a plan at once; variants that cannot be instrumented are dropped.
func buildAll(plans []cases.Plan) (keep []cases.Plan, notes []string) {
	errs := make([]error, len(plans))
	var wg sync.WaitGroup
	for i := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = buildVariant(plans[i].Variant)
		}()
	}
	wg.Wait()
	for i, p := range plans {
		if errs[i] == nil {
			keep = append(keep, p)
			continue
		}
		if variants[p.Variant].hook {
			notes = append(notes, "variant "+p.Variant+" not run: the sources could not be instrumented: "+clip(errs[i].Error(), 300))
			fmt.Println("NOTE", notes[len(notes)-1])
			continue
		}
		die("building variant %s: %v", p.Variant, errs[i])
	}
	return
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
