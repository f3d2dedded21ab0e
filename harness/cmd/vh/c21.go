package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/cases"
	"verif/harness/instr"
)

// combo is one set of compiled-in parameters.
type combo struct {
	Build                       string // normal, tuneparam
	Gor, Ins, InsFC, Rec, RecFC int64
}

func (c combo) feasible() bool {
	return 1 <= c.Gor && c.Gor <= 4096 && c.InsFC > 8 && c.Ins > c.InsFC && c.RecFC > c.Ins && c.RecFC-c.Ins > c.Ins && c.Rec > c.RecFC
}

var paramNames = []string{"MaxGor", "MaxLenIns", "MaxLenInsFC", "MaxLenRec", "MaxLenRecFC"}

func (c combo) env() []string {
	return []string{"VP_MaxGor=" + strconv.FormatInt(c.Gor, 10), "VP_MaxLenIns=" + strconv.FormatInt(c.Ins, 10), "VP_MaxLenInsFC=" + strconv.FormatInt(c.InsFC, 10),
		"VP_MaxLenRec=" + strconv.FormatInt(c.Rec, 10), "VP_MaxLenRecFC=" + strconv.FormatInt(c.RecFC, 10)}
}

// nearBound: within 2 of at least one of the bounds of the feasible region.
func (c combo) nearBound() bool {
	near := func(a, b int64) bool { d := a - b; return -2 <= d && d <= 2 }
	return near(c.Gor, 1) || near(c.Gor, 4096) || near(c.Rec, c.RecFC) || near(c.RecFC, 2*c.Ins) || near(c.Ins, c.InsFC) || near(c.InsFC, 8)
}

func genCombo(r *cases.Rng) combo {
	c := combo{Gor: 3, Ins: 60, InsFC: 30, Rec: 600, RecFC: 300}
	d := func() int64 { return int64(cases.Pick(r, -2, -1, 0, 1, 2)) }
	switch r.Intn(10) {
	case 0:
		c.Gor = cases.Pick[int64](r, 0, 1, 2, 4095, 4096, 4097, 4098, 5000, 1<<40, -1)
	case 1:
		c.InsFC = 8 + d()
		if r.Intn(2) == 0 {
			c.Ins = c.InsFC + d()
			c.RecFC = 2*c.Ins + d()
			c.Rec = c.RecFC + d()
		}
	case 2:
		c.Ins = c.InsFC + d()
	case 3:
		c.RecFC = 2*c.Ins + d()
	case 4:
		c.Rec = c.RecFC + d()
	case 5: // feasible, everything tight
		c.InsFC = int64(r.Range(9, 12))
		c.Ins = c.InsFC + int64(r.Range(1, 2))
		c.RecFC = 2*c.Ins + int64(r.Range(1, 2))
		c.Rec = c.RecFC + int64(r.Range(1, 2))
		c.Gor = int64(r.Range(1, 5))
	case 6: // chain with one or two links possibly broken
		c.InsFC = int64(r.Range(7, 40))
		c.Ins = c.InsFC + int64(r.Range(-1, 30))
		c.RecFC = 2*c.Ins + int64(r.Range(-1, 100))
		c.Rec = c.RecFC + int64(r.Range(-1, 200))
		c.Gor = cases.Pick[int64](r, 0, 1, 3, 64, 4096, 4097)
	case 7: // some close to the largest int, feasible or not
		h := func() int64 {
			return cases.Pick[int64](r, math.MaxInt64, math.MaxInt64-1, 1<<62, 1<<62-1, 1<<62+1, 1<<61, 1<<61+1, 1<<61-1, 1<<32, 1<<31, 1<<31-1, 1<<40)
		}
		for _, p := range []*int64{&c.Rec, &c.RecFC, &c.Ins, &c.InsFC} {
			if r.Intn(2) == 0 {
				*p = h()
			}
		}
		if r.Intn(2) == 0 {
			c.RecFC = c.Rec - int64(r.Range(1, 3))
		}
		if r.Intn(2) == 0 {
			c.Ins = c.RecFC/2 + d()
		}
	default:
		v := func() int64 {
			return cases.Pick(r, int64(r.Range(-5, 30)), int64(r.Range(0, 800)), int64(r.Range(0, 100000)))
		}
		c.InsFC, c.Ins, c.RecFC, c.Rec = v(), v(), v(), v()
		c.Gor = cases.Pick(r, 3, v())
	}
	return c
}

// buildParam builds the program with values for constants; variables are read from the environment.
func buildParam(name string, tags []string, c *combo) (path string, found map[string]bool, err error) {
	d := filepath.Join(tmp, "pp."+name)
	os.MkdirAll(d, 0o755)
	vals := map[string]string{}
	if c != nil {
		vals = map[string]string{"MaxLenIns": fmt.Sprint(c.Ins), "MaxLenInsFC": fmt.Sprint(c.InsFC), "MaxLenRec": fmt.Sprint(c.Rec), "MaxLenRecFC": fmt.Sprint(c.RecFC)}
	}
	ov, found, err := instr.Params(repo, d, paramNames, true, vals)
	if err != nil {
		return "", nil, err
	}
	path = filepath.Join(tmp, "paramprog."+name)
	args := append([]string{"build", "-o", path, "-overlay", ov}, tags...)
	out, err := goCmd(filepath.Join(verif, "harness"), nil, append(args, "./paramprog")...)
	os.RemoveAll(d)
	if err != nil {
		return "", found, fmt.Errorf("%s", clip(string(out), 800))
	}
	return path, found, nil
}

// judge runs the program and compares with what the values ask for.
func judge(path string, c combo) (msg string, fail bool) {
	cmd := exec.Command(path)
	cmd.Env = append(os.Environ(), c.env()...)
	ch := make(chan struct{})
	tm := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	out, err := cmd.CombinedOutput()
	tm.Stop()
	close(ch)
	s := string(out)
	started := strings.Contains(s, "STARTED")
	want := fmt.Sprintf("STARTED %d %d %d %d %d", uint64(c.Gor), c.Ins, c.InsFC, c.Rec, c.RecFC)
	if started && !strings.Contains(s, want) {
		return "HARNESS: values were not substituted: " + clip(s, 200), false
	}
	if !c.feasible() {
		if started {
			return fmt.Sprintf("%+v is infeasible, but the program started", c), true
		}
		if err == nil || !strings.Contains(s, "panic") {
			return "HARNESS: unexpected end: " + clip(s, 400), false
		}
		return "", false
	}
	switch {
	case strings.Contains(s, "SORTED") && !strings.Contains(s, "UNSORTED"):
		return "", false
	case strings.Contains(s, "UNSORTED"):
		return fmt.Sprintf("%+v is feasible, but sorting fails: %s", c, clip(s, 300)), true
	case !started && strings.Contains(s, "panic"):
		return fmt.Sprintf("%+v is feasible, but the program panics at start-up: %s", c, clip(s, 300)), true
	case started && (strings.Contains(s, "panic") || strings.Contains(s, "fatal error")):
		return fmt.Sprintf("%+v is feasible, but sorting crashes: %s", c, clip(s, 600)), true
	}
	return "HARNESS: " + clip(s, 400), false
}

func checkC21() int {
	const id = "C21"
	rule := "parameter tuples around every bound of the feasible region (and random ones), compiled into the tuneparam build (as initial values) and into the normal build (as constants; MaxGor as initial value); " +
		"oracle: the program starts and sorts iff the tuple is feasible; non-trivial: within 2 of a bound, and not the default"
	t := &total{seen: map[uint64]bool{}, labels: map[string]int64{}, perVar: map[string]int{}}
	nVar, nConst := 1200, 24
	if tier == "thorough" {
		nVar, nConst = 40000, 400
	}
	varBin, found, err := buildParam("var", []string{"-tags", "tuneparam"}, nil)
	if err != nil {
		die("building the parameter program: %v", err)
	}
	for _, n := range paramNames {
		if !found[n+" var"] {
			die("parameter %s not found as a variable", n)
		}
	}
	var stop atomic.Bool
	var mu sync.Mutex
	var bad *combo
	badMsg := ""
	do := func(path string, c combo) {
		m, fail := judge(path, c)
		mu.Lock()
		defer mu.Unlock()
		t.evals++
		t.perVar[c.Build]++
		if c.feasible() {
			t.labels[c.Build+" feasible"]++
		} else {
			t.labels[c.Build+" infeasible"]++
		}
		if c.nearBound() {
			b, _ := json.Marshal(c)
			t.seen[cases.HashStr(string(b))] = true
			if len(t.samples) < 6 && t.evals%97 == 1 {
				t.samples = append(t.samples, &cases.Case{Prop: id, Variant: c.Build, MaxGor: uint64(c.Gor), Tune: []int{int(c.Ins), int(c.InsFC), int(c.Rec), int(c.RecFC)}})
			}
		}
		if fail && bad == nil {
			bad, badMsg = &c, m
			stop.Store(true)
		} else if m != "" && !fail {
			t.errs = append(t.errs, m)
			stop.Store(true)
		}
	}
	par := func(n int, f func(i int)) {
		var wg sync.WaitGroup
		var next atomic.Int64
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= n || stop.Load() {
						return
					}
					f(i)
				}
			}()
		}
		wg.Wait()
	}
	par(nVar, func(i int) {
		c := genCombo(cases.NewRng(seed, 21, uint64(i)))
		c.Build = "tuneparam"
		do(varBin, c)
	})
	par(nConst, func(i int) {
		c := genCombo(cases.NewRng(seed, 2121, uint64(i)))
		if max(c.Rec, c.RecFC, c.Ins, c.InsFC) > 1<<48 { // what a compiler accepts in constant expressions is another matter
			return
		}
		c.Build = "normal"
		path, found, err := buildParam(fmt.Sprintf("const%d", i), nil, &c)
		if err == nil && !(found["MaxLenIns const"] && found["MaxLenInsFC const"] && found["MaxLenRec const"] && found["MaxLenRecFC const"]) {
			c.Build = "normal(vars)" // no constants there: the values came from the environment
		}
		if err != nil {
			mu.Lock()
			t.evals++
			t.labels["rejected by the compiler"]++
			if c.feasible() {
				t.errs = append(t.errs, fmt.Sprintf("building with %+v: %v", c, err))
				stop.Store(true)
			}
			mu.Unlock()
			return
		}
		do(path, c)
		os.Remove(path)
	})
	code := 0
	if bad != nil {
		bad, badMsg = shrinkC21(bad, badMsg, varBin)
		path := filepath.Join(replayDir(), fmt.Sprintf("%s-%s-%d.json", id, tier, seed))
		cases.WriteJSON(path, map[string]any{"property": id, "message": badMsg, "C21": bad, "seed": seed, "tier": tier})
		fmt.Println(badMsg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	} else if len(t.errs) > 0 {
		for _, e := range t.errs {
			fmt.Println("ERROR", e)
		}
		code = 2
	}
	writeEvidence(id, rule, t, nil, code)
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", id, tier, seed, t.evals, len(t.seen), time.Since(begun).Seconds())
	}
	return code
}

// shrinkC21 resets parameters to their defaults one by one while the tuple still fails.
func shrinkC21(c *combo, msg, varBin string) (*combo, string) {
	for i := 0; i < 5; i++ {
		d := *c
		switch i {
		case 0:
			d.Gor = 3
		case 1:
			d.Rec = 600
		case 2:
			d.RecFC = 300
		case 3:
			d.Ins = 60
		case 4:
			d.InsFC = 30
		}
		if d == *c {
			continue
		}
		path := varBin
		if !strings.HasPrefix(d.Build, "tune") {
			p, _, err := buildParam("shrink", nil, &d)
			if err != nil {
				continue
			}
			path = p
		}
		if m, fail := judge(path, d); fail {
			*c, msg = d, m
		}
	}
	return c, msg
}

func replayC21(prop string, c *combo, file string) int {
	var path string
	var err error
	if strings.HasPrefix(c.Build, "tune") {
		path, _, err = buildParam("var", []string{"-tags", "tuneparam"}, nil)
	} else {
		path, _, err = buildParam("const", nil, c)
	}
	if err != nil {
		die("%v", err)
	}
	m, fail := judge(path, *c)
	if fail {
		fmt.Println(m)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		return 1
	}
	fmt.Println("not reproduced", m)
	return 0
}
