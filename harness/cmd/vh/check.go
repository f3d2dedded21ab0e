package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/cases"
)

const shards = 8

type total struct {
	mu      sync.Mutex
	evals   int
	skipped int
	skipMsg string
	seen    map[uint64]bool
	labels  map[string]int64
	samples []*cases.Case
	perVar  map[string]int
	viol    *cases.Viol
	class   string
	errs    []string
	late    bool
	hangs   int
	known   map[string]int
	knownEx map[string]string
}

func (t *total) add(v string, r *cases.Result) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.evals += r.Evaluations
	t.late = t.late || r.Late
	t.skipped += r.Skipped
	if r.SkipMsg != "" {
		t.skipMsg = clip(r.SkipMsg, 400)
	}
	t.perVar[v] += r.Evaluations
	for _, h := range r.NonTrivial {
		t.seen[h] = true
	}
	for k, n := range r.Labels {
		t.labels[k] += n
	}
	for k, n := range r.Known {
		if t.known == nil {
			t.known, t.knownEx = map[string]int{}, map[string]string{}
		}
		t.known[k] += n
		t.knownEx[k] = r.KnownMsg[k]
	}
	if len(t.samples) < 6 {
		t.samples = append(t.samples, r.Samples...)
	}
}

func check(id string) int {
	if id == "C21" {
		return checkC21()
	}
	p := cases.PropByID(id)
	if p == nil {
		die("unknown property %s", id)
	}
	plans, notes := buildAll(p.Plans)
	t := &total{seen: map[uint64]bool{}, labels: map[string]int64{}, perVar: map[string]int{}}
	var stop atomic.Bool
	type work struct {
		variant string
		shard   int
		n       int
	}
	var q []work
	for s := 0; s < shards; s++ {
		for _, pl := range plans {
			n := pl.Quick
			if tier == "thorough" {
				n = pl.Thorough
			}
			if f, err := strconv.ParseFloat(os.Getenv("VH_SCALE"), 64); err == nil { // for trying things out
				n = int(float64(n) * f)
			}
			q = append(q, work{pl.Variant, s, n})
		}
	}
	if id == "C16" {
		if m := compareDefaults(); m != "" {
			t.viol = &cases.Viol{Msg: m, Case: &cases.Case{Prop: id, Variant: "defaults"}}
		}
	}
	var wg sync.WaitGroup
	ch := make(chan work, len(q))
	for _, w := range q {
		ch <- w
	}
	close(ch)
	for k := 0; k < shards; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for w := range ch {
				if !stop.Load() && t.viol == nil {
					runShard(p, t, w.variant, w.shard, w.n, &stop)
				}
			}
		}()
	}
	wg.Wait()
	code := 0
	if t.viol != nil {
		code = report(p, t)
	} else if len(t.errs) > 0 {
		for _, e := range t.errs {
			fmt.Println("ERROR", e)
		}
		code = 2
	}
	for _, f := range findings(id) {
		if t.known[f.key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases, e.g. %s)\n", id, f.text, t.known[f.key], t.knownEx[f.key])
		}
	}
	writeEvidence(id, p.Rule, t, notes, code)
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d skipped=%d wall=%.1fs\n", id, tier, seed, t.evals, len(t.seen), t.skipped, time.Since(begun).Seconds())
	}
	return code
}

// budget is how long workers may take before they stop early.
func budget() time.Duration {
	if tier == "thorough" {
		return 3 * time.Hour
	}
	return 400 * time.Second
}

func runShard(p *cases.PropPlan, t *total, variant string, shard, n int, stop *atomic.Bool) {
	next := shard
	retries, glitches := 0, 0
	for respawn := 0; next < n; respawn++ {
		if respawn > 60 {
			t.mu.Lock()
			t.skipped += (n - next) / shards
			t.mu.Unlock()
			return
		}
		o := runWorker(&cases.Job{Mode: "run", Prop: p.ID, Variant: variant, Seed: seed, Start: next, Step: shards, End: n, Until: begun.Add(budget()).Unix()}, p.Env, stop, stuckCPU)
		if o.killed {
			return
		}
		if o.res != nil {
			t.add(variant, o.res)
			if o.res.Viol != nil {
				t.fail(o.res.Viol, "violation", stop)
				return
			}
			if o.res.Done {
				return
			}
			next = o.res.Next
			continue
		}
		class, msg := classify(o)
		switch class {
		case crashHarness:
			t.err(fmt.Sprintf("variant %s: %s", variant, msg), stop)
			return
		case crashResource:
			if retries++; retries > 2 || o.idx < 0 {
				t.err(fmt.Sprintf("variant %s: %s", variant, msg), stop)
				return
			}
			next = max(next, o.idx)
			continue
		}
		if o.idx < 0 {
			t.err(fmt.Sprintf("variant %s: worker ended before its first case: %s", variant, clip(o.output, 800)), stop)
			// a package that cannot even start breaks every property, but it is C21 that says so
			return
		}
		c := genCase(p.ID, variant, o.idx)
		if class == crashHang {
			idx := o.idx
			v := confirmHang(c, p.Env)
			if v.bad {
				t.fail(&cases.Viol{Msg: v.msg, Case: c}, crashHang, stop)
				return
			}
			if counts(p.ID, crashHang, "PROPERTY") {
				if glitches++; glitches <= 3 { // a stalled machine? then it works when tried again
					if o := runWorker(&cases.Job{Mode: "replay", Prop: p.ID, Variant: variant, Seed: seed, Case: c}, p.Env, nil, stuckCPU); o.res != nil {
						next = idx
						continue
					}
				}
				t.err(fmt.Sprintf("variant %s: no progress on case %d, not confirmed as endless: %s", variant, o.idx, clip(c.JSON(), 400)), stop)
				return
			}
			t.skip("hang: " + clip(c.JSON(), 300))
			t.mu.Lock()
			t.hangs++
			enough := t.hangs > 4
			t.mu.Unlock()
			if enough { // it takes too long, and nothing can be learned here
				t.mu.Lock()
				t.late = true
				t.mu.Unlock()
				stop.Store(true)
				return
			}
			next = o.idx + shards
			continue
		}
		if counts(p.ID, class, msg) {
			t.fail(&cases.Viol{Msg: class + ": " + msg, Case: c}, class, stop)
			return
		}
		t.skip(class + ": " + clip(msg, 300))
		next = o.idx + shards
	}
}

func (t *total) skip(m string) {
	t.mu.Lock()
	t.skipped++
	t.evals++
	t.skipMsg = m
	t.mu.Unlock()
}

func (t *total) err(m string, stop *atomic.Bool) {
	t.mu.Lock()
	t.errs = append(t.errs, m)
	t.mu.Unlock()
	stop.Store(true)
}

func (t *total) fail(v *cases.Viol, class string, stop *atomic.Bool) {
	t.mu.Lock()
	if t.viol == nil {
		t.viol, t.class = v, class
	}
	t.mu.Unlock()
	stop.Store(true)
}

// report confirms and shrinks a violation, writes its replay file and prints the VIOLATION line.
func report(p *cases.PropPlan, t *total) int {
	c, msg := t.viol.Case, t.viol.Msg
	note := ""
	if c.Variant != "defaults" {
		ok := false
		if t.class == crashHang { // has been confirmed
			ok = true
		}
		for k := 0; k < 3 && !ok; k++ {
			v := replay(c, p.Env, stuckCPU/3)
			if v.bad {
				ok, msg = true, v.msg
			} else if v.class == crashHarness {
				fmt.Println("ERROR replay:", v.msg)
				return 2
			}
		}
		if ok {
			c, msg = shrink(c, msg, p.Env, t.class == crashHang)
		} else {
			note = "observed once during the run, not reproduced by replaying the case 3 times (it depends on the real scheduler or collector)"
			if t.class == crashPanic && !strings.Contains(msg, "jfcg/sorty") {
				fmt.Println("ERROR unexplained crash:", clip(msg, 1500))
				return 2
			}
		}
	}
	path := filepath.Join(replayDir(), fmt.Sprintf("%s-%s-%d.json", p.ID, tier, seed))
	cases.WriteJSON(path, map[string]any{"property": p.ID, "message": msg, "case": c, "note": note, "seed": seed, "tier": tier,
		"how": "bash check.sh replay " + path})
	fmt.Println(clip(msg, 3000))
	if note != "" {
		fmt.Println("NOTE", note)
	}
	fmt.Println("case:", clip(c.JSON(), 2000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

func replayFile(path string) int {
	var f struct {
		Property string
		Case     *cases.Case
		C21      *combo
	}
	if err := cases.ReadJSON(path, &f); err != nil {
		die("%v", err)
	}
	if f.C21 != nil {
		return replayC21(f.Property, f.C21, path)
	}
	if f.Case.Variant == "defaults" {
		if m := compareDefaults(); m != "" {
			fmt.Println(m)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	if err := buildVariant(f.Case.Variant); err != nil {
		die("%v", err)
	}
	var env []string
	if p := cases.PropByID(f.Property); p != nil {
		env = p.Env
	}
	for k := 0; k < 3; k++ {
		v := replay(f.Case, env, stuckCPU)
		if v.bad {
			fmt.Println(clip(v.msg, 4000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
		if v.class != "" {
			fmt.Println(v.class, clip(v.msg, 500))
		}
	}
	fmt.Println("not reproduced")
	return 0
}

// compareDefaults: the tuning build starts with the same values as the normal one.
func compareDefaults() string {
	var r [2]*cases.Result
	for i, v := range []string{"plain", "tune"} {
		if err := buildVariant(v); err != nil {
			die("building %s: %v", v, err)
		}
		o := runWorker(&cases.Job{Mode: "params", Variant: v}, nil, nil, stuckCPU)
		if o.res == nil {
			die("params of %s: %s", v, clip(o.output, 500))
		}
		r[i] = o.res
	}
	if r[0].Params != r[1].Params || r[0].MaxGor != r[1].MaxGor || r[0].NaN != r[1].NaN {
		return fmt.Sprintf("default parameters differ: normal build {MaxLenIns, MaxLenInsFC, MaxLenRec, MaxLenRecFC} = %v MaxGor %d NaNoption %d, tuneparam build %v %d %d",
			r[0].Params, r[0].MaxGor, r[0].NaN, r[1].Params, r[1].MaxGor, r[1].NaN)
	}
	return ""
}

func writeEvidence(id, rule string, t *total, notes []string, code int) {
	var samples []any
	for _, s := range t.samples {
		if len(samples) < 6 {
			samples = append(samples, s)
		}
	}
	if samples == nil {
		samples = []any{}
	}
	viol := 0
	if code == 1 {
		viol = 1
	}
	type kv struct {
		k string
		n int64
	}
	var ls []kv
	for k, n := range t.labels {
		ls = append(ls, kv{k, n})
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].n > ls[j].n })
	lab := map[string]int64{}
	for i, l := range ls {
		if i < 80 {
			lab[l.k] = l.n
		}
	}
	cov := map[string]any{
		"evaluations":                 t.evals,
		"distinct_nontrivial":         len(t.seen),
		"rule":                        rule,
		"samples":                     samples,
		"per_variant":                 t.perVar,
		"labels":                      lab,
		"cut_short_by_other_failures": t.skipped,
		"time_was_up":                 t.late,
	}
	if t.skipMsg != "" {
		cov["cut_short_example"] = t.skipMsg
	}
	if t.known != nil {
		cov["known_finding_cases"] = t.known
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	e := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(begun).Seconds(), "violations": viol,
		"assumptions": []string{"the Go toolchain, its runtime counters and race detector are right", "generated cases only: absence of violations is not a proof"},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := cases.WriteJSON(filepath.Join(verif, "evidence", id+".json"), e); err != nil {
		die("%v", err)
	}
}
