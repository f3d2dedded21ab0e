package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/cases"
)

var (
	procMu sync.Mutex
	procs  = map[int]*exec.Cmd{}
	fileNo atomic.Int64
)

func killAll() {
	procMu.Lock()
	defer procMu.Unlock()
	for _, c := range procs {
		c.Process.Kill()
	}
}

// outcome of one worker process
type outcome struct {
	res     *cases.Result
	crashed bool
	killed  bool // by us, after another shard failed
	stuck   bool // made no progress on one case; output holds all stacks
	idx     int  // case that was running
	output  string
	sig     string
}

const (
	stuckCPU = 24 * time.Second // CPU time on one case
)

func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	s = s[strings.LastIndexByte(s, ')')+1:]
	f := strings.Fields(s)
	if len(f) < 14 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

type capped struct {
	b   bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	if r := c.max - c.b.Len(); r > 0 {
		c.b.Write(p[:min(len(p), r)])
	}
	return len(p), nil
}

// runWorker runs one worker process on a job.
func runWorker(job *cases.Job, env []string, stop *atomic.Bool, patience time.Duration) *outcome {
	id := fileNo.Add(1)
	jp := filepath.Join(tmp, fmt.Sprintf("job%d", id))
	job.Out, job.Cur = jp+".out", jp+".cur"
	if p := cmpProp(job); p != "" {
		job.Known = knownKeys(p)
	}
	if err := cases.WriteJSON(jp, job); err != nil {
		die("%v", err)
	}
	defer func() {
		os.Remove(jp)
		os.Remove(job.Out)
		os.Remove(job.Cur)
	}()
	cmd := exec.Command(bin(job.Variant), "-test.run=^TestWorker$", "-test.timeout=0")
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VH_JOB="+jp, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "GOMAXPROCS=", "GOGC=", "GODEBUG=")
	cmd.Env = append(cmd.Env, env...)
	out := &capped{max: 1 << 20}
	cmd.Stdout, cmd.Stderr = out, out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		die("starting worker: %v", err)
	}
	procMu.Lock()
	procs[cmd.Process.Pid] = cmd
	procMu.Unlock()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	o := &outcome{idx: -1}
	lastIdx := -1
	lastCPU, lastWall := time.Duration(0), time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	var err error
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-tick.C:
			if stop != nil && stop.Load() && !o.killed {
				o.killed = true
				cmd.Process.Kill()
				continue
			}
			i := readCur(job.Cur)
			cpu := cpuTime(cmd.Process.Pid)
			if i != lastIdx {
				lastIdx, lastCPU, lastWall = i, cpu, time.Now()
			} else if !o.stuck && (cpu-lastCPU > patience || time.Since(lastWall) > 5*patience/2 && cpu-lastCPU > 0 || time.Since(lastWall) > 5*patience) {
				o.stuck = true
				cmd.Process.Signal(syscall.SIGQUIT)
				time.AfterFunc(10*time.Second, func() { cmd.Process.Kill() })
			}
		}
	}
	procMu.Lock()
	delete(procs, cmd.Process.Pid)
	procMu.Unlock()
	o.idx = readCur(job.Cur)
	o.output = out.b.String()
	if !o.stuck && !o.killed {
		var r cases.Result
		if e := cases.ReadJSON(job.Out, &r); e == nil && err == nil {
			o.res = &r
			return o
		}
	}
	o.crashed = true
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.sig = ws.Signal().String()
		}
	}
	return o
}

func readCur(p string) int {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b))
}

// crash classes
const (
	crashHarness  = "harness"
	crashResource = "resource"
	crashRace     = "race"
	crashFault    = "fault"
	crashStack    = "stack"
	crashFatal    = "fatal" // runtime: heap corruption, bad pointers, ...
	crashDeadlock = "deadlock"
	crashPanic    = "panic"
	crashHang     = "hang"
)

// classify tells what kind of end a worker met, and a short message.
func classify(o *outcome) (class, msg string) {
	s := o.output
	if o.stuck {
		if st := blockedForever(s); st != "" {
			return crashDeadlock, "deadlock: every goroutine of the call is blocked\n" + st
		}
		return crashHang, "no progress"
	}
	has := func(x string) bool { return strings.Contains(s, x) }
	switch {
	case has("WARNING: DATA RACE"):
		i := strings.Index(s, "WARNING: DATA RACE")
		return crashRace, clip(s[i:], 2500)
	case has("HARNESS"):
		return crashHarness, clip(s, 1500)
	case has("out of memory") || has("cannot allocate memory") || has("failed to create new OS thread") || has("resource temporarily unavailable") || has("errno=11") || has("errno=12"):
		return crashResource, clip(s, 500)
	case o.sig == "killed":
		return crashResource, "worker was killed"
	case has("stack overflow") || has("goroutine stack exceeds"):
		return crashStack, clip(s, 1500)
	case has("all goroutines are asleep"):
		return crashDeadlock, clip(s, 2500)
	case has("SIGSEGV") || has("SIGBUS") || has("unexpected fault address"):
		return crashFault, clip(s, 2500)
	case has("fatal error:"):
		return crashFatal, clip(s, 2500)
	case has("panic:"):
		return crashPanic, clip(s, 2500)
	}
	return crashResource, "worker ended without a result: " + o.sig + " " + clip(s, 800)
}

// blockedForever looks at a dump of all stacks: if there are goroutines inside the package under test and every one of
// them waits for a channel or lock, nothing can ever wake them up.
func blockedForever(dump string) string {
	var in []string
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, "github.com/jfcg/sorty/v2.") {
			continue
		}
		h, _, _ := strings.Cut(g, "\n")
		if k := strings.Index(g, "goroutine "); k > 0 {
			g = g[k:]
			h, _, _ = strings.Cut(g, "\n")
		}
		if strings.Contains(h, "[chan ") || strings.Contains(h, "[semacquire") || strings.Contains(h, "[sync.") || strings.Contains(h, "[select") {
			in = append(in, clip(g, 700))
			continue
		}
		return ""
	}
	if len(in) > 5 {
		in = in[:5]
	}
	return strings.Join(in, "\n\n")
}

// counts tells whether a crash class breaks the property (otherwise the case is skipped: it broke something else).
func counts(prop, class, msg string) bool {
	if prop == "C20" { // the sub-property decides, but all of C20's statements are about results and containment
		return true
	}
	switch prop {
	case "C06", "C11", "C12":
		return false
	case "C10":
		return class == crashFault
	case "C18":
		return class == crashStack
	case "C19":
		return class == crashHang || strings.Contains(msg, "PROPERTY")
	}
	return true
}

func genCase(prop, variant string, idx int) *cases.Case {
	o := runWorker(&cases.Job{Mode: "gen", Prop: prop, Variant: variant, Seed: seed, Start: idx}, nil, nil, stuckCPU)
	if o.res == nil || o.res.Case == nil {
		die("cannot regenerate case %d of %s: %s", idx, prop, clip(o.output, 500))
	}
	return o.res.Case
}

// verdict of one replay
type verdict struct {
	bad   bool
	msg   string
	class string
}

func replay(c *cases.Case, env []string, patience time.Duration) verdict {
	o := runWorker(&cases.Job{Mode: "replay", Prop: c.Prop, Variant: c.Variant, Seed: seed, Case: c}, env, nil, patience)
	if o.res != nil {
		if o.res.Viol != nil {
			return verdict{true, o.res.Viol.Msg, "violation"}
		}
		return verdict{}
	}
	class, msg := classify(o)
	if class == crashHang {
		return confirmHang(c, env)
	}
	if class == crashHarness || class == crashResource {
		return verdict{class: class, msg: msg}
	}
	return verdict{counts(c.Prop, class, msg), msg, class}
}

// confirmHang replays a case in the instrumented build with a budget of statements: only exceeding the budget, which is far beyond
// quadratic work, counts as not terminating.
func confirmHang(c *cases.Case, env []string) verdict {
	build := "instr"
	if strings.HasSuffix(c.Variant, "386") {
		build = "instr386"
	}
	if buildVariant(build) != nil {
		return verdict{class: crashHang}
	}
	d := c.Clone()
	if d.Variant != "tune" && d.Variant != "instr" && d.Variant != "tunerace" && d.Variant != "tune386" {
		d.Tune = nil
	}
	d.Variant = "instr"
	n := int64(c.N)
	budget := 8*n*n + 4000*n + 1000000
	if c.Get("rounds") > 1 {
		budget *= c.Get("rounds")
	}
	d.Set("stepBudget", budget)
	o := runWorker(&cases.Job{Mode: "replay", Prop: d.Prop, Variant: build, Seed: seed, Case: d}, env, nil, 5*stuckCPU)
	if o.res == nil && strings.Contains(o.output, "PROPERTY statement budget") || o.res != nil && o.res.Viol != nil && strings.Contains(o.res.Viol.Msg, "statement budget") {
		return verdict{counts(c.Prop, crashHang, ""), fmt.Sprintf("no termination: more than %d statements executed for n=%d", budget, c.N), crashHang}
	}
	return verdict{class: crashHang}
}
