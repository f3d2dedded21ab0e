// Package worker is the process that runs cases against one build of the code under test. It is a test binary only
// because owned schedules need testing/synctest.
package worker

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime/debug"
	"slices"
	"testing"
	"time"

	"verif/harness/cases"
	"verif/harness/core"
)

func TestWorker(t *testing.T) {
	path := os.Getenv("VH_JOB")
	if path == "" {
		t.Skip("no job")
	}
	debug.SetMaxStack(64 << 20)
	var job cases.Job
	if err := cases.ReadJSON(path, &job); err != nil {
		fmt.Println("HARNESS", err)
		os.Exit(3)
	}
	res := &cases.Result{Labels: map[string]int64{}, Params: core.DefaultParams, MaxGor: core.DefaultMaxGor, NaN: int(core.DefaultNaN)}
	exit := func() {
		if err := cases.WriteJSON(job.Out, res); err != nil {
			fmt.Println("HARNESS", err)
			os.Exit(3)
		}
		os.Exit(0)
	}
	switch job.Mode {
	case "params":
		exit()
	case "gen":
		res.Case = core.Gen(job.Prop, job.Variant, job.Seed, job.Start)
		exit()
	case "replay":
		job.Prop = job.Case.Prop
		job.Start, job.Step, job.End = 0, 1, 1
	}
	p := core.Find(job.Prop)
	if p == nil {
		fmt.Println("HARNESS unknown property", job.Prop)
		os.Exit(3)
	}
	var cur *os.File
	if job.Cur != "" {
		cur, _ = os.Create(job.Cur)
	}
	seen := map[uint64]bool{}
	for i := job.Start; i < job.End; i += job.Step {
		if job.Until > 0 && time.Now().Unix() >= job.Until {
			res.Late = true
			break
		}
		if cur != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i))
			cur.WriteAt(b[:], 0)
		}
		c := job.Case
		if job.Mode != "replay" {
			c = core.Gen(job.Prop, job.Variant, job.Seed, i)
		}
		res.Next = i + job.Step
		x := &core.Ctx{T: t, Labels: res.Labels}
		core.Fatal = func(v *core.Violation) { // the process cannot go on after this
			res.Evaluations++
			if core.FatalCounts(job.Prop, v.Msg) {
				res.Viol = &cases.Viol{Msg: v.Msg, Case: c}
			} else {
				res.Skipped++
				res.SkipMsg = v.Msg
			}
			exit()
		}
		if b := c.Get("stepBudget"); b > 0 {
			core.SetStepBudget(b)
		}
		v := p.Run(x, c)
		res.Evaluations++
		if v != nil && v.Known != "" && slices.Contains(job.Known, v.Known) {
			if res.Known == nil {
				res.Known, res.KnownMsg = map[string]int{}, map[string]string{}
			}
			res.Known[v.Known]++
			res.KnownMsg[v.Known] = v.Msg
			v = nil
		}
		if v != nil && !v.Foreign {
			res.Viol = &cases.Viol{Msg: v.Msg, Case: c}
			exit()
		}
		if v != nil {
			res.Skipped++
			res.SkipMsg = v.Msg
			continue
		}
		if x.NonTrivial {
			if h := c.Hash(); !seen[h] {
				seen[h] = true
				res.NonTrivial = append(res.NonTrivial, h)
				if len(res.Samples) < 2 {
					res.Samples = append(res.Samples, c)
				}
			}
		}
	}
	res.Done = true
	exit()
}
