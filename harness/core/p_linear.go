package core

import (
	"fmt"
	"math"
	"math/bits"
	"runtime"
	"runtime/debug"
	"sync/atomic"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

// ---- C28: checks take linear work and constant memory, Search logarithmic work and constant memory

// what a check may do: one comparison per pair, some statements per element, some constant work
const (
	linCalls, linCalls0 = 1, 2
	linSteps, linSteps0 = 12, 400
	linMallocs          = 8
	linBytes            = 2048
)

func init() {
	kinds := append(append([]string(nil), NativeKinds...), "lsw", "lsw", "ptr", "len:any", "search")
	register(&Prop{ID: "C28",
		Gen: func(r *cases.Rng, c *cases.Case) {
			k := cases.Pick(r, kinds...)
			if c.Variant == "instr" {
				k = cases.Pick(r, schedKinds...)
			}
			c.S = "check"
			if k == "search" {
				c.S, k = k, "uint32"
			}
			genBase(r, c, k, 20000)
			if c.Order == "adv" || c.Order == "str" {
				c.Order = "desc"
			}
			rareLong(r, c, 20, 1<<19)
			c.Set("mode", int64(cases.Pick(r, 0, 1, 1, 1, 2, 2)))
			c.Set("at", int64(r.U64()>>2))
			if c.Variant == "instr" && r.Intn(30) == 0 { // so long that a recursion with large pieces shows
				c.Pool, c.Shape, c.N = "", cases.Pick(r, "random", "random", "equal", "sorted"), r.Range(1<<17, 1<<20)
				if c.NaNs > 0 {
					c.NaNs = r.Range(1, c.N)
				}
				c.Set("mode", int64(cases.Pick(r, 1, 1, 2)))
			}
		},
		Run: runLinear})
}

func runLinear(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	s := BuildSubject(c)
	n := s.Len()
	if c.S == "search" && c.Seed&3 == 1 { // there need not be a collection
		n = math.MaxInt >> (c.Seed >> 2 % (bits.UintSize - 1))
	}
	x.NonTrivial = n >= 100
	x.Label("op " + c.S)
	x.Label("kind " + c.Kind)
	at := int(c.Get("at") % int64(max(n, 1)))
	if c.Get("mode") > 0 && c.S != "search" {
		refSort(s)
		if c.Get("mode") == 2 && at > 0 { // a descent somewhere
			s.Swap(at, at-1)
		}
	}
	calls, depth, probe := 0, 0, false
	var pcs [600]uintptr
	l, _ := s.(*LswColl)
	if l != nil {
		l.hook = func(i, k, r, s int) {
			if calls++; probe && calls&(calls-1) == 0 {
				d, _ := sortyDepth(pcs[:runtime.Callers(2, pcs[:])])
				depth = max(depth, d)
			}
		}
	}
	call := func() {
		if c.S == "search" {
			sorty.Search(n, func(k int) bool { calls++; return k >= at })
		} else {
			s.Check()
		}
	}
	if c.Variant == "instr" {
		var steps atomic.Int64
		lim := int64(linSteps*n + linSteps0)
		if c.S == "search" {
			lim = linSteps0 * 4
		}
		setHook(func(f int) {
			if steps.Add(1) > 100*lim {
				panic("PROPERTY statement budget exceeded")
			}
			if f&FlagEntry != 0 {
				d, _ := sortyDepth(pcs[:runtime.Callers(2, pcs[:])])
				depth = max(depth, d)
			}
		})
		m := safely(call)
		setHook(nil)
		used := steps.Load()
		if m != "" && !contains(m, "budget") {
			return &Violation{Msg: m, Foreign: true}
		}
		x.Label(fmt.Sprintf("statements per element: %d", (used+int64(n)/2)/int64(max(n, 1))))
		if used > lim {
			return &Violation{Msg: fmt.Sprintf("%d statements (allowed: %d) for %s of %d elements of kind %s", used, lim, c.S, n, c.Kind)}
		}
	} else {
		old := debug.SetGCPercent(-1)
		defer debug.SetGCPercent(old)
		var mallocs, bytes uint64 = math.MaxUint64, math.MaxUint64
		for k := 0; k < 3; k++ {
			var a, b runtime.MemStats
			calls = 0
			runtime.ReadMemStats(&a)
			m := safely(call)
			runtime.ReadMemStats(&b)
			if m != "" {
				return &Violation{Msg: m, Foreign: true}
			}
			mallocs = min(mallocs, b.Mallocs-a.Mallocs)
			bytes = min(bytes, b.TotalAlloc-a.TotalAlloc)
			if mallocs <= linMallocs && bytes <= linBytes {
				break
			}
			runtime.GC()
		}
		x.Label(fmt.Sprintf("%d allocations", mallocs))
		if l != nil && c.S == "check" { // looking at the stack allocates
			probe, calls = true, 0
			if m := safely(call); m != "" {
				return &Violation{Msg: m, Foreign: true}
			}
		}
		lim := max(linCalls*(n-1), 0) + linCalls0
		if c.S == "search" {
			lim = int(log2(n)) + 3
		}
		switch {
		case mallocs > linMallocs || bytes > linBytes:
			return &Violation{Msg: fmt.Sprintf("%d heap allocations, %d bytes (allowed: %d, %d) for %s of %d elements of kind %s",
				mallocs, bytes, linMallocs, linBytes, c.S, n, c.Kind)}
		case calls > lim:
			return &Violation{Msg: fmt.Sprintf("%d callbacks (allowed: %d) for %s of %d elements", calls, lim, c.S, n)}
		}
	}
	if b := int(log2(n)) + 4; depth > b {
		return &Violation{Msg: fmt.Sprintf("recursion depth %d (allowed: %d) for %s of %d elements of kind %s", depth, b, c.S, n, c.Kind)}
	}
	return nil
}
