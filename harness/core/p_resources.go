package core

import (
	"fmt"
	"math"
	"math/bits"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

func goroutinesCreated() uint64 {
	s := []metrics.Sample{{Name: "/sched/goroutines-created:goroutines"}}
	metrics.Read(s)
	if s[0].Value.Kind() != metrics.KindUint64 {
		return 0
	}
	return s[0].Value.Uint64()
}

// chansMade counts channels made by the package under test, from an exact heap profile.
func chansMade() (n int64) {
	runtime.GC()
	runtime.GC()
	k, _ := runtime.MemProfile(nil, true)
	p := make([]runtime.MemProfileRecord, k+50)
	k, ok := runtime.MemProfile(p, true)
	if !ok {
		return -1
	}
	for _, r := range p[:k] {
		fr := runtime.CallersFrames(r.Stack())
		chn := false
		for {
			f, more := fr.Next()
			if strings.HasPrefix(f.Function, "runtime.makechan") || f.Function == "reflect.MakeChan" {
				chn = true
			}
			if chn && strings.HasPrefix(f.Function, "github.com/jfcg/sorty/v2.") {
				n += r.AllocObjects
				break
			}
			if !more {
				break
			}
		}
	}
	return
}

func copySubject(c *cases.Case) func() Subject {
	return func() Subject { return BuildSubject(c) }
}

// sortyDepth returns the highest multiplicity of one function of the package on the calling stack.
func sortyDepth(pcs []uintptr) (best int, name string) {
	fr := runtime.CallersFrames(pcs)
	var names [24]string
	var cnt [24]int
	k := 0
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "github.com/jfcg/sorty/v2.") {
			j := 0
			for j < k && names[j] != f.Function {
				j++
			}
			if j == k && k < len(names) {
				names[k] = f.Function
				k++
			}
			if j < k {
				cnt[j]++
				if cnt[j] > best {
					best, name = cnt[j], f.Function
				}
			}
		}
		if !more {
			return
		}
	}
}

func log2(n int) float64 { return math.Log2(float64(max(n, 2))) }

func init() {
	// ---- C12
	kinds := append(append([]string(nil), NativeKinds...), "lsw", "lsw", "ptr", "len:any")
	register(&Prop{ID: "C12",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, cases.Pick(r, kinds...), 5000)
			if c.Order == "adv" {
				c.Order = "asc"
			}
			_, rec := limits(c)
			op := cases.Pick(r, "gor", "gor", "short", "short", "check", "search")
			c.S = op
			switch op {
			case "gor":
				c.MaxGor = uint64(r.Intn(2))
				c.N = cases.Pick(r, r.Range(2*rec, 8*rec), r.Range(2*rec, 2*rec+8), 4*(rec+1)+r.Range(-2, 2), c.N)
			case "short":
				c.N = cases.Pick(r, rec, rec, rec-1, r.Range(0, rec), r.Range(0, rec))
				c.MaxGor = cases.Pick[uint64](r, 2, 3, 4, 8, 4096)
			default:
				c.MaxGor = cases.Pick[uint64](r, 0, 1, 3, 8)
				c.N = cases.Pick(r, c.N, r.Range(2*rec, 6*rec))
			}
			switch op {
			case "gor":
				rareLong(r, c, 20, 1<<20)
			case "check":
				rareLong(r, c, 3, 1<<19)
			case "search":
				c.Kind, c.Pool = "uint32", "full"
				rareLong(r, c, 3, 1<<20)
			}
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			runtime.MemProfileRate = 1
			setup(c)
			s := BuildSubject(c)
			if c.S == "check" && c.Seed&1 == 0 {
				refSort(s)
			}
			x.NonTrivial = s.Len() > 1
			x.Label("op " + c.S)
			x.Label("kind " + c.Kind)
			me := getg()
			foreign := false
			if l, ok := s.(*LswColl); ok {
				l.hook = func(i, k, r, s int) {
					if getg() != me {
						foreign = true
					}
				}
			}
			old := debug.SetGCPercent(-1)
			c0 := chansMade()
			g0 := goroutinesCreated()
			m := safely(func() {
				switch c.S {
				case "check":
					s.Check()
				case "search":
					n, first := s.Len(), c.A
					if c.Seed&3 == 1 { // there need not be a collection
						n = math.MaxInt >> (c.Seed >> 2 % (bits.UintSize - 1))
						first = n - n>>(c.Seed>>8%bits.UintSize)
					}
					sorty.Search(n, func(k int) bool {
						if getg() != me {
							foreign = true
						}
						return k >= first
					})
				default:
					s.Sort()
				}
			})
			g1 := goroutinesCreated()
			c1 := chansMade()
			debug.SetGCPercent(old)
			switch {
			case m != "":
				return &Violation{Msg: m, Foreign: true}
			case g1 != g0:
				return &Violation{Msg: fmt.Sprintf("%d goroutines were created by %s on %d elements with MaxGor=%d", g1-g0, c.S, s.Len(), c.MaxGor)}
			case c1 > c0 && c0 >= 0:
				return &Violation{Msg: fmt.Sprintf("%d channels were made by %s on %d elements with MaxGor=%d", c1-c0, c.S, s.Len(), c.MaxGor)}
			case foreign:
				return &Violation{Msg: fmt.Sprintf("a callback ran on another goroutine than the caller's: %s on %d elements with MaxGor=%d", c.S, s.Len(), c.MaxGor)}
			}
			return nil
		}})

	// ---- C18
	register(&Prop{ID: "C18",
		Gen: func(r *cases.Rng, c *cases.Case) {
			k := cases.Pick(r, kinds...)
			c.S = "alloc"
			big := 9000
			switch {
			case c.Variant == "instr":
				c.S = "depth"
				k = cases.Pick(r, schedKinds...)
				big = 4000
			case r.Intn(3) == 0:
				c.S = "depth"
				k = "lsw"
				big = 5000
			}
			genBase(r, c, k, big)
			_, rec := limits(c)
			if r.Intn(4) != 0 {
				c.N = r.Range(2*rec, min(big, 60*rec))
			}
			if c.S == "depth" {
				if r.Intn(2) == 0 && c.Kind != "lsw" {
					ins, rec := limits(c)
					c.Shape = "killer"
					c.A = cases.Pick(r, ins+1, ins+2, rec+1, rec+2, rec+5)
					c.Set("krec", int64(rec))
					if isFC(c.Kind) {
						c.Set("kfc", 1)
					} else {
						c.Pool = "step"
						if strings.HasPrefix(c.Kind, "float") {
							c.Pool = "unit"
						} else if strings.HasPrefix(c.Kind, "len:") {
							c.Pool = "small"
						}
					}
					c.NaNs = 0
				}
				if c.Kind == "lsw" && r.Intn(2) == 0 {
					ins, _ := limits(c)
					c.Order = "adv"
					c.A = cases.Pick(r, 1, ins, 2*ins, 4*ins, 8*ins)
					c.N = min(c.N, 3000)
					if r.Intn(2) == 0 { // skewed again and again, both parts always long
						c.A = rec + rec/cases.Pick(r, 2, 4, 8, 16)
						c.N = c.A * r.Range(28, 50)
						c.MaxGor = cases.Pick(r, 1, 1, c.MaxGor)
						return
					}
				}
			} else if c.Order == "adv" || c.Order == "str" { // these callbacks allocate
				c.Order = "asc"
			}
			if c.Order == "adv" {
				c.N = min(c.N, 3000)
			} else if c.Shape != "killer" {
				rareLong(r, c, 60, 1<<19)
			}
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			setup(c)
			_, rec := limits(c)
			x.NonTrivial = c.N > rec
			x.Label(c.S)
			x.Label("kind " + c.Kind)
			x.Label("shape " + c.Shape)
			if c.S == "depth" {
				return runDepth(x, c)
			}
			return runAlloc(x, c)
		}})

	// ---- C19
	register(&Prop{ID: "C19",
		Gen: func(r *cases.Rng, c *cases.Case) {
			big := 20000
			kind := "lsw"
			if c.Variant == "instr" {
				kind = cases.Pick(r, append(append([]string(nil), schedKinds...), "lsw")...)
				big = 8000
			}
			if c.Variant == "plain" && r.Intn(6) == 0 { // processor time of native kinds, for work hidden in single statements
				genBase(r, c, cases.Pick(r, append(append([]string(nil), NativeKinds...), "ptr", "len:any")...), 1000)
				c.N = r.Range(1<<15, 1<<19)
				genRegular(r, c)
				if r.Intn(3) == 0 { // nearly sorted
					c.Shape, c.D = cases.Pick(r, "headtail", "headtail", "fewswaps", "rotated"), 4*c.N
					c.A = r.Range(c.N/40, c.N/8)
				}
				if c.Pool == "deep" || c.Pool == "longprefix" { // costly comparisons
					c.Pool = "random"
				}
				c.S, c.MaxGor = "cpu", cases.Pick[uint64](r, 1, 1, 3, 4)
				return
			}
			genBase(r, c, kind, big)
			if c.Variant == "instr" && r.Intn(2) == 0 {
				c.Tune = nil
			}
			if c.Kind == "lsw" && r.Intn(5) == 0 {
				c.Order = "adv"
				c.N = min(c.N, 1500)
				c.A = cases.Pick(r, 1, 1, 3, 20)
				return
			}
			if r.Intn(2) == 0 {
				c.N = r.Range(500, big)
			}
			if c.Order == "adv" {
				c.Order = "desc"
			}
			long := rareLong(r, c, 150, 1<<19)
			genRegular(r, c)
			if long { // few distinct values take quadratic time (the known finding)
				c.Shape = cases.Pick(r, "random", "perm", "equal", "sorted", "reversed", "fewswaps", "rotated", "headtail")
				c.Order, c.D = cases.Pick(r, "asc", "desc"), 4*c.N
			}
			if c.Idx == 1 { // the known finding
				c.Kind, c.Order, c.N, c.Shape, c.A, c.B, c.D, c.Tune = "lsw", "asc", 4000, "sawtooth", 1, 1, 0, nil
			}
		},
		Run: runWork})
}

// genRegular restricts a case to the arrangements for which n log n is promised.
func genRegular(r *cases.Rng, c *cases.Case) {
	c.Shape = cases.Pick(r, "random", "random", "perm", "equal", "sorted", "reversed", "sawtooth", "revsaw", "fewswaps", "twoval", "rotated", "headtail", "random")
	n := max(c.N, 1)
	c.D = cases.Pick(r, 1, 2, 3, 10, n, 4*n)
	c.A = cases.Pick(r, 1, 2, r.Range(1, 10), r.Range(1, n))
	c.B = cases.Pick(r, 1, 2, r.Range(1, 10))
	c.NaNs = 0
	if c.Kind == "lsw" {
		c.Order = cases.Pick(r, "asc", "desc", "mod", "bucket", "none", "bool")
	}
}

func runAlloc(x *Ctx, c *cases.Case) *Violation {
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	var mallocs, bytes, gors uint64 = math.MaxUint64, math.MaxUint64, 0
	for k := 0; k < 3; k++ {
		s := BuildSubject(c)
		var a, b runtime.MemStats
		runtime.GC()
		g0 := goroutinesCreated()
		runtime.ReadMemStats(&a)
		m := safely(s.Sort)
		runtime.ReadMemStats(&b)
		g1 := goroutinesCreated()
		if m != "" {
			return &Violation{Msg: m, Foreign: true}
		}
		if n := b.Mallocs - a.Mallocs; n <= mallocs {
			mallocs = n
			gors = max(gors, g1-g0)
		}
		bytes = min(bytes, b.TotalAlloc-a.TotalAlloc)
		limM, limB := allocLimits(gors)
		if mallocs <= limM && bytes <= limB {
			return nil
		}
	}
	limM, limB := allocLimits(gors)
	return &Violation{Msg: fmt.Sprintf("%d heap allocations, %d bytes (allowed: %d, %d) for sorting %d elements of kind %s with MaxGor=%d, %d goroutines created",
		mallocs, bytes, limM, limB, c.N, c.Kind, c.MaxGor, gors)}
}

func allocLimits(g uint64) (uint64, uint64) { return 16 + 8*g, 4096 + 2048*g }

// runDepth looks at the call stack of every goroutine from inside callbacks or entry hooks.
func runDepth(x *Ctx, c *cases.Case) *Violation {
	s := BuildSubject(c)
	bound := int(log2(c.N)) + 4
	var n atomic.Int64
	var mu sync.Mutex
	worst, who := 0, ""
	var deepest [2]atomic.Int64 // stack sizes of the caller and of other goroutines
	me := getg()
	probe := func() {
		var pcs [2048]uintptr
		k := runtime.Callers(2, pcs[:])
		p := &deepest[0]
		if getg() != me {
			p = &deepest[1]
		}
		if int64(k) <= p.Load() {
			return
		}
		p.Store(int64(k))
		d, f := sortyDepth(pcs[:k])
		if d > 1 {
			mu.Lock()
			if d > worst {
				worst, who = d, f
			}
			mu.Unlock()
		}
	}
	if l, ok := s.(*LswColl); ok {
		l.hook = func(i, k, r, s int) {
			if n.Add(1)&15 == 0 {
				probe()
			}
		}
	} else {
		setHook(func(f int) {
			if f&FlagEntry != 0 && n.Add(1)&1 == 0 {
				probe()
			}
		})
		defer setHook(nil)
	}
	if m := safely(s.Sort); m != "" {
		return &Violation{Msg: m, Foreign: true}
	}
	x.Label(fmt.Sprintf("depth/bound %d%%", worst*100/bound/10*10))
	if worst > bound {
		return &Violation{Msg: fmt.Sprintf("recursion depth %d of %s for n=%d (allowed: log2(n)+4 = %d)", worst, who, c.N, bound)}
	}
	return nil
}

// Work bounds: generous multiples of what the algorithm needs, so that only a change of the order of growth shows.
// The second constants bound the known finding (few distinct values): work grows with n times the highest multiplicity.
const (
	callC, callC0, callM = 3, 500, 1   // lesswap calls
	stepC, stepC0, stepM = 20, 3000, 4 // executed statements
)

// multiplicity returns how often the most frequent value occurs, 0 if all are equal or none is frequent.
func multiplicity(s Subject) int {
	n := s.Len()
	refSort(s)
	best, run, distinct := 0, 1, 1
	for i := 1; i <= n; i++ {
		if i < n {
			s.Swap(i-1, i)
			d := s.DescentAt(i)
			s.Swap(i-1, i)
			if !d {
				run++
				continue
			}
			distinct++
		}
		best = max(best, run)
		run = 1
	}
	if distinct < 2 || float64(best) < 2*log2(n) {
		return 0
	}
	return best
}

// cpuC is nanoseconds of processor time per n*log2(n): some 25 times the need of numbers, 12 times that of strings.
const cpuC, cpuStr = 150, 900

// runCPU bounds the processor time of the process during a call (not the time on the clock, which depends on other processes).
func runCPU(x *Ctx, c *cases.Case) *Violation {
	x.NonTrivial = true
	x.Label("processor time, kind " + c.Kind)
	x.Label("shape " + c.Shape)
	per := cpuC
	if isFC(c.Kind) {
		per = cpuStr
	}
	lim := int64(float64(per)*float64(c.N)*log2(c.N)) + 15e7
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	used := int64(math.MaxInt64)
	for k := 0; k < 3 && used > lim && (k == 0 || used < 8*lim); k++ { // the machine may be slow for a while
		s := BuildSubject(c)
		runtime.GC()
		a := cpuTime()
		m := safely(s.Sort)
		used = min(used, cpuTime()-a)
		if m != "" {
			return &Violation{Msg: m, Foreign: true}
		}
	}
	x.Label(fmt.Sprintf("processor time: limit used %d%%", used*100/lim/5*5))
	if used > lim {
		return &Violation{Msg: fmt.Sprintf("%d ms of processor time for n=%d (allowed: %d ms), kind %s, shape %s %d/%d/%d, MaxGor=%d",
			used/1e6, c.N, lim/1e6, c.Kind, c.Shape, c.A, c.B, c.D, c.MaxGor)}
	}
	return nil
}

func cpuTime() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return u.Utime.Nano() + u.Stime.Nano()
}

func runWork(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	if c.S == "cpu" {
		return runCPU(x, c)
	}
	s := BuildSubject(c)
	x.NonTrivial = c.N >= 100
	x.Label("kind " + c.Kind)
	x.Label("shape " + c.Shape)
	n := float64(c.N)
	nlogn := n * log2(c.N)
	ins, _ := limits(c)
	nm := 0.0
	// the known finding is about lesswap sorting only
	if c.Order != "adv" && c.Kind == "lsw" {
		nm = n * float64(multiplicity(BuildSubject(c)))
	}
	var lim, used, hard int64
	what := "lesswap calls"
	var m string
	if l, ok := s.(*LswColl); ok && c.Variant != "instr" {
		lim = int64(callC*nlogn+callC0) + int64(n*float64(ins)/2)
		hard = lim + int64(callM*nm)
		if c.Order == "adv" {
			x.Label("adversary")
			lim = int64(n*n + 4000)
			hard = lim
		}
		l.budget = hard
		m = safely(l.Sort)
		used = l.calls.Load()
	} else {
		what = "executed statements"
		lim = int64(stepC*nlogn+stepC0) + int64(3*n*float64(ins))
		hard = lim + int64(stepM*nm)
		if c.Order == "adv" {
			lim = int64(4*n*n + 20000)
			hard = lim
		}
		var steps atomic.Int64
		setHook(func(int) {
			if steps.Add(1) > hard {
				panic("PROPERTY statement budget exceeded")
			}
		})
		m = safely(s.Sort)
		setHook(nil)
		used = steps.Load()
	}
	if m != "" && !contains(m, "budget") {
		return &Violation{Msg: m, Foreign: true}
	}
	tell := fmt.Sprintf("%s for n=%d (allowed: %d), kind %s, shape %s %d/%d/%d, order %q, most frequent value occurs %.0f times",
		what, c.N, lim, c.Kind, c.Shape, c.A, c.B, c.D, c.Order, nm/max(n, 1))
	switch {
	case m != "":
		return &Violation{Msg: fmt.Sprintf("more than %d %s", hard, tell)}
	case used > lim:
		return &Violation{Msg: fmt.Sprintf("%d %s", used, tell), Known: "few-distinct"}
	}
	if nm > 0 {
		x.Label(fmt.Sprintf("%s, frequent values: limit used %d%%", what, used*100/hard/10*10))
	} else if c.Order == "adv" {
		x.Label(fmt.Sprintf("%s, adversary: limit used %d%%", what, used*100/hard/10*10))
	} else {
		x.Label(fmt.Sprintf("%s: limit used %d%%", what, used*100/hard/10*10))
	}
	return nil
}
