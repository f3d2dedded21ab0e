package core

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"slices"
	"unsafe"
	"weak"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

func init() {
	kinds := append(append([]string(nil), NativeKinds...), "lsw", "lsw", "lsw", "ptr", "len:any")

	// ---- C22: at most one channel per call
	register(&Prop{ID: "C22",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, cases.Pick(r, kinds...), 40000)
			if c.Order == "adv" {
				c.Order = "desc"
			}
			_, rec := limits(c)
			switch r.Intn(6) {
			case 0:
			case 1:
				c.N = min(r.Range(20*rec, 60*rec), 40000)
			default:
				c.N = r.Range(2*rec, 12*rec)
			}
			rareLong(r, c, 60, 1<<20)
			c.MaxGor = cases.Pick[uint64](r, 2, 2, 3, 3, 4, 5, 8, 64, 4096)
			c.Set("calls", int64(r.Range(1, 2)))
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			runtime.MemProfileRate = 1
			setup(c)
			calls := c.Get("calls")
			var subs []Subject
			for k := int64(0); k < calls; k++ {
				d := c.Clone()
				d.Seed += uint64(k)
				subs = append(subs, BuildSubject(d))
			}
			labels(x, c)
			old := debug.SetGCPercent(-1)
			defer debug.SetGCPercent(old)
			c0 := chansMade()
			for _, s := range subs {
				if m := safely(s.Sort); m != "" {
					return &Violation{Msg: m, Foreign: true}
				}
			}
			c1 := chansMade()
			if c0 < 0 || c1 < 0 {
				return nil
			}
			x.NonTrivial = c1 > c0
			x.Label(fmt.Sprintf("channels per %d call(s): %d", calls, c1-c0))
			if c1-c0 > calls {
				return &Violation{Msg: fmt.Sprintf("%d channels were made by %d call(s) on %d elements of kind %s with MaxGor=%d, at most one per call is allowed",
					c1-c0, calls, c.N, c.Kind, c.MaxGor)}
			}
			return nil
		}})

	// ---- C23: a callback that does not return normally
	register(&Prop{ID: "C23",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, "lsw", 5000)
			c.S = cases.Pick(r, "sort", "sort", "sort", "check", "search")
			_, rec := limits(c)
			if c.S != "search" && c.N < 2 {
				c.N = r.Range(2, 40)
			}
			if c.S == "sort" {
				if r.Intn(2) == 0 {
					c.N = max(2, cases.Pick(r, rec, rec-1, r.Range(2, rec), r.Range(2, rec)))
				} else {
					c.MaxGor = uint64(r.Intn(2))
				}
				if c.Order == "adv" {
					c.N = min(c.N, 400)
				}
			} else if c.Order == "adv" {
				c.Order = "asc"
			}
			if c.S == "check" && r.Intn(4) != 0 {
				c.Shape, c.Order = "sorted", "asc"
			}
			c.Set("how", int64(cases.Pick(r, 0, 0, 0, 1, 2))) // panic(value), Goexit, runtime error
			c.Set("at", int64(cases.Pick(r, 0, 1, 2, 3, 3, 3, 3)))
			c.Set("pick", int64(r.U64()>>2))
		},
		Run: runAbort})

	// ---- C24: nothing is retained after return
	register(&Prop{ID: "C24",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, cases.Pick(r, "int", "int32", "int64", "uint", "uint32", "uint64", "uintptr", "float32", "float64", "float64", "string", "string", "bytes", "bytes",
				"len:str", "len:byte", "len:ptr", "ptr", "ptr", "unsafeptr", "lsw", "lsw", "lsw", "search", "search"), 6000)
			c.Order = ""
			if c.Variant == "plain" && r.Intn(40) == 0 {
				c.N = r.Range(1<<13, 1<<17)
				c.Shape, c.D = cases.Pick(r, "random", "sorted", "reversed"), c.N
			}
			c.N = max(c.N, 1)
			c.NaNs = 0
			c.Set("nan", int64(cases.Pick(r, 0, 1, 4, 1000)))
			c.S = cases.Pick(r, "sort", "sort", "sort", "sort", "check")
			c.Set("calls", int64(r.Range(1, 3)))
		},
		Run: runRetain})

	// ---- C25: concurrency is used when there is work and quota
	register(&Prop{ID: "C25",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genSched(r, c)
			_, rec := limits(c)
			c.Sched.Policy = cases.Pick(r, "robin", "uniform", "robin")
			c.Sched.Sync = false
			c.Sched.Quantum = cases.Pick(r, 1, 2, 5)
			if r.Intn(3) == 0 { // any arrangement: two at least
				c.N = r.Range(4*(rec+1), 14*rec)
				c.Sched.Policy, c.Sched.Quantum = "robin", 1
				c.MaxGor = cases.Pick[uint64](r, 2, 3, 4, 8, 4096, 1<<40, 1<<63, 1<<64-1)
				c.Set("least", 2)
				return
			}
			c.MaxGor = cases.Pick[uint64](r, 2, 2, 3, 3, 4, 5, 6)
			c.N = rec * r.Range(30, 46)
			if c.MaxGor > 4 {
				c.N *= 2
			}
			c.Set("least", int64(c.MaxGor))
			if r.Intn(4) == 0 { // two calls at the same time, each with its own quota
				c.MaxGor = cases.Pick[uint64](r, 2, 2, 3, 4)
				c.Set("least", int64(2*c.MaxGor))
				c.Set("twin", 1)
				c.N = rec * r.Range(48, 64)
			}
			if r.Intn(8) == 0 { // also above the number of processors
				c.MaxGor = uint64(r.Range(7, 20))
				c.Tune = []int{10, 9, 22, 21}
				_, rec = limits(c)
				c.N = rec * int(c.MaxGor) * r.Range(36, 50)
				c.Set("least", int64(c.MaxGor))
				c.Set("twin", 0)
			}
			c.Shape, c.D = "perm", c.N
			if c.Kind == "lsw" {
				c.Order = cases.Pick(r, "asc", "desc")
			}
			switch {
			case c.Kind == "string" || c.Kind == "bytes":
				c.Pool = "random"
			case len(c.Kind) > 4 && c.Kind[:4] == "len:":
				c.Pool = "full"
			case c.Kind == "float32" || c.Kind == "float64":
				c.Pool = "unit"
			case c.Kind != "lsw":
				c.Pool = "full"
			}
			c.NaNs = 0
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			setup(c)
			_, rec := limits(c)
			if least := c.Get("least"); least < 2 || c.MaxGor < 2 || c.N < 4*(rec+1) ||
				(least > 2 || c.Get("twin") != 0) && c.N/rec < 6*int(c.MaxGor) {
				return nil // made by shrinking
			}
			sub := BuildSubject(c)
			calls := ""
			if c.Get("twin") != 0 {
				sub = newTwin(c, sub)
				calls = " twice"
			}
			o := schedOpts(c, sub)
			s, v := runSched(x.T, c, sub.Sort, o)
			x.NonTrivial = true
			x.Label(fmt.Sprint("max working ", s.MaxW, " of ", c.MaxGor, calls))
			x.Label("kind " + c.Kind)
			if v != "" {
				return &Violation{Msg: v, Foreign: true}
			}
			if least := c.Get("least"); int64(s.MaxW) < least {
				if calls != "" {
					calls = " (two calls at the same time)"
				}
				return &Violation{Msg: fmt.Sprintf("a call"+calls+" on %d elements of kind %s, arrangement %s (maximum length for recursion %d), never worked with more than %d goroutines, although MaxGor=%d; expected %d",
					c.N, c.Kind, c.Shape, rec, s.MaxW, c.MaxGor, least)}
			}
			return nil
		}})
}

type abortValue struct{ at int64 }

func runAbort(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	n := c.N
	how := c.Get("how")
	// a run counts calls and gives up in call number stop
	var calls, stop int64
	val := &abortValue{}
	tick := func() {
		calls++
		if calls != stop {
			return
		}
		switch how {
		case 1:
			runtime.Goexit()
		case 2:
			var p *abortValue
			p.at++
		default:
			panic(val)
		}
	}
	var l *LswColl
	want := 0
	op := func() {
		switch c.S {
		case "search":
			want = sorty.Search(n, func(k int) bool { tick(); return k >= int(uint64(c.Seed)%uint64(n+1)) })
		case "check":
			want = l.Check()
		default:
			l.Sort()
		}
	}
	fresh := func() {
		if c.S != "search" {
			l = newLsw(c)
			l.hook = func(i, k, r, s int) { tick() }
		}
		calls = 0
	}
	fresh()
	if m := safely(op); m != "" {
		return &Violation{Msg: m, Foreign: true}
	}
	total := calls
	if total == 0 {
		return nil
	}
	x.NonTrivial = true
	x.Label("op " + c.S)
	x.Label(fmt.Sprint("how ", how))
	switch c.Get("at") {
	case 0:
		stop = 1
	case 1:
		stop = total
	case 2:
		stop = 1 + c.Get("pick")%min(total, 20)
	default:
		stop = 1 + c.Get("pick")%total
	}
	at := stop
	fresh()
	var fp [2]uint64
	if l != nil {
		fp = l.FP()
	}
	var rec any
	normal, recovered := false, false
	body := func() {
		defer func() {
			if e := recover(); e != nil {
				rec, recovered = e, true
			}
		}()
		op()
		normal = true
	}
	if how == 1 {
		done := make(chan int)
		go func() {
			defer close(done)
			body()
		}()
		<-done
	} else {
		body()
	}
	where := fmt.Sprintf("%s on %d elements with MaxGor=%d, callback call %d of %d", c.S, n, c.MaxGor, at, total)
	did := [...]string{"panicked", "called runtime.Goexit", "caused a run-time error"}[how]
	switch {
	case normal:
		return &Violation{Msg: "the callback " + did + ", but the call returned normally: " + where}
	case how == 1 && recovered:
		return &Violation{Msg: fmt.Sprintf("the callback called runtime.Goexit and the call panicked with %v: %s", rec, where)}
	case how == 0 && rec != any(val):
		return &Violation{Msg: fmt.Sprintf("the callback panicked and the caller got another panic value, %v: %s", rec, where)}
	case how == 2:
		if _, ok := rec.(runtime.Error); !ok {
			return &Violation{Msg: fmt.Sprintf("the callback caused a run-time error and the caller got %v: %s", rec, where)}
		}
	}
	if calls != at {
		return &Violation{Msg: fmt.Sprintf("the callback was called %d more times after it %s: %s", calls-at, did, where)}
	}
	if l != nil && l.FP() != fp {
		return &Violation{Msg: "the collection is not a permutation any more: " + where}
	}
	// nothing of the failed call influences later ones
	stop = 0
	if c.S == "sort" && c.Order == "adv" {
		l.adv = nil
	}
	old := want
	if m := safely(op); m != "" {
		return &Violation{Msg: "the next call failed: " + m + " after " + where}
	}
	if c.S == "sort" {
		if m := Verdict(l, fp); m != "" {
			return &Violation{Msg: "the next call on the same collection: " + m + ", after " + where}
		}
	} else if want != old {
		return &Violation{Msg: fmt.Sprintf("the next call returned %d, not %d, after %s", want, old, where)}
	}
	return nil
}

// watch is what must become unreachable, with a description.
type watch struct {
	gone func() bool
	what string
}

func watching[T any](p *T, what string) watch {
	w := weak.Make(p)
	return watch{func() bool { return w.Value() == nil }, what}
}

type captured struct{ pad [8]uint64 }

func retainNums[T any](call func(any), ranks []int, conv func(int) T) []watch {
	s := make([]T, len(ranks)+4)
	for i, v := range ranks {
		s[i] = conv(v)
	}
	w := watching(&s[0], "the slice")
	call(s[:len(ranks)])
	return []watch{w}
}

//go:noinline
func retainOnce(c *cases.Case, call int) (ws []watch) {
	r := cases.NewRng(c.Seed, 91, uint64(call))
	n := c.N
	ranks := func() []int {
		d := c.Clone()
		d.Seed += uint64(call)
		return d.MaterializeRanks()
	}()
	check := c.S == "check"
	if check && r.Intn(3) != 0 { // ordered, or nearly
		slices.Sort(ranks)
		if i := r.Intn(n); i > 0 && r.Intn(3) == 0 {
			ranks[i], ranks[i-1] = ranks[i-1], ranks[i]
		}
	}
	slice := func(a any) {
		if check {
			sorty.IsSortedSlice(a)
		} else {
			sorty.SortSlice(a)
		}
	}
	length := func(a any) {
		if check {
			sorty.IsSortedLen(a)
		} else {
			sorty.SortLen(a)
		}
	}
	pick := func() int { return r.Intn(n) }
	switch c.Kind {
	case "int":
		ws = retainNums(slice, ranks, func(v int) int { return v })
	case "int32":
		ws = retainNums(slice, ranks, func(v int) int32 { return int32(v) })
	case "int64":
		ws = retainNums(slice, ranks, func(v int) int64 { return int64(v) })
	case "uint":
		ws = retainNums(slice, ranks, func(v int) uint { return uint(v) })
	case "uint32":
		ws = retainNums(slice, ranks, func(v int) uint32 { return uint32(v) })
	case "uint64":
		ws = retainNums(slice, ranks, func(v int) uint64 { return uint64(v) })
	case "uintptr":
		ws = retainNums(slice, ranks, func(v int) uintptr { return uintptr(v) })
	case "float32", "float64":
		nan := 0
		if c.NaN != 0 && c.Get("nan") != 0 {
			nan = r.Range(1, int(c.Get("nan")))
		}
		conv := func(v int) float64 {
			if nan > 0 && r.Intn(nan) == 0 {
				return math.NaN()
			}
			return float64(v)
		}
		if c.Kind == "float64" {
			ws = retainNums(slice, ranks, conv)
		} else {
			ws = retainNums(slice, ranks, func(v int) float32 { return float32(conv(v)) })
		}
	case "unsafeptr":
		s := make([]unsafe.Pointer, n)
		for i := range s {
			s[i] = unsafe.Pointer(new(captured))
		}
		for i := range s {
			j := pick()
			s[i], s[j] = s[j], s[i]
		}
		for k := 0; k < 8; k++ {
			ws = append(ws, watching((*captured)(s[pick()]), "an object pointed to"))
		}
		ws = append(ws, watching(&s[0], "the slice"))
		slice(s)
	case "string":
		s := make([]string, n)
		for i, v := range ranks {
			s[i] = fmt.Sprintf("%030d", v)
		}
		for k := 0; k < 8; k++ {
			ws = append(ws, watching(unsafe.StringData(s[pick()]), "the contents of a string"))
		}
		ws = append(ws, watching(&s[0], "the slice"))
		slice(s)
	case "bytes":
		s := make([][]byte, n)
		for i, v := range ranks {
			s[i] = fmt.Appendf(make([]byte, 0, 32), "%030d", v)
		}
		for k := 0; k < 8; k++ {
			ws = append(ws, watching(&s[pick()][0], "the contents of a byte slice"))
		}
		ws = append(ws, watching(&s[0], "the slice"))
		slice(s)
	case "len:str":
		s := make([]string, n)
		for i, v := range ranks {
			s[i] = string(make([]byte, 24+max(v, 0)%97))
		}
		for k := 0; k < 8; k++ {
			ws = append(ws, watching(unsafe.StringData(s[pick()]), "the contents of a string"))
		}
		ws = append(ws, watching(&s[0], "the slice"))
		length(s)
	case "len:byte", "len:ptr":
		s := make([][]*captured, n)
		for i, v := range ranks {
			s[i] = make([]*captured, 4+max(v, 0)%31)
		}
		for k := 0; k < 8; k++ {
			ws = append(ws, watching(&s[pick()][0], "an inner slice"))
		}
		ws = append(ws, watching(&s[0], "the slice"))
		length(s)
	case "ptr":
		s := make([]*captured, n)
		for i := range s {
			s[i] = new(captured)
		}
		for i := range s {
			j := pick()
			s[i], s[j] = s[j], s[i]
		}
		for k := 0; k < 8; k++ {
			ws = append(ws, watching(s[pick()], "an object pointed to"))
		}
		ws = append(ws, watching(&s[0], "the slice"))
		slice(s)
	case "search":
		p := new(captured)
		ws = append(ws, watching(p, "what fn refers to"))
		m := cases.Pick(r, n, n, cases.Pick(r, 0, 1, 1000, 1<<20, math.MaxInt))
		first := cases.Pick(r, m/3, 0, m, m, m-1, r.Intn(m/2+1))
		sorty.Search(m, func(k int) bool { p.pad[k&7]++; return k >= first })
	default:
		p := new(captured)
		s := append(make([]int, 0, n+2), ranks...)
		ws = append(ws, watching(p, "what lesswap refers to"), watching(&s[:1][0], "the collection"))
		lsw := func(i, k, r, q int) bool {
			if p.pad[0]+uint64(s[i]) < p.pad[0]+uint64(s[k]) {
				if r != q {
					s[r], s[q] = s[q], s[r]
				}
				return true
			}
			return false
		}
		if check {
			sorty.IsSorted(n, lsw)
		} else {
			sorty.Sort(n, lsw)
		}
	}
	return
}

func runRetain(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	labels(x, c)
	x.NonTrivial = c.N > 1
	var ws []watch
	done := make(chan string)
	go func() {
		m := safely(func() {
			for k := 0; k < int(c.Get("calls")); k++ {
				ws = append(ws, retainOnce(c, k)...)
			}
		})
		done <- m
	}()
	if m := <-done; m != "" {
		return &Violation{Msg: m, Foreign: true}
	}
	what := ""
	for k := 0; k < 60; k++ {
		runtime.GC()
		what = ""
		for _, w := range ws {
			if !w.gone() {
				what = w.what
			}
		}
		if what == "" {
			return nil
		}
		for j := 0; j < 100; j++ {
			runtime.Gosched()
		}
	}
	return &Violation{Msg: fmt.Sprintf("%s is still reachable after %d finished call(s) (%s) on %d elements of kind %s with MaxGor=%d, although the caller dropped it",
		what, c.Get("calls"), c.S, c.N, c.Kind, c.MaxGor)}
}
