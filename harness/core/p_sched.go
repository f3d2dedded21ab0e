package core

import (
	"fmt"
	"math"
	"math/bits"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

var schedKinds = []string{"int", "int32", "int64", "uint32", "uint64", "float32", "float64", "string", "bytes", "len:string", "len:byte", "ptr"}

// genSched makes a case for an owned schedule.
func genSched(r *cases.Rng, c *cases.Case) {
	native := c.Variant == "instr"
	kind := "lsw"
	if native {
		kind = cases.Pick(r, schedKinds...)
		if r.Intn(8) == 0 {
			kind = "lsw"
		}
	}
	c.Kind = kind
	c.Tune = cases.Pick(r, []int{10, 9, 22, 21}, []int{10, 9, 22, 21}, genTune(r))
	_, rec := limits(c)
	if rec > 60 {
		c.Tune = []int{12, 10, 30, 27}
		_, rec = limits(c)
	}
	lim := 14
	if native {
		lim = 9
	}
	switch r.Intn(4) {
	case 0:
		c.N = 2*(rec+1) + r.Range(-2, 8)
	case 1:
		c.N = 4*(rec+1) + r.Range(-2, 8)
	case 2:
		c.N = r.Range(2*rec, lim*rec)
		if r.Intn(4) == 0 {
			c.N = r.Range(10, 50) * rec
		}
	default:
		c.N = r.Range(2*rec, lim*rec)
	}
	genShape(r, c, cases.AllShapes)
	if r.Intn(2) == 0 {
		c.Shape, c.D = "random", c.N*2
	}
	c.Pool = cases.Pick(r, PoolsOf(kind)...)
	if kind == "lsw" {
		c.Order = cases.Pick(r, "asc", "asc", "asc", "desc", "mod", "bucket", "none", "lex", "bool")
	}
	c.MaxGor = cases.Pick[uint64](r, 2, 2, 3, 3, 3, 4, 4, 5, 6)
	c.Sched = &cases.Sched{
		Policy:  cases.Pick(r, "uniform", "uniform", "pct", "pct", "newest", "oldest", "robin", "starve"),
		Quantum: cases.Pick(r, 0, 1, 3, 10, 40),
		Depth:   r.Range(1, 6),
		Seed:    r.U64() >> 1,
	}
	if native {
		c.Sched.Quantum = cases.Pick(r, 1, 4, 12, 12, 40, 100)
		if c.Sched.Sync = r.Intn(3) == 0; c.Sched.Sync {
			c.Sched.Quantum = cases.Pick(r, 60, 400, 400, 3000, 3000)
		}
	}
	if c.N > lim*rec {
		c.Sched.Quantum = max(c.Sched.Quantum, 20)
		c.MaxGor = min(c.MaxGor, 3)
	}
}

func schedOpts(c *cases.Case, s Subject) schedOpt {
	o := schedOpt{cap: 20*c.N*c.N + 200000}
	if t, ok := s.(*twin); ok {
		s = t.Subject
	}
	if l, ok := s.(*LswColl); ok && c.Variant != "instr" {
		o.lsw = l
	} else {
		o.natives = true
		o.cap *= 20
	}
	return o
}

// maySwap tells whether a call can swap: no element is less than itself.
func maySwap(c [4]int) bool {
	return c[2] != c[3] && c[0] != c[1]
}

func touches(c [4]int, p int) bool {
	return c[0] == p || c[1] == p || maySwap(c) && (c[2] == p || c[3] == p)
}

// conflict tells whether call a may write something call b touches.
func conflict(a, b [4]int) bool {
	return maySwap(a) && (touches(b, a[2]) || touches(b, a[3]))
}

// usage tracks the positions in use by calls in progress (free-running C06).
type usage struct {
	pos  []atomic.Int32
	seen atomic.Pointer[string]
}

const writer = 1 << 16

func (u *usage) enter(i, k, r, s int) (n int, ps [4]int, ws [4]bool) {
	add := func(p int, w bool) {
		for j := 0; j < n; j++ {
			if ps[j] == p {
				ws[j] = ws[j] || w
				return
			}
		}
		ps[n], ws[n] = p, w
		n++
	}
	if maySwap([4]int{i, k, r, s}) {
		add(r, true)
		add(s, true)
	}
	add(i, false)
	add(k, false)
	for j := 0; j < n; j++ {
		d := int32(1)
		if ws[j] {
			d = writer
		}
		v := u.pos[ps[j]].Add(d)
		if ws[j] && v != writer || !ws[j] && v >= writer {
			m := fmt.Sprintf("lesswap(%d,%d,%d,%d) runs while another goroutine's call in progress uses position %d in a conflicting way", i, k, r, s, ps[j])
			u.seen.CompareAndSwap(nil, &m)
		}
	}
	return
}

func (u *usage) leave(n int, ps [4]int, ws [4]bool) {
	for j := 0; j < n; j++ {
		d := int32(1)
		if ws[j] {
			d = writer
		}
		u.pos[ps[j]].Add(-d)
	}
}

func init() {
	register(&Prop{ID: "C06",
		Gen: func(r *cases.Rng, c *cases.Case) {
			if c.Variant == "tune" {
				genSched(r, c)
				return
			}
			genBase(r, c, "lsw", 6000)
			if c.Order == "adv" {
				c.Order = "asc"
			}
			c.Set("spin", int64(cases.Pick(r, 0, 1, 4, 16)))
			if rareLong(r, c, 1000, 1<<18) {
				return
			}
			switch r.Intn(16) {
			case 0, 1:
				c.N = r.Intn(4)
			case 2: // the first calls on a collection of enormous length
				c.N = 0
				c.Set("huge", int64(cases.Pick(r, math.MaxInt, math.MaxInt, math.MaxInt-r.Intn(100), math.MaxInt/2+r.Range(-9, 9), math.MaxInt/4*3+r.Intn(99), r.Range(1<<24, math.MaxInt), 1<<(r.Range(25, bits.UintSize-2)))))
				c.Set("sorted", int64(r.Intn(2)))
				c.S = cases.Pick(r, "sort", "sort", "check")
			}
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			setup(c)
			if c.Get("huge") != 0 {
				return runHuge(x, c)
			}
			l := newLsw(c)
			if c.Sched == nil {
				return runFreeC06(x, c, l)
			}
			o := schedOpts(c, l)
			pend := 0
			o.onQuiet = func(s *scheduler) {
				pend = max(pend, len(s.parked))
				for i, p := range s.parked {
					for j, q := range s.parked {
						if i != j && conflict(p.call, q.call) {
							s.fail("lesswap%v (goroutine %d) may swap positions used by lesswap%v (goroutine %d) in progress at the same time, n=%d",
								p.call, p.id, q.call, q.id, c.N)
						}
					}
				}
			}
			s, _ := runSched(x.T, c, l.Sort, o)
			x.NonTrivial = pend >= 2
			x.Label(fmt.Sprint("max pending ", pend))
			x.Label("policy " + c.Sched.Policy)
			if p := l.badIdx.Load(); p != nil {
				return &Violation{Msg: *p}
			}
			if s.violated != "" && pend >= 2 && contains(s.violated, "may swap positions") {
				return &Violation{Msg: s.violated}
			}
			return nil
		}})

	register(&Prop{ID: "C11",
		Gen: func(r *cases.Rng, c *cases.Case) {
			if c.Variant == "plain" {
				genFree(r, c, "lsw")
				c.MaxGor = cases.Pick[uint64](r, 2, 2, 3, 4, 5, 6, 7, 16)
				return
			}
			genSched(r, c)
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			if c.Sched == nil {
				return runFreeC11(x, c)
			}
			setup(c)
			sub := BuildSubject(c)
			o := schedOpts(c, sub)
			o.onQuiet = func(s *scheduler) {
				if w := s.W(); uint64(w) > c.MaxGor {
					s.fail("%d goroutines are working on one call at the same time, MaxGor=%d, n=%d, step %d", w, c.MaxGor, c.N, s.Steps)
				}
			}
			s, v := runSched(x.T, c, sub.Sort, o)
			x.NonTrivial = s.MaxW >= 2
			x.Label(fmt.Sprint("max working ", s.MaxW, " of ", c.MaxGor))
			x.Label("policy " + c.Sched.Policy)
			x.Label("kind " + c.Kind)
			if contains(v, "are working on one call") {
				return &Violation{Msg: v}
			}
			return nil
		}})

	register(&Prop{ID: "C13",
		Gen: func(r *cases.Rng, c *cases.Case) {
			if c.Variant == "plain" {
				genFree(r, c, schedKinds...)
				return
			}
			genSched(r, c)
			if r.Intn(6) == 0 {
				c.MaxGor = cases.Pick[uint64](r, 0, 1, 8, 4096)
			}
			if r.Intn(6) == 0 {
				c.Set("twin", 1)
			}
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			if c.Sched == nil {
				return runFreeC13(x, c)
			}
			return runScheduled(x, c, nil)
		}})

	register(&Prop{ID: "C15",
		Gen: func(r *cases.Rng, c *cases.Case) {
			if c.Variant == "plain" {
				genBase(r, c, cases.Pick(r, append([]string{"lsw"}, schedKinds...)...), 8000)
				c.N = r.Range(1300, 9000)
				if c.Order == "adv" {
					c.Order = "asc"
				}
				rareLong(r, c, 60, 1<<19)
				c.Set("hammer", 1)
				c.Procs = cases.Pick(r, 2, 4, 8)
				return
			}
			genSched(r, c)
			vals := []uint64{0, 1, 1, 2, 3, 4, 8, 64, 1 << 50}
			if r.Intn(4) == 0 { // raise early, plenty of work
				c.Set("raise", 1)
				c.MaxGor = 2
				c.Shape, c.Order = "perm", cases.Pick(r, "asc", "desc")
				if c.Kind != "lsw" {
					c.Pool, c.NaNs = "full", 0
					c.Kind = cases.Pick(r, "int", "int32", "uint64", "int64")
				}
				_, rec := limits(c) // of this kind
				c.N = rec * r.Range(14, 20)
				c.D = c.N
				c.Sched.Policy = cases.Pick(r, "robin", "uniform")
				c.Sched.Quantum = 1
				c.Sched.Events = []cases.Event{{Step: r.Range(1, 12), Val: cases.Pick[uint64](r, 4, 8, 100)}}
				if r.Intn(2) == 0 { // raise in the middle, after all goroutines were refused more
					c.N = rec * r.Range(30, 40)
					c.D = c.N
					c.Sched.Policy = "robin"
					c.Set("raise", int64(r.Range(10, 40))) // percent of the steps without raising
				}
				return
			}
			c.MaxGor = cases.Pick[uint64](r, 2, 3, 4, 6, 8)
			horizon := c.N * 6
			if c.Kind != "lsw" {
				horizon = c.N * 40 / (c.Sched.Quantum + 1)
			} else if c.Sched.Quantum > 0 {
				horizon /= c.Sched.Quantum + 1
			}
			if c.Sched.Sync {
				horizon = 60
			}
			step := 0
			for k := r.Range(1, 6); k > 0; k-- {
				step += r.Range(0, horizon/3)
				c.Sched.Events = append(c.Sched.Events, cases.Event{Step: step, Val: cases.Pick(r, vals...)})
			}
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			if c.Get("hammer") != 0 {
				return runHammer(x, c)
			}
			if p := c.Get("raise"); p != 0 {
				_, rec := limits(c)
				if len(c.Sched.Events) != 1 || c.Sched.Events[0].Val < 4 || c.MaxGor != 2 || c.N < 14*rec || c.Shape != "perm" || c.D != c.N {
					return nil // made by shrinking
				}
			}
			if p := c.Get("raise"); p > 1 {
				d := c.Clone()
				d.Sched.Events = nil
				setup(d)
				sub := BuildSubject(d)
				s, v := runSched(x.T, d, sub.Sort, schedOpts(d, sub))
				if v != "" {
					return &Violation{Msg: v}
				}
				c.Sched.Events[0].Step = int(p) * s.Steps / 100
			}
			limit := c.MaxGor
			allow := -1 // bound after a lowering, -1: none
			changedBusy := false
			maxW := 0
			quiet := func(s *scheduler) {
				w := s.W()
				maxW = max(maxW, w)
				if s.Changed {
					limit = max(limit, sorty.MaxGor)
					// everything that may already exist or be reserved: parked goroutines, reservations made by goroutines that
					// are between their reservation and its use, and a caller waiting for its partitioning goroutine
					inflight := 0
					for _, p := range s.parked {
						if !p.work {
							inflight++
						}
					}
					allow = max(len(s.parked)+inflight+1, int(min(sorty.MaxGor, 1<<20)))
					if len(s.parked) >= 2 {
						changedBusy = true
					}
				}
				if uint64(w) > limit {
					s.fail("%d goroutines are working on one call, the largest limit in force since it began is %d, n=%d, step %d", w, limit, c.N, s.Steps)
				}
				if allow >= 0 && w > allow {
					s.fail("%d goroutines are working on one call, although at most %d existed when MaxGor was set to %d, n=%d, step %d", w, allow, sorty.MaxGor, c.N, s.Steps)
				}
			}
			v := runScheduled(x, c, quiet)
			x.NonTrivial = changedBusy
			if c.Get("raise") != 0 {
				x.Label(fmt.Sprint("raised at ", c.Get("raise")/10*10, "%, max working ", min(maxW, 4)))
				x.NonTrivial = maxW > 2
				if _, rec := limits(c); v == nil && maxW <= 2 {
					return &Violation{Msg: fmt.Sprintf("MaxGor was raised from 2 to %d at step %d of an ongoing concurrent call on %d elements (maximum length for recursion %d), but it never used more than %d goroutines",
						c.Sched.Events[0].Val, c.Sched.Events[0].Step, c.N, rec, maxW)}
				}
			}
			return v
		}})
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// twin is a pair of collections, sorted by two calls at the same time.
type twin struct {
	Subject
	b Subject
}

func newTwin(c *cases.Case, a Subject) *twin {
	d := c.Clone()
	d.Seed++
	b := BuildSubject(d)
	if l, ok := b.(*LswColl); ok {
		la := a.(*LswColl)
		l.hook = func(i, k, r, s int) {
			if h := la.hook; h != nil {
				h(i, k, r, s)
			}
		}
	}
	return &twin{a, b}
}

func (t *twin) Sort() {
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		t.b.Sort()
	}()
	t.Subject.Sort()
	if e := <-done; e != nil {
		panic(e)
	}
}

func (t *twin) Ordered() (bool, int) {
	if ok, i := t.Subject.Ordered(); !ok {
		return ok, i
	}
	ok, i := t.b.Ordered()
	return ok, i
}

func (t *twin) FP() [2]uint64 {
	a, b := t.Subject.FP(), t.b.FP()
	return [2]uint64{cases.Mix(a[0]) + b[0], cases.Mix2(a[1]) + b[1]}
}

func (t *twin) SeqFP() uint64 { return cases.Mix(t.Subject.SeqFP()) + t.b.SeqFP() }

// runScheduled runs a case under its schedule with the complete C13 oracle.
func runScheduled(x *Ctx, c *cases.Case, quiet func(*scheduler)) *Violation {
	setup(c)
	sub := BuildSubject(c)
	if c.Get("twin") != 0 {
		sub = newTwin(c, sub)
	}
	fp := sub.FP()
	o := schedOpts(c, sub)
	runnable := 0
	o.onQuiet = func(s *scheduler) {
		runnable = max(runnable, len(s.parked))
		if quiet != nil {
			quiet(s)
		}
	}
	var seq uint64
	o.atReturn = func() string {
		seq = sub.SeqFP()
		return Verdict(sub, fp)
	}
	o.atEnd = func() string {
		if sub.SeqFP() != seq {
			return "the collection was still modified after the call returned"
		}
		return ""
	}
	s, v := runSched(x.T, c, sub.Sort, o)
	x.NonTrivial = runnable >= 2
	x.Label(fmt.Sprint("max runnable ", runnable))
	x.Label("policy " + c.Sched.Policy)
	x.Label("kind " + c.Kind)
	_ = s
	if v != "" {
		return &Violation{Msg: v}
	}
	return nil
}

func runFreeC06(x *Ctx, c *cases.Case, l *LswColl) *Violation {
	u := &usage{pos: make([]atomic.Int32, len(l.recs))}
	spin := int(c.Get("spin"))
	n := len(l.recs)
	before := l.SeqFP()
	lsw := func(i, k, r, s int) bool {
		if uint(i) >= uint(n) || uint(k) >= uint(n) || uint(r) >= uint(n) || uint(s) >= uint(n) {
			l.bad("lesswap(%d,%d,%d,%d) called with an index outside [0,%d)", i, k, r, s, n)
			return false
		}
		m, ps, ws := u.enter(i, k, r, s)
		for j := 0; j < spin; j++ {
			if j&7 == 7 {
				runtime.Gosched()
			}
		}
		b := l.Lesswap(i, k, r, s)
		u.leave(m, ps, ws)
		return b
	}
	if m := safely(func() { sorty.Sort(n, lsw) }); m != "" {
		return &Violation{Msg: m, Foreign: true}
	}
	x.NonTrivial = l.SeqFP() != before
	labels(x, c)
	if p := l.badIdx.Load(); p != nil {
		return &Violation{Msg: *p}
	}
	if p := u.seen.Load(); p != nil {
		return &Violation{Msg: *p}
	}
	calls := l.calls.Load()
	if n <= 1 && calls > 0 {
		return &Violation{Msg: fmt.Sprintf("Sort(%d) called lesswap %d times", n, calls)}
	}
	// IsSorted
	msg := ""
	sorty.IsSorted(n, func(i, k, r, s int) bool {
		if uint(i) >= uint(n) || uint(k) >= uint(n) || uint(r) >= uint(n) || uint(s) >= uint(n) {
			msg = fmt.Sprintf("IsSorted called lesswap(%d,%d,%d,%d), n=%d", i, k, r, s, n)
			return false
		}
		if r != s {
			msg = fmt.Sprintf("IsSorted asked for a swap: lesswap(%d,%d,%d,%d)", i, k, r, s)
		}
		if n <= 1 {
			msg = fmt.Sprintf("IsSorted(%d) called lesswap", n)
		}
		return l.less(l.recs[i].key, l.recs[k].key)
	})
	if msg != "" {
		return &Violation{Msg: msg}
	}
	return nil
}

// runHuge looks at the indices of the first calls on a virtual collection of enormous length.
func runHuge(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	n := int(c.Get("huge"))
	x.NonTrivial = true
	x.Label("huge " + c.S)
	var mu sync.Mutex
	calls, msg := 0, ""
	swapped := map[int]int{} // position -> element
	at := func(p int) int {
		if e, ok := swapped[p]; ok {
			return e
		}
		return p
	}
	val := func(e int) uint64 {
		if c.Get("sorted") != 0 {
			return uint64(e)
		}
		return cases.Mix(c.Seed+uint64(e)) % uint64(max(c.D, 1))
	}
	over := make(chan int, 1)
	lsw := func(i, k, r, s int) bool {
		mu.Lock()
		defer mu.Unlock()
		calls++
		if uint(i) >= uint(n) || uint(k) >= uint(n) || uint(r) >= uint(n) || uint(s) >= uint(n) {
			msg = fmt.Sprintf("lesswap(%d,%d,%d,%d) called with an index outside [0,%d)", i, k, r, s, n)
		}
		if c.S == "check" && r != s {
			msg = fmt.Sprintf("IsSorted asked for a swap: lesswap(%d,%d,%d,%d)", i, k, r, s)
		}
		if msg != "" || calls > 2000 { // enough seen: end all goroutines of the call
			select {
			case over <- 0:
			default:
			}
			runtime.Goexit()
		}
		if val(at(i)) < val(at(k)) {
			if r != s {
				swapped[r], swapped[s] = at(s), at(r)
			}
			return true
		}
		return false
	}
	ended := make(chan int)
	go func() {
		defer close(ended)
		if m := safely(func() {
			if c.S == "check" {
				sorty.IsSorted(n, lsw)
			} else {
				sorty.Sort(n, lsw)
			}
		}); m != "" {
			mu.Lock()
			msg = "length " + fmt.Sprint(n) + ": " + m
			mu.Unlock()
		}
	}()
	select {
	case <-over:
	case <-ended:
	}
	mu.Lock()
	defer mu.Unlock()
	if msg != "" {
		return &Violation{Msg: msg}
	}
	return nil
}

// runHammer sorts repeatedly while another goroutine keeps changing MaxGor.
func runHammer(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	var stop atomic.Bool
	done := make(chan struct{})
	vals := []uint64{0, 1, 2, 3, 8, 1 << 50, 2, 16}
	r := cases.NewRng(c.Seed, 41)
	go func() {
		defer close(done)
		for i := 0; !stop.Load(); i++ {
			sorty.MaxGor = vals[r.Intn(len(vals))]
			for k := r.Intn(200); k > 0 && !stop.Load(); k-- {
				runtime.Gosched()
			}
		}
	}()
	end := func() { stop.Store(true); <-done }
	labels(x, c)
	for k := 0; k < 4; k++ {
		d := c.Clone()
		d.Seed += uint64(k)
		s := BuildSubject(d)
		if ok, _ := s.Ordered(); !ok && s.Len() > 1 {
			x.NonTrivial = true
		}
		fp := s.FP()
		m := safely(s.Sort)
		if m == "" {
			m = Verdict(s, fp)
		}
		if m != "" {
			end()
			return &Violation{Msg: "while MaxGor was being changed: " + m}
		}
	}
	end()
	// goroutines of the calls must be gone, or about to be
	if st := settle(); st != "" {
		return &Violation{Msg: "goroutines of the call are left behind:\n" + st}
	}
	return nil
}

// settle waits until no goroutine is inside the package, without a clock: it returns the stacks of goroutines that are
// blocked in the same place while everything else had many chances to run.
func settle() string {
	st := ""
	for k := 0; k < 2000; k++ {
		if k&63 == 0 {
			if st = sortyStacks(); st == "" {
				return ""
			}
		}
		runtime.Gosched()
		runtime.GC()
	}
	if contains(st, "[chan ") || contains(st, "[select") || contains(st, "[sync") || contains(st, "[semacquire") {
		return st
	}
	return ""
}

// genFree makes a long case for a free-running call with the normal parameters.
func genFree(r *cases.Rng, c *cases.Case, kinds ...string) {
	genBase(r, c, cases.Pick(r, kinds...), 1<<16)
	if c.Order == "adv" {
		c.Order = "asc"
	}
	if c.Pool == "deep" {
		c.Pool = "random"
	}
	_, rec := limits(c)
	switch r.Intn(4) {
	case 0:
		c.N = r.Range(2*(rec+1), 1<<16)
	case 1:
		c.N = r.Range(2*(rec+1), 1<<14)
	case 2:
		c.N = r.Range(2*(rec+1), 12*rec)
	}
	if !rareLong(r, c, 60, 1<<20) && c.Kind == "lsw" && c.N > 4000 { // few distinct values take quadratic time
		c.Shape, c.Order, c.D = cases.Pick(r, "random", "perm", "sorted", "reversed"), cases.Pick(r, "asc", "desc"), 4*c.N
	}
	c.Set("spin", int64(cases.Pick(r, 0, 0, 1, 4, 50)))
	c.NaNs = min(c.NaNs, c.N)
}

// runFreeC11 counts callbacks in progress: each belongs to another goroutine.
func runFreeC11(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	s := BuildSubject(c)
	l := s.(*LswColl)
	var in, most, calls atomic.Int64
	spin := c.Get("spin")
	inner := l.Lesswap
	labels(x, c)
	m := safely(func() {
		sorty.Sort(len(l.recs), func(i, k, r, s int) bool {
			v := in.Add(1)
			for o := most.Load(); v > o && !most.CompareAndSwap(o, v); o = most.Load() {
			}
			if spin > 0 && calls.Add(1)%(8*spin) == 0 {
				runtime.Gosched()
			}
			b := inner(i, k, r, s)
			in.Add(-1)
			return b
		})
	})
	if m != "" {
		return &Violation{Msg: m, Foreign: true}
	}
	x.NonTrivial = most.Load() >= 2
	x.Label(fmt.Sprint("free running, max working ", most.Load(), " of ", c.MaxGor))
	if v := most.Load(); v > int64(c.MaxGor) {
		return &Violation{Msg: fmt.Sprintf("%d callbacks of one call were in progress at the same time, MaxGor=%d, n=%d", v, c.MaxGor, c.N)}
	}
	return nil
}

// runFreeC13 runs a call freely: it returns, the collection is sorted then and stays as it is, no goroutine is left.
func runFreeC13(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	s := BuildSubject(c)
	fp := s.FP()
	labels(x, c)
	_, rec := limits(c)
	x.NonTrivial = c.N >= 2*(rec+1) && c.MaxGor > 1
	m := safely(s.Sort)
	seq := s.SeqFP()
	if m == "" {
		m = Verdict(s, fp)
	}
	if m != "" {
		return &Violation{Msg: m}
	}
	if runtime.NumGoroutine() > baseGoroutines {
		if st := settle(); st != "" {
			return &Violation{Msg: "goroutines of the call are left behind:\n" + st}
		}
	}
	if s.SeqFP() != seq {
		return &Violation{Msg: "the collection was still modified after the call returned"}
	}
	return nil
}

var baseGoroutines = 2
