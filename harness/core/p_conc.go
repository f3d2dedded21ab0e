package core

import (
	"fmt"
	"slices"
	"sync"
	"sync/atomic"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

func init() {
	kinds := []string{"int", "int32", "int64", "uint32", "uint64", "float32", "float64", "string", "bytes", "len:string", "len:byte", "len:int64", "ptr", "lsw", "lsw", "lsw"}
	register(&Prop{ID: "C14",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, cases.Pick(r, kinds...), 9000)
			if c.Order == "adv" {
				c.Order = "asc"
			}
			c.S = cases.Pick(r, kinds...) // second kind
			c.Set("parts", int64(cases.Pick(r, 1, 1, 2, 3, 4)))
			c.Set("extra", int64(r.Intn(2)))
			c.Set("shared", int64(r.Intn(3)))
			c.Set("search", int64(r.Intn(2)))
			c.Set("nested", int64(cases.Pick(r, 0, 0, 1, 2)))
			c.MaxGor = cases.Pick[uint64](r, 1, 2, 3, 3, 4, 8, 16)
			c.Procs = cases.Pick(r, 2, 4, 8)
			_, rec := limits(c)
			if r.Intn(4) != 0 {
				c.N = r.Range(2*(rec+1), 12*rec) // several parts, each long enough for concurrency half of the time
				c.N = min(c.N, 9000)
			}
			rareLong(r, c, 250, 1<<17)
			// NaNs and NaNoption stay as generated: the option is global and constant during the calls
		},
		Run: runConc})

	// ---- C20: other properties in a 32-bit build
	subs := []string{"C16", "C01", "C01", "C01", "C02", "C03", "C04", "C05", "C07", "C08", "C10", "C09", "C06", "C17"}
	register(&Prop{ID: "C20",
		Gen: func(r *cases.Rng, c *cases.Case) {
			for {
				c.Sub = cases.Pick(r, subs...)
				if c.Sub != "C07" || r.Intn(6) == 0 {
					break
				}
			}
			Find(c.Sub).Gen(r, c)
			if c.Sub != "C17" {
				c.N = min(c.N, 6000)
			}
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			x.Label("from " + c.Sub)
			return Find(c.Sub).Run(x, c)
		}})
}

func runConc(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	labels(x, c)
	type job struct {
		s      Subject
		fp     [2]uint64
		what   string
		msg    string
		lo, hi int
	}
	var nestedMsg atomic.Pointer[string]
	bare := func(s Subject) Subject {
		if l, ok := s.(*LswColl); ok {
			l.bare = true
			if c.Get("nested") != 0 {
				l.nested = func(i int) {
					if m := nestedCalls(c, i); m != "" {
						nestedMsg.CompareAndSwap(nil, &m)
					}
				}
				x.Label("nested calls")
			}
		}
		return s
	}
	main := bare(BuildSubject(c))
	var jobs []*job
	parts := int(c.Get("parts"))
	n := main.Len()
	r := cases.NewRng(c.Seed, 81)
	lo := 0
	for p := 0; p < parts; p++ {
		hi := n
		if p < parts-1 {
			hi = lo + r.Intn(2*(n-lo)/(parts-p)+1)
			hi = min(hi, n)
		}
		s := main.Sub(lo, hi)
		jobs = append(jobs, &job{s: s, fp: s.FP(), what: fmt.Sprintf("%s[%d:%d] of %d", c.Kind, lo, hi, n)})
		lo = hi
	}
	if c.Get("extra") != 0 {
		d := c.Clone()
		d.Kind, d.Seed, d.NaNs = c.S, c.Seed+1, 0
		if d.Kind == "lsw" && (d.Order == "" || d.Order == "adv") {
			d.Order = "desc"
		}
		if ps := PoolsOf(d.Kind); len(ps) > 0 {
			d.Pool = ps[int(d.Seed%uint64(len(ps)))]
		}
		s := bare(BuildSubject(d))
		jobs = append(jobs, &job{s: s, fp: s.FP(), what: d.Kind})
	}
	var shared Subject
	sharedOrd := false
	if c.Get("shared") != 0 {
		d := c.Clone()
		d.Seed += 2
		d.N = min(d.N, 2000)
		shared = bare(BuildSubject(d))
		if c.Get("shared") == 1 {
			refSort(shared)
		}
		sharedOrd, _ = shared.Ordered()
	}
	x.NonTrivial = len(jobs) > 1
	_, rec := limits(c)
	if n >= 2*(rec+1) && c.MaxGor > 1 {
		x.NonTrivial = true
	}
	var wg sync.WaitGroup
	var chk [2]int
	var searched int
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			j.msg = safely(j.s.Sort)
		}()
	}
	if shared != nil {
		for k := range chk {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if m := safely(func() { chk[k] = shared.Check() }); m != "" {
					chk[k] = -1
				}
			}()
		}
	}
	if c.Get("search") != 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			searched = sorty.Search(n, func(k int) bool { return k >= n/3 })
		}()
	}
	wg.Wait()
	if m := nestedMsg.Load(); m != nil {
		return &Violation{Msg: *m}
	}
	for _, j := range jobs {
		m := j.msg
		if m == "" {
			m = Verdict(j.s, j.fp)
		}
		if m != "" {
			return &Violation{Msg: fmt.Sprintf("concurrent call on %s: %s", j.what, m)}
		}
	}
	if shared != nil {
		for _, v := range chk {
			if v < 0 || (v == 0) != sharedOrd {
				return &Violation{Msg: fmt.Sprintf("concurrent check on shared data returned %d, ordered: %v", v, sharedOrd)}
			}
		}
	}
	if c.Get("search") != 0 && searched != n/3 {
		return &Violation{Msg: fmt.Sprintf("concurrent Search returned %d, want %d", searched, n/3)}
	}
	return nil
}

// nestedCalls is what a user's lesswap may do as well: call the package on other, local data.
func nestedCalls(c *cases.Case, i int) string {
	r := cases.NewRng(c.Seed, 83, uint64(i))
	n := r.Intn(40)
	if c.Get("nested") == 2 && r.Intn(20) == 0 {
		n = r.Range(200, 1500)
	}
	a := make([]int, n)
	for k := range a {
		a[k] = r.Intn(4*n) - n
	}
	b := slices.Clone(a)
	slices.Sort(b)
	d := slices.Clone(a)
	if m := safely(func() {
		sorty.SortSlice(a)
		sorty.Sort(n, func(i, k, r, s int) bool {
			if d[i] < d[k] {
				if r != s {
					d[r], d[s] = d[s], d[r]
				}
				return true
			}
			return false
		})
	}); m != "" {
		return "a call made by a lesswap callback: " + m
	}
	if !slices.Equal(a, b) || !slices.Equal(b, d) {
		return fmt.Sprintf("a call made by a lesswap callback gave a wrong result on %d elements", n)
	}
	if v := sorty.IsSortedSlice(a); v != 0 {
		return fmt.Sprintf("a check made by a lesswap callback returned %d on ordered elements", v)
	}
	want, _ := slices.BinarySearch(a, 0)
	if v := sorty.Search(n, func(k int) bool { return a[k] >= 0 }); v != want {
		return fmt.Sprintf("a Search made by a lesswap callback returned %d, want %d", v, want)
	}
	return ""
}
