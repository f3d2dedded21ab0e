package main

import (
	"slices"
	"sync"
	"time"

	"verif/harness/cases"
)

const shrinkTime = 40 * time.Second

// shrink looks for a smaller case that still fails. Every candidate is judged by a fresh worker process.
func shrink(c *cases.Case, msg string, env []string, hang bool) (*cases.Case, string) {
	end := time.Now().Add(shrinkTime)
	best := c.Clone()
	try := func(cands []*cases.Case) bool { // in parallel; the first (in order) that fails wins
		for len(cands) > 0 && time.Now().Before(end) {
			k := min(len(cands), 8)
			vs := make([]verdict, k)
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if hang {
						vs[i] = confirmHang(cands[i], env)
					} else {
						vs[i] = replay(cands[i], env, 10*time.Second)
					}
				}()
			}
			wg.Wait()
			for i := range vs {
				if vs[i].bad {
					best, msg = cands[i], vs[i].msg
					return true
				}
			}
			cands = cands[k:]
		}
		return false
	}
	with := func(f func(d *cases.Case)) *cases.Case {
		d := best.Clone()
		f(d)
		return d
	}
	// simpler parameters
	simplify := func() {
		var cs []*cases.Case
		add := func(f func(d *cases.Case)) {
			d := with(f)
			if d.JSON() != best.JSON() {
				cs = append(cs, d)
			}
		}
		for round := 0; round < 4; round++ {
			cs = nil
			add(func(d *cases.Case) { d.MaxGor = 1 })
			add(func(d *cases.Case) { d.MaxGor = min(d.MaxGor, 2) })
			add(func(d *cases.Case) { d.MaxGor = min(d.MaxGor, 3) })
			add(func(d *cases.Case) { d.Procs = 1 })
			add(func(d *cases.Case) { d.Named = false })
			add(func(d *cases.Case) { d.NaNs = 0 })
			add(func(d *cases.Case) { d.Tune = nil })
			add(func(d *cases.Case) {
				if d.Sched != nil {
					d.Sched.Events = nil
				}
			})
			add(func(d *cases.Case) {
				if d.Sched != nil {
					d.Sched.Policy = "newest"
				}
			})
			for k := range best.X {
				if best.X[k] != 0 {
					add(func(d *cases.Case) { d.X[k] = 0 })
				}
				if best.X[k] > 1 {
					add(func(d *cases.Case) { d.X[k] = 1 })
				}
			}
			for _, p := range []string{"small", "ints", "ab"} {
				if best.Pool != "" && best.Pool != "-" {
					add(func(d *cases.Case) { d.Pool = p })
				}
			}
			if !try(cs) {
				return
			}
		}
	}
	simplify()
	switch best.Prop {
	case "C09", "C17": // no ranks: shrink the numbers
		for time.Now().Before(end) {
			var cs []*cases.Case
			for _, n := range []int{0, 1, 2, best.N / 4, best.N / 2, best.N - 1} {
				if n >= 0 && n < best.N {
					cs = append(cs, with(func(d *cases.Case) { d.N = n; d.A = min(d.A, n) }))
				}
			}
			for _, a := range []int{0, best.A / 2, best.A - 1} {
				if a >= 0 && a < best.A {
					cs = append(cs, with(func(d *cases.Case) { d.A = a }))
				}
			}
			if !try(cs) {
				break
			}
		}
		return best, msg
	}
	if best.Order == "adv" || best.Prop == "C19" || best.Prop == "C18" || best.Get("raise") != 0 { // lengths matter, contents come from the generator
		for time.Now().Before(end) {
			var cs []*cases.Case
			for _, n := range []int{best.N / 2, best.N * 3 / 4, best.N * 9 / 10} {
				if n < best.N && best.Get("raise") == 0 {
					cs = append(cs, with(func(d *cases.Case) { d.N = n }))
				}
			}
			if !try(cs) {
				break
			}
		}
		return best, msg
	}
	// explicit ranks, then delta debugging
	ex := with(func(d *cases.Case) {
		d.Ranks = d.MaterializeRanks()
		d.Explicit = true
		d.N = len(d.Ranks)
	})
	if !try([]*cases.Case{ex}) {
		return best, msg
	}
	setRanks := func(d *cases.Case, r []int) {
		d.Ranks = r
		d.N = len(r)
	}
	for time.Now().Before(end) {
		start := best.JSON()
		for chunk := max(len(best.Ranks)/2, 1); chunk >= 1 && time.Now().Before(end); {
			var cs []*cases.Case
			n := len(best.Ranks)
			for i := 0; i < n && len(cs) < 64; i += chunk {
				r := slices.Concat(best.Ranks[:i], best.Ranks[min(i+chunk, n):])
				cs = append(cs, with(func(d *cases.Case) { setRanks(d, r) }))
			}
			if try(cs) {
				chunk = min(chunk, max(len(best.Ranks)/2, 1))
				continue
			}
			if chunk == 1 || n > 400 && chunk <= n/64 {
				break
			}
			chunk /= 2
		}
		// dense and simple ranks
		dense := func(r []int) []int {
			s := slices.Compact(slices.Sorted(slices.Values(r)))
			out := make([]int, len(r))
			neg := 0
			if len(s) > 0 && s[0] < 0 {
				neg = 1
			}
			for i, x := range r {
				p, _ := slices.BinarySearch(s, x)
				out[i] = p - neg
			}
			return out
		}
		if d := dense(best.Ranks); !slices.Equal(d, best.Ranks) {
			try([]*cases.Case{with(func(c *cases.Case) { c.Ranks = d })})
		}
		for chunk := max(len(best.Ranks)/2, 1); chunk >= 1 && time.Now().Before(end); chunk /= 2 {
			var cs []*cases.Case
			n := len(best.Ranks)
			for i := 0; i < n && len(cs) < 48; i += chunk {
				r := slices.Clone(best.Ranks)
				ch := false
				for j := i; j < min(i+chunk, n); j++ {
					if r[j] > 0 {
						r[j], ch = 0, true
					}
				}
				if ch {
					cs = append(cs, with(func(d *cases.Case) { d.Ranks = r }))
				}
			}
			try(cs)
		}
		simplify()
		if best.JSON() == start {
			break
		}
	}
	return best, msg
}
