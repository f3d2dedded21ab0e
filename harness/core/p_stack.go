package core

import (
	"fmt"
	"runtime"
	"slices"
	"sync/atomic"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

// Collections in local variables. Whether they really live on the stack is up to the compiler: it depends on what it
// can see of the package. These functions are kept simple, and call the package directly, so that it can see all.

//go:noinline
func deepStack(n int) int {
	var b [512]byte
	b[n&511] = 1
	if n <= 0 {
		return int(b[0])
	}
	return deepStack(n-1) + int(b[n&511])
}

//go:noinline
func local400[T any](src []T, byLen bool) {
	var a [400]T
	s := a[:copy(a[:], src)]
	if byLen {
		sorty.SortLen(s)
	} else {
		sorty.SortSlice(s)
	}
	copy(src, a[:])
}

//go:noinline
func local1500[T any](src []T, byLen bool) {
	var a [1500]T
	s := a[:copy(a[:], src)]
	if byLen {
		sorty.SortLen(s)
	} else {
		sorty.SortSlice(s)
	}
	copy(src, a[:])
}

//go:noinline
func local4000[T any](src []T, byLen bool) {
	var a [4000]T
	s := a[:copy(a[:], src)]
	if byLen {
		sorty.SortLen(s)
	} else {
		sorty.SortSlice(s)
	}
	copy(src, a[:])
}

//go:noinline
func localLsw(src []int) {
	var a [2000]int
	n := copy(a[:], src)
	sorty.Sort(n, func(i, k, r, s int) bool {
		if a[i] < a[k] {
			if r != s {
				a[r], a[s] = a[s], a[r]
			}
			return true
		}
		return false
	})
	copy(src, a[:])
}

func runLocal[T any](c *cases.Case, src []T, byLen bool) string {
	done := make(chan string)
	go func() { // a fresh, small stack
		done <- safely(func() {
			for k := 0; k < 4; k++ {
				if d := int(c.Get("deep")); d > 0 {
					deepStack(d) // a big stack with little on it: it may shrink
				}
				in := slices.Clone(src)
				switch {
				case len(src) <= 400:
					local400(in, byLen)
				case len(src) <= 1500:
					local1500(in, byLen)
				default:
					local4000(in, byLen)
				}
				if k == 3 {
					copy(src, in)
				}
			}
		})
	}()
	return <-done
}

func init() {
	kinds := []string{"int", "int32", "int64", "uint32", "uint64", "float32", "float64", "string", "bytes", "len:byte", "len:string", "ptr", "lsw"}
	register(&Prop{ID: "C26",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, cases.Pick(r, kinds...), 4000)
			c.Named = false
			_, rec := limits(c)
			if r.Intn(5) != 0 {
				c.N = min(4000, r.Range(2*(rec+1), max(12*rec, 400)))
			}
			if c.Kind == "lsw" {
				c.Order, c.N = "asc", min(c.N, 2000)
			}
			c.MaxGor = cases.Pick[uint64](r, 1, 2, 3, 3, 4, 8)
			c.Set("deep", int64(cases.Pick(r, 0, 0, 20, 200, 2000)))
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			setup(c)
			labels(x, c)
			s := BuildSubject(c)
			_, rec := limits(c)
			x.NonTrivial = c.MaxGor > 1 && s.Len() >= 2*(rec+1)
			fp := s.FP()
			var stop atomic.Bool
			gone := make(chan int)
			go func() {
				defer close(gone)
				for !stop.Load() {
					runtime.GC()
				}
			}()
			m := ""
			switch v := s.(type) {
			case *coll[int]:
				m = runLocal(c, v.s, false)
			case *coll[int32]:
				m = runLocal(c, v.s, false)
			case *coll[int64]:
				m = runLocal(c, v.s, false)
			case *coll[uint32]:
				m = runLocal(c, v.s, false)
			case *coll[uint64]:
				m = runLocal(c, v.s, false)
			case *coll[float32]:
				m = runLocal(c, v.s, false)
			case *coll[float64]:
				m = runLocal(c, v.s, false)
			case *coll[string]:
				m = runLocal(c, v.s, c.Kind == "len:string")
			case *coll[[]byte]:
				m = runLocal(c, v.s, c.Kind == "len:byte")
			case *coll[*Node]:
				m = runLocal(c, v.s, false)
			case *LswColl:
				a := make([]int, len(v.recs))
				for i := range a {
					a[i] = v.recs[i].key<<20 | int(v.recs[i].id)
				}
				done := make(chan string)
				go func() {
					done <- safely(func() {
						deepStack(int(c.Get("deep")))
						localLsw(a)
					})
				}()
				m = <-done
				for i, x := range a {
					v.recs[i] = rec_(x)
				}
			default:
				panic(fmt.Sprintf("harness: no local variant of %T", s))
			}
			stop.Store(true)
			<-gone
			if m == "" {
				m = Verdict(s, fp)
			}
			if m != "" {
				return &Violation{Msg: "collection in a local variable of the calling goroutine: " + m}
			}
			return nil
		}})
}

func rec_(x int) rec { return rec{x >> 20, uint32(x & (1<<20 - 1))} }
