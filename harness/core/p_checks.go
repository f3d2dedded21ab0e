package core

import (
	"fmt"
	"math"
	"math/bits"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

// refSort orders a subject with the standard library and the oracle's comparator.
func refSort(s Subject) {
	switch v := s.(type) {
	case interface{ refSort() }:
		v.refSort()
	}
}

func (c *coll[T]) refSort() {
	sort.SliceStable(c.s, func(i, j int) bool { return c.f.less(&c.s[i], &c.s[j]) })
}

func (l *LswColl) refSort() {
	sort.SliceStable(l.recs, func(i, j int) bool { return l.less(l.recs[i].key, l.recs[j].key) })
}

// readOnly gives the same collection in memory that cannot be written.
func (c *coll[T]) readOnly() (Subject, func()) {
	var z T
	sz := int(unsafe.Sizeof(z))
	reg := newRegion(len(c.s) * sz)
	t := unsafe.Slice((*T)(unsafe.Pointer(&reg.body[len(reg.body)-len(c.s)*sz])), len(c.s))
	copy(t, c.s)
	reg.readonly()
	return &coll[T]{t, c.f}, reg.free
}

func init() {
	kinds := append(append(append(append(append([]string(nil), IntKinds...), FloatKinds...), FloatKinds...), StrKinds...), LenKinds...)
	kinds = append(kinds, "ptr", "unsafeptr", "lsw", "lsw", "float32", "float64")

	register(&Prop{ID: "C08",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, cases.Pick(r, kinds...), 3000)
			if r.Intn(3) != 0 {
				c.N = r.Intn(14)
			}
			if c.Kind == "lsw" && c.Order == "adv" {
				c.Order = "asc"
			}
			rareLong(r, c, 2500, 1<<20)
			c.NaNs = min(c.NaNs, c.N)
			// how to arrange: 0 as generated, 1 reference-sorted, 2 sorted by the package, then up to 3 disturbances
			c.Set("mode", int64(cases.Pick(r, 0, 1, 1, 1, 1, 2)))
			c.Set("disturb", int64(cases.Pick(r, 0, 0, 1, 1, 2, 3)))
			c.Set("where", int64(r.Intn(6)))
			c.Set("ro", int64(cases.Pick(r, 0, 1)))
			if c.NaN == 0 {
				c.NaNs = 0
			}
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			setup(c)
			s := BuildSubject(c)
			r := cases.NewRng(c.Seed, 31)
			mode := c.Get("mode")
			switch mode {
			case 1:
				refSort(s)
			case 2:
				if m := safely(s.Sort); m != "" {
					return &Violation{Msg: m, Foreign: true}
				}
			}
			n := s.Len()
			dist := c.Get("disturb")
			for k := dist; k > 0 && n > 1; k-- {
				switch c.Get("where") {
				case 0:
					s.Swap(0, 1)
				case 1:
					s.Swap(n-1, n-2)
				case 2:
					i := r.Intn(n - 1)
					s.Swap(i, i+1)
				case 3:
					s.Swap(r.Intn(n), r.Intn(n))
				case 4:
					s.Swap(0, n-1)
				default:
					i := 1 + r.Intn(n-1)
					for j := i; j > 0 && j > i-3; j-- {
						s.Swap(j, j-1)
					}
				}
			}
			x.Label("kind " + c.Kind)
			ordered, at := s.Ordered()
			if mode != 0 && n > 1 {
				x.NonTrivial = true
			}
			if ordered {
				x.Label("ordered")
			} else {
				x.Label("not ordered")
			}
			seq := s.SeqFP()
			res := 0
			if v, ok := s.(interface{ readOnly() (Subject, func()) }); ok && c.Get("ro") != 0 && n > 0 {
				var free func()
				orig := s
				s, free = v.readOnly()
				defer func() { free(); runtime.KeepAlive(orig) }()
				x.Label("read-only memory")
				old := debug.SetPanicOnFault(true)
				defer debug.SetPanicOnFault(old)
			}
			if m := safely(func() { res = s.Check() }); m != "" {
				if c.Get("ro") != 0 && strings.Contains(m, "invalid memory address") {
					m = "the sortedness check wrote to the collection, which lies in read-only memory (or accessed memory outside): " + m
				}
				return &Violation{Msg: m}
			}
			if s.SeqFP() != seq {
				return &Violation{Msg: "the sortedness check modified the collection"}
			}
			switch {
			case ordered && res != 0:
				return &Violation{Msg: fmt.Sprintf("check returned %d on an ordered collection (%s | %s)", res, s.Elem(res-1), s.Elem(res))}
			case !ordered && res == 0:
				return &Violation{Msg: fmt.Sprintf("check returned 0, but element %d (%s) is less than its predecessor (%s), n=%d", at, s.Elem(at), s.Elem(at-1), n)}
			case !ordered && !s.DescentAt(res):
				return &Violation{Msg: fmt.Sprintf("check returned %d, which is not a descent: %s | %s, n=%d", res, s.Elem(res-1), s.Elem(res), n)}
			}
			if mode == 2 && dist == 0 && res != 0 {
				return &Violation{Msg: fmt.Sprintf("check returned %d on the result of the corresponding sort", res)}
			}
			return nil
		}})

	register(&Prop{ID: "C17",
		Gen: func(r *cases.Rng, c *cases.Case) {
			c.Kind = "search"
			if r.Intn(3) == 0 { // in a sorted collection
				c.Kind = "insorted"
				c.N = r.Intn(60)
				c.D = cases.Pick(r, 1, 3, 10, 100)
				c.A = r.Range(-1, c.D+1)
				return
			}
			switch r.Intn(7) {
			case 0:
				c.N = r.Intn(5)
			case 1:
				c.N = r.Intn(200)
			case 2:
				c.N = 1<<uint(r.Intn(bits.UintSize-2)) + r.Range(-1, 1)
			case 3:
				c.N = math.MaxInt - r.Intn(4)
			case 4:
				c.N = math.MaxInt/2 + r.Range(-3, 3)
			default:
				c.N = int(r.U64() & math.MaxInt >> uint(r.Intn(bits.UintSize-1)))
			}
			c.N = max(c.N, 0)
			// first true index
			switch r.Intn(6) {
			case 0:
				c.A = c.N
			case 1:
				c.A = max(c.N-1-r.Intn(3), 0)
			case 2:
				c.A = r.Intn(3)
			case 3:
				c.A = c.N/2 + r.Range(-1, 1)
			default:
				if c.N > 0 {
					c.A = int(r.U64()&math.MaxInt) % c.N
				}
			}
			c.A = min(max(c.A, 0), c.N)
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			x.NonTrivial = c.N >= 2
			x.Label(c.Kind)
			n, want := c.N, c.A
			calls, bad := 0, ""
			pred := func(k int) bool { return k >= want }
			if c.Kind == "insorted" {
				r := cases.NewRng(c.Seed, 1)
				s := make([]int, n)
				for i := range s {
					s[i] = r.Intn(c.D)
				}
				sort.Ints(s)
				key := c.A
				want = n
				for i := n - 1; i >= 0 && s[i] >= key; i-- {
					want = i
				}
				pred = func(k int) bool { return s[k] >= key }
			}
			lim := bitsLen(n) + 2 // log2(n)+1 suffices
			got := -1
			m := safely(func() {
				got = sorty.Search(n, func(k int) bool {
					calls++
					if k < 0 || k >= n {
						bad = fmt.Sprintf("Search(%d) asked for fn(%d)", n, k)
						panic("stop")
					}
					if calls > 2*lim+8 {
						bad = fmt.Sprintf("Search(%d) called fn more than %d times", n, 2*lim+8)
						panic("stop")
					}
					return pred(k)
				})
			})
			switch {
			case bad != "":
				return &Violation{Msg: bad}
			case m != "":
				return &Violation{Msg: m}
			case got != want:
				return &Violation{Msg: fmt.Sprintf("Search(%d) returned %d, the lowest true index is %d", n, got, want)}
			}
			return nil
		}})
}
