package core

import (
	"fmt"
	"math"
	"slices"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

// move puts the contents somewhere else.
func (c *coll[T]) move(off int) { c.s = append(make([]T, off, off+len(c.s)), c.s...)[off:] }

func (l *LswColl) move(off int) { l.recs = slices.Clone(l.recs) }

// snap returns a function that restores the present contents.
func (c *coll[T]) snap() func() {
	s := slices.Clone(c.s)
	return func() { copy(c.s, s) }
}

func (l *LswColl) snap() func() {
	s := slices.Clone(l.recs)
	return func() { copy(l.recs, s) }
}

func config() string {
	return fmt.Sprint("MaxGor ", sorty.MaxGor, ", NaNoption ", sorty.NaNoption, ", MaxLen* ", Params())
}

func init() {
	kinds := append(append([]string(nil), NativeKinds...), "lsw", "lsw", "lsw", "lsw", "lsw", "lsw", "ptr", "len:any", "string", "bytes")
	other := []string{"int", "int32", "uint64", "float32", "float64", "string", "bytes", "len:byte", "len:string", "ptr", "lsw", "lsw"}

	register(&Prop{ID: "C27",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, cases.Pick(r, kinds...), 6000)
			if c.Order == "adv" {
				c.Order = "asc"
			}
			_, rec := limits(c)
			if r.Intn(2) == 0 {
				c.MaxGor = uint64(r.Intn(2))
			} else { // single goroutine because it is short
				c.N = cases.Pick(r, rec, r.Range(0, rec), r.Range(0, rec))
				c.NaNs = min(c.NaNs, c.N)
			}
			if c.MaxGor <= 1 {
				rareLong(r, c, 400, 1<<18)
			}
			c.Set("between", int64(r.Range(1, 6)))
		},
		Run: func(x *Ctx, c *cases.Case) *Violation {
			setup(c)
			labels(x, c)
			s := BuildSubject(c)
			x.NonTrivial = s.Len() > 1
			restore := s.(interface{ snap() func() }).snap()
			move := s.(interface{ move(int) }).move
			// what a call does: the sequence of callback arguments, the final arrangement and the check's answers
			type trace struct{ calls, seq, chk0, chk1 uint64 }
			var t trace
			l, _ := s.(*LswColl)
			if l != nil {
				l.hook = func(i, k, r, s int) {
					t.calls = cases.Mix(t.calls*31+uint64(i)) + cases.Mix2(uint64(k)<<40^uint64(r)<<20^uint64(s))
				}
			}
			conf := config()
			once := func() (trace, string) {
				restore()
				t = trace{}
				m := safely(func() {
					t.chk0 = uint64(s.Check())
					s.Sort()
					t.chk1 = uint64(s.Check())
				})
				t.seq = s.SeqFP()
				return t, m
			}
			first, m := once()
			if m != "" {
				return &Violation{Msg: m, Foreign: true}
			}
			// other calls, also failing ones
			r := cases.NewRng(c.Seed, 95)
			what := ""
			for k := c.Get("between"); k > 0; k-- {
				d := c.Clone()
				d.Seed = r.U64() >> 1
				d.Kind = cases.Pick(r, other...)
				d.N = r.Range(0, max(2*c.N, 50))
				d.NaNs = 0
				d.Explicit = false
				d.Shape = cases.Pick(r, "random", "perm", "sorted", "equal", "samples")
				if ps := PoolsOf(d.Kind); len(ps) > 0 {
					d.Pool = cases.Pick(r, ps...)
				}
				d.Order = cases.Pick(r, "asc", "desc", "none")
				sorty.MaxGor = cases.Pick[uint64](r, 0, 1, 3, 8, 3, 8, 100, 4096, 4097, 1<<40, 1<<63, 1<<64-1)
				if r.Intn(3) == 0 { // long enough for concurrent partitioning
					_, rec := limits(d)
					d.N = 2*(rec+1) + r.Intn(4*rec+50)
				}
				conf2 := config()
				var m string
				op := r.Intn(10)
				switch op {
				case 8, 9: // unexpected NaNs: the order is undefined then, the configuration is not
					old := sorty.NaNoption
					sorty.NaNoption = cases.Pick(r, sorty.NaNignore, sorty.NaNignore, sorty.NaNsmall, sorty.NaNlarge)
					conf2 = config()
					// insertion sort ends whatever the comparisons say
					f8, f4 := make([]float64, r.Range(1, 9)), make([]float32, r.Range(1, 9))
					nan := r.Range(1, 4)
					for i := range f8 {
						if f8[i] = float64(r.Intn(5)); r.Intn(4) < nan {
							f8[i] = math.NaN()
						}
					}
					for i := range f4 {
						if f4[i] = float32(r.Intn(5)); r.Intn(4) < nan {
							f4[i] = float32(math.NaN())
						}
					}
					m = safely(func() {
						sorty.IsSortedSlice(f8)
						sorty.SortSlice(f8)
						sorty.IsSortedSlice(f4)
						sorty.SortSlice(f4)
						big := make([]float64, r.Intn(5000))
						for i := range big {
							if r.Intn(100) < nan {
								big[i] = math.NaN()
							}
						}
						sorty.IsSortedSlice(big)
					})
					if v := config(); v == conf2 {
						sorty.NaNoption = old
						conf2 = config()
					}
				case 0:
					m = safely(func() { sorty.Search(d.N, func(k int) bool { return k > 5 }) })
				case 1:
					safely(func() { sorty.SortSlice([]bool{true, false}) })
					safely(func() { sorty.SortLen([]int{2, 1}) })
					safely(func() { sorty.IsSortedSlice(3) })
				case 2:
					n := min(d.N, 20) // on one goroutine: elsewhere a panic ends the process
					safely(func() { sorty.Sort(n, func(i, k, r, s int) bool { panic("x") }) })
				case 3:
					o := BuildSubject(d)
					m = safely(func() { o.Check() })
				default:
					o := BuildSubject(d)
					m = safely(o.Sort)
				}
				if m != "" {
					return &Violation{Msg: m, Foreign: true}
				}
				what += fmt.Sprintf(" %d:%s/%d", op, d.Kind, d.N)
				if v := config(); v != conf2 {
					return &Violation{Msg: "a call changed the configuration: " + conf2 + " -> " + v + ", calls so far:" + what}
				}
			}
			sorty.MaxGor = c.MaxGor
			move(r.Intn(20))
			second, m := once()
			if m != "" {
				return &Violation{Msg: "repeating a call failed: " + m}
			}
			if v := config(); v != conf {
				return &Violation{Msg: "a call changed the configuration: " + conf + " -> " + v}
			}
			if first != second {
				diff := "arranged equal elements differently"
				if first.calls != second.calls {
					diff = "made other lesswap calls"
				} else if first.chk0 != second.chk0 || first.chk1 != second.chk1 {
					diff = "got other answers from the sortedness check"
				}
				return &Violation{Msg: fmt.Sprintf("repeating a single-goroutine call on %d elements of kind %s after other calls (%s ) %s", c.N, c.Kind, what, diff)}
			}
			return nil
		}})
}
