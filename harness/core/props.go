package core

import (
	"fmt"
	"math"
	"math/bits"
	"runtime"
	"slices"
	"strings"
	"testing"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

// Violation says how a property failed on a case.
type Violation struct {
	Msg     string
	Foreign bool   // breaks something, but not the property under check: the case is skipped
	Known   string // key of the known finding this may be an instance of
}

// Ctx is what a run may report besides a violation.
type Ctx struct {
	T          *testing.T
	NonTrivial bool
	Labels     map[string]int64
}

func (x *Ctx) Label(l string) { x.Labels[l]++ }

// Prop is an executable property.
type Prop struct {
	ID  string
	Gen func(r *cases.Rng, c *cases.Case)
	Run func(x *Ctx, c *cases.Case) *Violation
}

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.ID] = p }

// Find returns a property by id.
func Find(id string) *Prop { return registry[id] }

// Gen makes case idx of a property in a variant.
func Gen(prop, variant string, seed uint64, idx int) *cases.Case {
	p := Find(prop)
	r := cases.NewRng(seed, cases.HashStr(prop), cases.HashStr(variant), uint64(idx))
	c := &cases.Case{Prop: prop, Variant: variant, Idx: idx, MaxGor: 3, NaN: int(sorty.NaNlarge)}
	c.Seed = r.U64() >> 1
	p.Gen(r, c)
	return c
}

// start-up values of the package's parameters
var (
	DefaultParams = Params()
	DefaultMaxGor = sorty.MaxGor
	DefaultNaN    = sorty.NaNoption
)

// setup puts the package into the state a case asks for.
func setup(c *cases.Case) {
	sorty.MaxGor = c.MaxGor
	sorty.NaNoption = sorty.FloatOption(c.NaN)
	if len(c.Tune) == 4 {
		setParams([4]int(c.Tune))
	} else {
		setParams(DefaultParams)
	}
	if c.Procs > 0 {
		runtime.GOMAXPROCS(c.Procs)
	} else {
		runtime.GOMAXPROCS(runtime.NumCPU())
	}
}

// params returns the parameters a case runs with.
func params(c *cases.Case) (ins, insFC, rec, recFC int) {
	p := DefaultParams
	if len(c.Tune) == 4 {
		p = [4]int(c.Tune)
	}
	return p[0], p[1], p[2], p[3]
}

// limits returns insertion and recursion limits for the case's kind.
func limits(c *cases.Case) (ins, rec int) {
	a, b, d, e := params(c)
	if isFC(c.Kind) {
		return b, e
	}
	return a, d
}

// safely runs f and returns a description of a panic on this goroutine.
func safely(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			msg = fmt.Sprintf("panic: %v\n%s", e, clipLines(string(buf), 30))
		}
	}()
	f()
	return
}

// ---- generation helpers

func genTune(r *cases.Rng) []int {
	switch r.Intn(5) {
	case 0: // minimal
		return []int{10, 9, 22, 21}
	case 1: // close to bounds
		fc := r.Range(9, 14)
		in := fc + r.Range(1, 2)
		rf := 2*in + r.Range(1, 2)
		return []int{in, fc, rf + r.Range(1, 2), rf}
	case 2: // wide gaps
		fc := r.Range(9, 40)
		in := fc + r.Range(1, 40)
		rf := 2*in + r.Range(1, 200)
		return []int{in, fc, rf + r.Range(1, 300), rf}
	case 3:
		fc := r.Range(9, 12)
		in := r.Range(fc+1, 16)
		rf := 2*in + r.Range(1, 8)
		return []int{in, fc, rf + r.Range(1, 8), rf}
	}
	fc := r.Range(9, 20)
	in := fc + r.Range(1, 10)
	rf := 2*in + r.Range(1, 20)
	return []int{in, fc, rf + r.Range(1, 20), rf}
}

// hugeTune raises limits from the top to values near the largest int (and powers of two), which keeps them feasible.
func hugeTune(r *cases.Rng, c *cases.Case) {
	if len(c.Tune) != 4 {
		return
	}
	h := cases.Pick(r, math.MaxInt, math.MaxInt, math.MaxInt-1, math.MaxInt/2+1, math.MaxInt/2, math.MaxInt/2-1, math.MaxInt/4, math.MaxInt/4+1,
		1<<30, 1<<30-1, math.MaxInt32, math.MaxInt>>r.Range(1, 15))
	c.Tune[2] = h
	k := r.Intn(4)
	if k == 0 {
		return
	}
	c.Tune[3] = cases.Pick(r, h-1, h-1, h-2, h/2+1)
	if k == 1 {
		return
	}
	c.N = min(c.N, 2500) // sorted by insertion
	c.Tune[0] = (c.Tune[3]-1)/2 - r.Intn(2)
	if k == 3 {
		c.Tune[1] = c.Tune[0] - r.Range(1, 2)
	}
}

// genLen picks a length, relative to the limits in force.
func genLen(r *cases.Rng, c *cases.Case, big int) int {
	ins, rec := limits(c)
	n := 0
	switch k := r.Intn(100); {
	case k < 14:
		n = r.Intn(24)
	case k < 50: // around thresholds
		base := cases.Pick(r, ins, ins+1, 2*ins, rec, rec+1, 2*rec, 2*(rec+1), 2*(rec+1), 2*(rec+1), 4*rec, 4*(rec+1), 6*rec, 3*ins)
		n = base + r.Range(-3, 3)
	case k < 70:
		n = r.Range(0, 3*rec)
	case k < 92:
		n = r.Range(2*rec, 10*rec)
	case k < 98:
		n = r.Range(10*rec, 20*rec)
	default:
		lo := min(20*rec, big)
		n = r.Range(lo, big)
	}
	if n > big {
		n = r.Range(big/2, big)
	}
	return max(n, 0)
}

func genGor(r *cases.Rng) uint64 {
	return cases.Pick[uint64](r, 0, 1, 2, 2, 3, 3, 3, 4, 4, 5, 8, 16, 64, 4096, 1<<40, 1<<63, 1<<64-1)
}

func genShape(r *cases.Rng, c *cases.Case, shapes []string) {
	if r.Intn(3) == 0 {
		c.Shape = cases.Pick(r, "random", "perm", "samples")
	} else {
		c.Shape = cases.Pick(r, shapes...)
	}
	n := max(c.N, 1)
	switch r.Intn(4) {
	case 0:
		c.D = r.Range(1, 6)
	case 1:
		c.D = r.Range(1, n)
	case 2:
		c.D = n
	default:
		c.D = 4 * n
	}
	c.A = cases.Pick(r, 1, 2, r.Range(1, 10), r.Range(1, 64), r.Range(1, n))
	c.B = cases.Pick(r, 1, 2, r.Range(1, 10), r.Range(1, n))
	if c.Shape == "killer" {
		ins, rec := limits(c)
		c.A = cases.Pick(r, ins+1, ins+2, rec+1, rec+2, 4, 8, ins/2)
		c.Set("krec", int64(rec))
		if isFC(c.Kind) {
			c.Set("kfc", 1)
		}
	}
}

func genProcs(r *cases.Rng) int { return cases.Pick(r, 1, 2, 2, 4, 8, 8) }

// genBase fills everything of a case of the given kind.
func genBase(r *cases.Rng, c *cases.Case, kind string, big int) {
	c.Kind = kind
	c.Named = r.Intn(4) == 0
	if Tunable && strings.Contains("tune tunerace instr tune386", c.Variant) {
		c.Tune = genTune(r)
	}
	c.N = genLen(r, c, big)
	genShape(r, c, cases.AllShapes)
	c.Pool = cases.Pick(r, PoolsOf(kind)...)
	c.MaxGor = genGor(r)
	c.Procs = genProcs(r)
	if kind == "lsw" {
		c.Order = cases.Pick(r, LswOrders...)
		if c.Order == "adv" {
			c.N = min(c.N, 2500)
			c.A = cases.Pick(r, 1, 1, 3, 20, 40)
		}
	}
	if strings.HasPrefix(kind, "float") {
		c.NaN = cases.Pick(r, -1, 0, 1, 1)
		if c.NaN != 0 && r.Intn(3) != 0 {
			c.NaNs = cases.Pick(r, 1, 2, r.Range(0, c.N), r.Range(0, c.N/4+1), c.N, max(c.N-1, 0), max(c.N-r.Intn(5), 0))
			c.NaNStyle = cases.Pick(r, "random", "random", "front", "back", "even", "middle", "ends")
		}
	}
}

func labels(x *Ctx, c *cases.Case) {
	x.Label("kind " + c.Kind)
	x.Label("shape " + c.Shape)
	_, rec := limits(c)
	switch {
	case c.N <= rec:
		x.Label("len<=rec")
	case c.N>>1 <= rec:
		x.Label("rec<len<2(rec+1)")
	case c.MaxGor > 1:
		x.Label("concurrent")
	default:
		x.Label("long, one goroutine")
	}
}

// runSort is the common check: the result is ordered and a permutation.
func runSort(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	s := BuildSubject(c)
	labels(x, c)
	if ok, _ := s.Ordered(); !ok && s.Len() > 1 {
		x.NonTrivial = true
	}
	fp := s.FP()
	if m := safely(s.Sort); m != "" {
		return &Violation{Msg: m}
	}
	if m := Verdict(s, fp); m != "" {
		return &Violation{Msg: m}
	}
	if l, ok := s.(*LswColl); ok {
		if p := l.badIdx.Load(); p != nil {
			return &Violation{Msg: *p}
		}
	}
	return nil
}

// rareLong makes one of many plain cases a really long one, also close to powers of two.
func rareLong(r *cases.Rng, c *cases.Case, one, most int) bool {
	if c.Variant != "plain" && c.Variant != "race" || r.Intn(one) != 0 {
		return false
	}
	c.N = r.Range(most/16, most)
	if r.Intn(3) == 0 {
		c.N = 1<<r.Range(bits.Len(uint(most))-5, bits.Len(uint(most))-1) + r.Range(-2, 2)
	}
	c.Shape = cases.Pick(r, "random", "random", "random", "perm", "sorted", "reversed", "equal", "rotated")
	c.D = cases.Pick(r, 2, 1000, c.N, 4*c.N)
	c.NaNs = min(c.NaNs, c.N)
	if c.Pool == "deep" {
		c.Pool = "random"
	}
	if c.Kind == "lsw" { // few distinct values take quadratic time
		c.Order = cases.Pick(r, "asc", "desc")
		c.D = cases.Pick(r, c.N, 4*c.N)
	}
	return true
}

// mediumLong makes one of some plain cases longer than 16 bits can count.
func mediumLong(r *cases.Rng, c *cases.Case, one int) {
	if c.Variant != "plain" || r.Intn(one) != 0 {
		return
	}
	c.N = 1<<16 + cases.Pick(r, r.Range(-2, 3), r.Range(0, 1000), r.Range(0, 1<<16), 1<<16+r.Range(-2, 1000))
	c.Shape = cases.Pick(r, "random", "random", "equal", "zipf", "zipf", "almostequal", "twoval", "sorted")
	c.D = cases.Pick(r, 1, 2, 3, 50, 256, 1000, 1<<16)
	c.NaNs = min(c.NaNs, c.N)
	switch {
	case c.Kind == "lsw": // few distinct values take quadratic time
		c.Order, c.D, c.Shape = cases.Pick(r, "asc", "desc"), c.N, "random"
	case c.Pool == "deep":
		c.Pool = "random"
	case slices.Contains(IntKinds, c.Kind) && r.Intn(3) == 0:
		c.Pool = "small"
	}
}

func init() {
	sortProp := func(id string, kinds []string, big, rare, mid, most int) {
		register(&Prop{ID: id,
			Gen: func(r *cases.Rng, c *cases.Case) {
				genBase(r, c, cases.Pick(r, kinds...), big)
				if !rareLong(r, c, rare, most) {
					mediumLong(r, c, rare/mid)
				}
			},
			Run: runSort})
	}
	sortProp("C01", IntKinds, 40000, 2000, 10, 1<<21)
	sortProp("C02", FloatKinds, 40000, 2000, 5, 1<<21)
	sortProp("C03", StrKinds, 20000, 4000, 10, 1<<19)
	sortProp("C04", LenKinds, 30000, 2000, 10, 1<<20)
	sortProp("C05", []string{"lsw"}, 20000, 1500, 2, 1<<19)
	all := append(append(append([]string(nil), NativeKinds...), "lsw", "lsw", "lsw", "ptr", "string", "bytes", "len:arr"), FloatKinds...)
	register(&Prop{ID: "C16",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, cases.Pick(r, all...), 6000)
			if r.Intn(10) == 0 {
				hugeTune(r, c)
			}
		},
		Run: runSort})
}

// FatalCounts tells whether a deadlock, leak or endless run found by the scheduler breaks the property under check.
func FatalCounts(prop, msg string) bool {
	switch prop {
	case "C13", "C15":
		return true
	}
	return false
}
