package core

import (
	"fmt"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

type rec struct {
	key int
	id  uint32
}

// LswColl is a collection sorted through a user lesswap.
type LswColl struct {
	recs   []rec
	less   func(a, b int) bool // strict weak order on keys
	hook   func(i, k, r, s int)
	calls  atomic.Int64
	budget int64
	badIdx atomic.Pointer[string]
	adv    *adversary
	bare   bool        // no recording at all: the callback has no synchronization
	nested func(i int) // called by a bare callback
}

// LswOrders lists the comparators.
var LswOrders = []string{"asc", "desc", "mod", "bucket", "none", "str", "lex", "abs", "bool", "adv"}

func lessOf(c *cases.Case) func(a, b int) bool {
	m := max(c.B, 2)
	mod := func(a int) int { a %= m; return a }
	switch c.Order {
	case "desc":
		return func(a, b int) bool { return a > b }
	case "mod":
		return func(a, b int) bool { return mod(a) < mod(b) }
	case "bucket":
		return func(a, b int) bool { return a/m < b/m }
	case "none":
		return func(a, b int) bool { return false }
	case "str":
		return func(a, b int) bool { return strconv.Itoa(a) < strconv.Itoa(b) }
	case "lex":
		return func(a, b int) bool {
			x, y := mod(a), mod(b)
			return x > y || x == y && a/m < b/m
		}
	case "abs":
		h := c.N / 2
		ab := func(a int) int { return max(a-h, h-a) }
		return func(a, b int) bool { return ab(a) < ab(b) }
	case "bool":
		h := c.N / 2
		return func(a, b int) bool { return a < h && b >= h }
	}
	return func(a, b int) bool { return a < b }
}

func newLsw(c *cases.Case) *LswColl {
	ranks := c.MaterializeRanks()
	l := &LswColl{recs: make([]rec, len(ranks))}
	for i, r := range ranks {
		l.recs[i] = rec{max(r, 0), uint32(i)}
	}
	if c.Order == "adv" {
		l.adv = newAdversary(len(ranks), c.A, cases.NewRng(c.Seed, 11))
		for i := range l.recs {
			l.recs[i].key = i
		}
		l.less = l.adv.finalLess
	} else {
		l.less = lessOf(c)
	}
	l.budget = callBudget(len(ranks), c)
	return l
}

// callBudget bounds the calls of any legitimate run: quadratic in general. A run that exceeds it is not terminating
// in any useful sense.
func callBudget(n int, c *cases.Case) int64 {
	return 20*int64(n)*int64(n) + 200000
}

func (l *LswColl) bad(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	l.badIdx.CompareAndSwap(nil, &s)
}

// Lesswap is the user callback, written exactly as documented, plus recording.
func (l *LswColl) Lesswap(i, k, r, s int) bool {
	if n := len(l.recs); uint(i) >= uint(n) || uint(k) >= uint(n) || uint(r) >= uint(n) || uint(s) >= uint(n) {
		l.bad("lesswap(%d,%d,%d,%d) called with an index outside [0,%d)", i, k, r, s, n)
		return false
	}
	if l.hook != nil {
		l.hook(i, k, r, s)
	}
	if l.calls.Add(1) > l.budget {
		panic(fmt.Sprintf("PROPERTY lesswap call budget %d exceeded for n=%d", l.budget, len(l.recs)))
	}
	var lt bool
	if l.adv != nil {
		lt = l.adv.less(l.recs[i].key, l.recs[k].key)
	} else {
		lt = l.less(l.recs[i].key, l.recs[k].key)
	}
	if lt {
		if r != s {
			l.recs[r], l.recs[s] = l.recs[s], l.recs[r]
		}
		return true
	}
	return false
}

func (l *LswColl) Len() int   { return len(l.recs) }
func (l *LswColl) Sort()      { sorty.Sort(len(l.recs), l.fn()) }
func (l *LswColl) Check() int { return sorty.IsSorted(len(l.recs), l.fn()) }
func (l *LswColl) fn() sorty.Lesswap {
	if !l.bare {
		return l.Lesswap
	}
	recs, less, nested := l.recs, l.less, l.nested
	return func(i, k, r, s int) bool {
		if nested != nil && (i+k)&127 == 5 {
			nested(i)
		}
		if less(recs[i].key, recs[k].key) {
			if r != s {
				recs[r], recs[s] = recs[s], recs[r]
			}
			return true
		}
		return false
	}
}
func (l *LswColl) Swap(i, j int) { l.recs[i], l.recs[j] = l.recs[j], l.recs[i] }
func (l *LswColl) Elem(i int) string {
	if i < 0 || i >= len(l.recs) {
		return "-"
	}
	return fmt.Sprintf("key %d id %d", l.recs[i].key, l.recs[i].id)
}
func (l *LswColl) Sub(lo, hi int) Subject {
	n := &LswColl{recs: l.recs[lo:hi:hi], less: l.less, adv: l.adv, hook: l.hook, bare: l.bare, nested: l.nested}
	n.budget = callBudget(hi-lo, nil)
	return n
}
func (l *LswColl) Ordered() (bool, int) {
	for i := 1; i < len(l.recs); i++ {
		if l.less(l.recs[i].key, l.recs[i-1].key) {
			return false, i
		}
	}
	return true, 0
}
func (l *LswColl) DescentAt(i int) bool {
	return i > 0 && i < len(l.recs) && l.less(l.recs[i].key, l.recs[i-1].key)
}
func (l *LswColl) FP() (fp [2]uint64) {
	for _, e := range l.recs {
		h := uint64(e.key)<<32 ^ uint64(e.id)
		fp[0] += cases.Mix(h ^ 0x2545f4914f6cdd1d)
		fp[1] += cases.Mix2(h + 0x1b873593cc9e2d51)
	}
	return
}
func (l *LswColl) SeqFP() uint64 {
	h := uint64(len(l.recs))
	for _, e := range l.recs {
		h = cases.Mix(h+uint64(e.key)) ^ cases.Mix2(h*31+uint64(e.id))
	}
	return h
}

// adversary is McIlroy's on-line quicksort killer with a control: values are decided only when compared. Each decided
// element is below all undecided ones. With spread > 1, whenever a value has to be frozen, up to spread-1 other undecided elements
// are frozen below it as well, so partitions are small but not trivial.
type adversary struct {
	mu     sync.Mutex
	val    []int // -1: undecided (gas)
	next   int
	cand   int
	spread int
	r      *cases.Rng
	gas    int
}

func newAdversary(n, spread int, r *cases.Rng) *adversary {
	a := &adversary{val: make([]int, n), spread: spread, r: r, gas: n, cand: -1}
	for i := range a.val {
		a.val[i] = -1
	}
	return a
}

func (a *adversary) freeze(x int) {
	if a.spread > 1 && a.r.Intn(4) == 0 {
		for k := a.r.Intn(a.spread); k > 0; k-- {
			if y := a.r.Intn(len(a.val)); a.val[y] < 0 && y != x {
				a.val[y] = a.next
				a.next++
				a.gas--
			}
		}
	}
	a.val[x] = a.next
	a.next++
	a.gas--
}

func (a *adversary) less(x, y int) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	if x == y {
		return false
	}
	if a.val[x] < 0 && a.val[y] < 0 {
		if x == a.cand {
			a.freeze(x)
		} else {
			a.freeze(y)
		}
	}
	if a.val[x] < 0 {
		a.cand = x
	} else if a.val[y] < 0 {
		a.cand = y
	}
	return a.rank(x) < a.rank(y)
}

func (a *adversary) rank(x int) int {
	if a.val[x] < 0 {
		return len(a.val) + 1
	}
	return a.val[x]
}

// finalLess compares with what has been decided; undecided elements are above all others, and equal.
func (a *adversary) finalLess(x, y int) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.rank(x) < a.rank(y)
}
