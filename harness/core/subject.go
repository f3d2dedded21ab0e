// Package core holds the executable properties of jfcg/sorty: subjects built from cases, oracles,
// the owned scheduler and the per-property generators and checks. It talks to the public API only.
package core

import (
	"cmp"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

// Subject is a collection to be sorted, with its independent oracle.
type Subject interface {
	Len() int
	Sort()
	Check() int             // the package's own sortedness check
	Ordered() (bool, int)   // reference: ascending? otherwise some descent
	DescentAt(i int) bool   // is i an acceptable nonzero answer of Check
	FP() [2]uint64          // order-independent fingerprint of element identities
	SeqFP() uint64          // order-dependent fingerprint
	Elem(i int) string      // for messages
	Sub(lo, hi int) Subject // the same elements, a sub-range
	Swap(i, j int)
}

// Fns bundles what is needed to know about an element type.
type fns[T any] struct {
	less   func(a, b *T) bool // strict order used by the oracle
	id     func(a *T) [2]uint64
	sort   func(s []T)
	check  func(s []T) int
	show   func(a *T) string
	isNaN  func(a *T) bool // nil if not float
	strict func(a, b *T) bool
}

type coll[T any] struct {
	s []T
	f *fns[T]
}

func (c *coll[T]) Len() int      { return len(c.s) }
func (c *coll[T]) Sort()         { c.f.sort(c.s) }
func (c *coll[T]) Check() int    { return c.f.check(c.s) }
func (c *coll[T]) Swap(i, j int) { c.s[i], c.s[j] = c.s[j], c.s[i] }
func (c *coll[T]) Elem(i int) string {
	if i < 0 || i >= len(c.s) {
		return "-"
	}
	return c.f.show(&c.s[i])
}
func (c *coll[T]) Sub(lo, hi int) Subject { return &coll[T]{c.s[lo:hi:hi], c.f} }

func (c *coll[T]) Ordered() (bool, int) {
	for i := 1; i < len(c.s); i++ {
		if c.f.less(&c.s[i], &c.s[i-1]) {
			return false, i
		}
	}
	return true, 0
}

func (c *coll[T]) DescentAt(i int) bool {
	if i <= 0 || i >= len(c.s) {
		return false
	}
	if c.f.isNaN != nil && (c.f.isNaN(&c.s[i]) || c.f.isNaN(&c.s[i-1])) {
		return true
	}
	return c.f.less(&c.s[i], &c.s[i-1])
}

func (c *coll[T]) FP() (fp [2]uint64) {
	for i := range c.s {
		id := c.f.id(&c.s[i])
		h := cases.Mix(id[0]+0x9e3779b97f4a7c15) + cases.Mix2(id[1]^0xd1b54a32d192ed03)*3
		fp[0] += cases.Mix(h ^ 0x2545f4914f6cdd1d)
		fp[1] += cases.Mix2(h + 0x1b873593cc9e2d51)
	}
	return
}

func (c *coll[T]) SeqFP() uint64 {
	h := uint64(len(c.s))
	for i := range c.s {
		id := c.f.id(&c.s[i])
		h = cases.Mix(h+id[0]) ^ cases.Mix2(h*31+id[1])
	}
	return h
}

// Verdict checks the complete result of a sort against the state before.
func Verdict(s Subject, before [2]uint64) string {
	if ok, i := s.Ordered(); !ok {
		return fmt.Sprintf("not sorted: element %d (%s) comes after element %d (%s), n=%d", i, s.Elem(i), i-1, s.Elem(i-1), s.Len())
	}
	if s.FP() != before {
		return fmt.Sprintf("elements changed: the result is not a permutation of the input, n=%d", s.Len())
	}
	return ""
}

type integer interface {
	~int | ~int32 | ~int64 | ~uint | ~uint32 | ~uint64 | ~uintptr
}

func intFns[T integer](named func([]T) any) *fns[T] {
	return &fns[T]{
		less:  func(a, b *T) bool { return *a < *b },
		id:    func(a *T) [2]uint64 { return [2]uint64{uint64(*a), 1} },
		sort:  func(s []T) { sorty.SortSlice(named(s)) },
		check: func(s []T) int { return sorty.IsSortedSlice(named(s)) },
		show:  func(a *T) string { return fmt.Sprint(*a) },
	}
}

func maxRank(ranks []int) int {
	m := 0
	for _, r := range ranks {
		m = max(m, r)
	}
	return m
}

func buildInts[T integer](c *cases.Case, named func([]T) any) *coll[T] {
	ranks := c.MaterializeRanks()
	var z T
	w := uint(unsafe.Sizeof(z)) * 8
	d := maxRank(ranks) + 1
	raw := rawInts(cases.NewRng(c.Seed, 7), c.Pool, d, w)
	vals := make([]T, d)
	for i, x := range raw {
		vals[i] = T(x)
	}
	sorted(vals, func(a, b T) bool { return a < b })
	s := make([]T, len(ranks))
	for i, r := range ranks {
		s[i] = vals[max(r, 0)]
	}
	return &coll[T]{s, intFns(named)}
}

// named types
type (
	NInt      int
	NInt32    int32
	NUint32   uint32
	NF32      float32
	NF64      float64
	NStr      string
	NBytes    []byte
	SInt      []int
	SInt64    []int64
	SUint     []uint
	SUint64   []uint64
	SNUint32  []NUint32
	SNInt32   []NInt32
	SUintptr  []uintptr
	SF32      []float32
	SNF64     []NF64
	SStr      []string
	SNStr     []NStr
	SBytes    [][]byte
	SNBytes   []NBytes
	SPtr      []*Node
	SUnsafe   []unsafe.Pointer
	NUnsafe   unsafe.Pointer
	SNUnsafe  []NUnsafe
	NPtr      *Node
	SNPtr     []NPtr
	SLenInt64 [][]int64
)

func castSlice[A, B any](s []A) []B { return *(*[]B)(unsafe.Pointer(&s)) }

func floatBits(x any) uint64 {
	switch v := x.(type) {
	case float32:
		return uint64(math.Float32bits(v))
	case float64:
		return math.Float64bits(v)
	}
	return 0
}

func floatFns[T float32 | float64](nan sorty.FloatOption, named func([]T) any) *fns[T] {
	bits := func(a *T) uint64 {
		if unsafe.Sizeof(*a) == 4 {
			return uint64(*(*uint32)(unsafe.Pointer(a)))
		}
		return *(*uint64)(unsafe.Pointer(a))
	}
	less := func(a, b *T) bool {
		x, y := *a, *b
		if x != x || y != y {
			switch nan {
			case sorty.NaNlarge:
				return x == x && y != y
			case sorty.NaNsmall:
				return x != x && y == y
			}
			return false
		}
		return x < y
	}
	return &fns[T]{
		less:  less,
		id:    func(a *T) [2]uint64 { return [2]uint64{bits(a), 2} },
		sort:  func(s []T) { sorty.SortSlice(named(s)) },
		check: func(s []T) int { return sorty.IsSortedSlice(named(s)) },
		show:  func(a *T) string { return fmt.Sprintf("%v/%#x", *a, bits(a)) },
		isNaN: func(a *T) bool { return *a != *a },
	}
}

func buildFloats[T float32 | float64](c *cases.Case, named func([]T) any) *coll[T] {
	ranks := c.MaterializeRanks()
	var z T
	w := uint(unsafe.Sizeof(z)) * 8
	d := maxRank(ranks) + 1
	raw := rawFloats(cases.NewRng(c.Seed, 8), c.Pool, d, w)
	vals := make([]T, d)
	for i, x := range raw {
		vals[i] = T(x)
	}
	sorted(vals, func(a, b T) bool { return a < b })
	s := make([]T, len(ranks))
	for i, r := range ranks {
		h := cases.Mix(c.Seed + uint64(i)*77)
		if r < 0 { // NaN with its own sign and payload, often unique
			if w == 32 {
				b := uint32(0x7f800001) | uint32(h)&0x803fffff | uint32(h>>40&1)<<22
				*(*uint32)(unsafe.Pointer(&s[i])) = b
			} else {
				b := uint64(0x7ff0000000000001) | h&0x800fffffffffffff
				*(*uint64)(unsafe.Pointer(&s[i])) = b
			}
			continue
		}
		s[i] = vals[r]
		if s[i] == 0 && h&1 == 0 { // both zeros are equal: vary their sign
			s[i] = T(math.Copysign(0, -1))
		}
	}
	return &coll[T]{s, floatFns(sorty.FloatOption(c.NaN), named)}
}

func strID(a *string) [2]uint64 {
	h := (*[2]uintptr)(unsafe.Pointer(a))
	return [2]uint64{uint64(h[0]), uint64(h[1])<<1 ^ 0x5555}
}

func hdrID(p unsafe.Pointer) [2]uint64 {
	h := (*[3]uintptr)(p)
	return [2]uint64{uint64(h[0]), uint64(h[1]) ^ cases.Mix(uint64(h[2]))}
}

func clip(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func strFns(byLen bool, named func([]string) any) *fns[string] {
	f := &fns[string]{id: strID, show: func(a *string) string { return clip(*a) }}
	if byLen {
		f.less = func(a, b *string) bool { return len(*a) < len(*b) }
		f.sort = func(s []string) { sorty.SortLen(named(s)) }
		f.check = func(s []string) int { return sorty.IsSortedLen(named(s)) }
	} else {
		f.less = func(a, b *string) bool { return *a < *b }
		f.sort = func(s []string) { sorty.SortSlice(named(s)) }
		f.check = func(s []string) int { return sorty.IsSortedSlice(named(s)) }
	}
	return f
}

func buildStrs(c *cases.Case, named func([]string) any) *coll[string] {
	ranks := c.MaterializeRanks()
	d := maxRank(ranks) + 1
	vals := rawStrs(cases.NewRng(c.Seed, 9), c.Pool, d)
	sorted(vals, func(a, b string) bool { return a < b })
	s := make([]string, len(ranks))
	for i, r := range ranks {
		s[i] = vals[max(r, 0)]
		if cases.Mix(c.Seed+uint64(i)*13)&1 == 0 {
			s[i] = strings.Clone(s[i])
		}
	}
	return &coll[string]{s, strFns(false, named)}
}

func bytesLess(a, b []byte) bool { // independent bytewise comparison
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func bytesFns(named func([][]byte) any) *fns[[]byte] {
	return &fns[[]byte]{
		less:  func(a, b *[]byte) bool { return bytesLess(*a, *b) },
		id:    func(a *[]byte) [2]uint64 { return hdrID(unsafe.Pointer(a)) },
		sort:  func(s [][]byte) { sorty.SortSlice(named(s)) },
		check: func(s [][]byte) int { return sorty.IsSortedSlice(named(s)) },
		show:  func(a *[]byte) string { return clip(string(*a)) },
	}
}

func buildBytes(c *cases.Case, named func([][]byte) any) *coll[[]byte] {
	ranks := c.MaterializeRanks()
	d := maxRank(ranks) + 1
	vals := rawStrs(cases.NewRng(c.Seed, 9), c.Pool, d)
	sorted(vals, func(a, b string) bool { return a < b })
	s := make([][]byte, len(ranks))
	share := map[int][]byte{}
	for i, r := range ranks {
		r = max(r, 0)
		h := cases.Mix(c.Seed + uint64(i)*13)
		if vals[r] == "" {
			switch h % 3 {
			case 0:
				s[i] = nil
			case 1:
				s[i] = []byte{}
			default:
				s[i] = make([]byte, 0, 1+h%7)
			}
			continue
		}
		if p, ok := share[r]; ok && h&3 == 0 {
			s[i] = p
			continue
		}
		b := make([]byte, len(vals[r]), len(vals[r])+int(h>>8%5))
		copy(b, vals[r])
		s[i] = b
		share[r] = b
	}
	return &coll[[]byte]{s, bytesFns(named)}
}

const lenBuf = 1 << 16

func lenFns[T any](named func([][]T) any) *fns[[]T] {
	return &fns[[]T]{
		less:  func(a, b *[]T) bool { return len(*a) < len(*b) },
		id:    func(a *[]T) [2]uint64 { return hdrID(unsafe.Pointer(a)) },
		sort:  func(s [][]T) { sorty.SortLen(named(s)) },
		check: func(s [][]T) int { return sorty.IsSortedLen(named(s)) },
		show:  func(a *[]T) string { return fmt.Sprintf("len %d cap %d", len(*a), cap(*a)) },
	}
}

func buildLens[T any](c *cases.Case, named func([][]T) any) *coll[[]T] {
	ranks := c.MaterializeRanks()
	d := maxRank(ranks) + 1
	var z T
	lim := lenBuf / 2
	if unsafe.Sizeof(z) == 0 {
		lim = math.MaxInt
	}
	lens := rawLens(cases.NewRng(c.Seed, 10), c.Pool, d, lim)
	sorted(lens, func(a, b int) bool { return a < b })
	var buf []T
	if unsafe.Sizeof(z) != 0 {
		buf = make([]T, lenBuf)
	}
	s := make([][]T, len(ranks))
	for i, r := range ranks {
		l := lens[max(r, 0)]
		h := cases.Mix(c.Seed + uint64(i)*17)
		switch {
		case unsafe.Sizeof(z) == 0:
			s[i] = make([]T, l)
		case l == 0 && h&3 == 0:
			s[i] = nil
		default:
			off := int(h>>1) & (lenBuf/2 - 1)
			s[i] = buf[off : off+l : min(off+l+int(h>>33)%3, lenBuf)]
		}
	}
	return &coll[[]T]{s, lenFns(named)}
}

var bigStr string

func buildLenStr(c *cases.Case, named func([]string) any) *coll[string] {
	ranks := c.MaterializeRanks()
	d := maxRank(ranks) + 1
	if bigStr == "" {
		bigStr = strings.Repeat("sorty-len-", lenBuf/10+1)
	}
	lens := rawLens(cases.NewRng(c.Seed, 10), c.Pool, d, lenBuf/2)
	sorted(lens, func(a, b int) bool { return a < b })
	s := make([]string, len(ranks))
	for i, r := range ranks {
		off := int(cases.Mix(c.Seed+uint64(i)*17)>>1) & (lenBuf/2 - 1)
		s[i] = bigStr[off : off+lens[max(r, 0)]]
	}
	return &coll[string]{s, strFns(true, named)}
}

// Node is what pointer elements point to.
type Node struct {
	ID, Chk uint64
	Pay     [3]uint64
}

func ptrFns(named func([]*Node) any) *fns[*Node] {
	return &fns[*Node]{
		less:  func(a, b **Node) bool { return uintptr(unsafe.Pointer(*a)) < uintptr(unsafe.Pointer(*b)) },
		id:    func(a **Node) [2]uint64 { return [2]uint64{uint64(uintptr(unsafe.Pointer(*a))), 3} },
		sort:  func(s []*Node) { sorty.SortSlice(named(s)) },
		check: func(s []*Node) int { return sorty.IsSortedSlice(named(s)) },
		show:  func(a **Node) string { return fmt.Sprintf("%p", *a) },
	}
}

func buildPtrs(c *cases.Case, named func([]*Node) any) *coll[*Node] {
	ranks := c.MaterializeRanks()
	d := maxRank(ranks) + 1
	at := nodes(c.Pool, d, cases.Mix(c.Seed+3))
	s := make([]*Node, len(ranks))
	for i, r := range ranks {
		if r <= 0 && cases.Mix(c.Seed)&1 == 0 {
			continue // nil pointers are smallest
		}
		s[i] = at(max(r, 0))
	}
	return &coll[*Node]{s, ptrFns(named)}
}

// PtrPools lists where the objects lie that pointers refer to.
var PtrPools = []string{"heap", "heap", "high", "2G", "4G", "mixed"}

// fixed regions outside of the heap, nil if there is no such
var ptrRegions = sync.OnceValue(func() map[string][]Node {
	const size = 1 << 21
	m := map[string][]Node{}
	add := func(name string, hint uintptr) {
		no := uintptr(syscall.SYS_MMAP)
		if unsafe.Sizeof(hint) == 4 {
			no = 192 // mmap2
		}
		a, _, e := syscall.Syscall6(no, hint, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE, ^uintptr(0), 0)
		if e == 0 {
			m[name] = unsafe.Slice((*Node)(*(*unsafe.Pointer)(unsafe.Pointer(&a))), size/int(unsafe.Sizeof(Node{})))
		}
	}
	add("high", 0)
	add("2G", 1<<31-size/2)
	if h := uint64(1<<32 - size/2); uint64(uintptr(h)) == h {
		add("4G", uintptr(h))
	}
	return m
})

// nodes returns d objects by ascending address.
func nodes(pool string, d int, seed uint64) func(int) *Node {
	reg := ptrRegions()
	if v := reg[pool]; len(v) >= d && len(v) > 0 {
		if seed&1 == 0 { // around the middle
			v = v[(len(v)-d)/2:]
		} else { // far apart
			k := len(v) / max(d, 1)
			return func(i int) *Node { return &v[i*k] }
		}
		return func(i int) *Node { return &v[i] }
	}
	arena := make([]Node, d)
	if pool == "mixed" {
		all := make([]*Node, d)
		r := cases.NewRng(seed, 3)
		var from [][]Node
		for _, name := range []string{"high", "2G", "4G"} {
			if v := reg[name]; len(v) >= d {
				from = append(from, v)
			}
		}
		from = append(from, arena)
		for i := range all {
			all[i] = &from[r.Intn(len(from))][i]
		}
		slices.SortFunc(all, func(a, b *Node) int {
			return cmp.Compare(uintptr(unsafe.Pointer(a)), uintptr(unsafe.Pointer(b)))
		})
		return func(i int) *Node { return all[i] }
	}
	return func(i int) *Node { return &arena[i] }
}

// plain/named conversions per kind

var valueKinds = map[string]func(c *cases.Case) Subject{
	"int": func(c *cases.Case) Subject {
		return buildInts(c, pick(c, same[int], func(s []int) any { return SInt(s) }, func(s []int) any { return castSlice[int, NInt](s) }))
	},
	"int32": func(c *cases.Case) Subject {
		return buildInts(c, pick(c, same[int32], func(s []int32) any { return castSlice[int32, NInt32](s) }, func(s []int32) any { return SNInt32(castSlice[int32, NInt32](s)) }))
	},
	"int64": func(c *cases.Case) Subject {
		return buildInts(c, pick(c, same[int64], func(s []int64) any { return SInt64(s) }))
	},
	"uint": func(c *cases.Case) Subject {
		return buildInts(c, pick(c, same[uint], func(s []uint) any { return SUint(s) }))
	},
	"uint32": func(c *cases.Case) Subject {
		return buildInts(c, pick(c, same[uint32], func(s []uint32) any { return SNUint32(castSlice[uint32, NUint32](s)) }))
	},
	"uint64": func(c *cases.Case) Subject {
		return buildInts(c, pick(c, same[uint64], func(s []uint64) any { return SUint64(s) }))
	},
	"uintptr": func(c *cases.Case) Subject {
		return buildInts(c, pick(c, same[uintptr], func(s []uintptr) any { return SUintptr(s) }))
	},
	"float32": func(c *cases.Case) Subject {
		return buildFloats(c, pick(c, same[float32], func(s []float32) any { return SF32(s) }, func(s []float32) any { return castSlice[float32, NF32](s) }))
	},
	"float64": func(c *cases.Case) Subject {
		return buildFloats(c, pick(c, same[float64], func(s []float64) any { return SNF64(castSlice[float64, NF64](s)) }))
	},
	"string": func(c *cases.Case) Subject {
		return buildStrs(c, pick(c, same[string], func(s []string) any { return SStr(s) }, func(s []string) any { return SNStr(castSlice[string, NStr](s)) }))
	},
	"bytes": func(c *cases.Case) Subject {
		return buildBytes(c, pick(c, same[[]byte], func(s [][]byte) any { return SBytes(s) }, func(s [][]byte) any { return SNBytes(castSlice[[]byte, NBytes](s)) }))
	},
	"ptr": func(c *cases.Case) Subject {
		return buildPtrs(c, pick(c, same[*Node], func(s []*Node) any { return SPtr(s) }, func(s []*Node) any { return SNPtr(castSlice[*Node, NPtr](s)) }))
	},
	"unsafeptr": func(c *cases.Case) Subject {
		return buildPtrs(c, pick(c, func(s []*Node) any { return castSlice[*Node, unsafe.Pointer](s) },
			func(s []*Node) any { return SUnsafe(castSlice[*Node, unsafe.Pointer](s)) },
			func(s []*Node) any { return SNUnsafe(castSlice[*Node, NUnsafe](s)) }))
	},
	"len:string": func(c *cases.Case) Subject {
		return buildLenStr(c, pick(c, same[string], func(s []string) any { return SNStr(castSlice[string, NStr](s)) }))
	},
	"len:byte": func(c *cases.Case) Subject {
		return buildLens(c, pick(c, same[[]byte], func(s [][]byte) any { return SNBytes(castSlice[[]byte, NBytes](s)) }))
	},
	"len:struct{}": func(c *cases.Case) Subject { return buildLens(c, same[[]struct{}]) },
	"len:int64": func(c *cases.Case) Subject {
		return buildLens(c, pick(c, same[[]int64], func(s [][]int64) any { return SLenInt64(s) }))
	},
	"len:str":    func(c *cases.Case) Subject { return buildLens(c, same[[]string]) },
	"len:ptr":    func(c *cases.Case) Subject { return buildLens(c, same[[]*Node]) },
	"len:any":    func(c *cases.Case) Subject { return buildLens(c, same[[]any]) },
	"len:arr":    func(c *cases.Case) Subject { return buildLens(c, same[[][3]uint16]) },
	"len:slices": func(c *cases.Case) Subject { return buildLens(c, same[[][]byte]) },
	"len:map":    func(c *cases.Case) Subject { return buildLens(c, same[[]map[int]int]) },
	"len:func":   func(c *cases.Case) Subject { return buildLens(c, same[[]func()]) },
}

func same[T any](s []T) any { return s }

// pick chooses the plain type or one of the named equivalents.
func pick[T any](c *cases.Case, plain func([]T) any, named ...func([]T) any) func([]T) any {
	if !c.Named {
		return plain
	}
	return named[cases.Mix(c.Seed+5)%uint64(len(named))]
}

var (
	IntKinds    = []string{"int", "int32", "int64", "uint", "uint32", "uint64", "uintptr"}
	FloatKinds  = []string{"float32", "float64"}
	StrKinds    = []string{"string", "bytes"}
	PtrKinds    = []string{"ptr", "unsafeptr"}
	LenKinds    = []string{"len:string", "len:byte", "len:struct{}", "len:int64", "len:str", "len:ptr", "len:any", "len:arr", "len:slices", "len:map", "len:func"}
	NativeKinds = append(append(append(append([]string(nil), IntKinds...), FloatKinds...), StrKinds...), "len:string", "len:byte", "len:struct{}", "len:int64")
)

func isFC(kind string) bool {
	switch kind {
	case "string", "bytes", "lsw":
		return true
	}
	return false
}

// BuildSubject builds the subject of a case.
func BuildSubject(c *cases.Case) Subject {
	if c.Kind == "lsw" {
		return newLsw(c)
	}
	f := valueKinds[c.Kind]
	if f == nil {
		panic("harness: unknown kind " + c.Kind)
	}
	return f(c)
}

// PoolsOf lists the value pools of a kind.
func PoolsOf(kind string) []string {
	switch {
	case strings.HasPrefix(kind, "len:"):
		return LenPools
	case kind == "string" || kind == "bytes":
		return StrPools
	case strings.HasPrefix(kind, "float"):
		return FloatPools
	case kind == "ptr" || kind == "unsafeptr":
		return PtrPools
	case kind == "lsw":
		return []string{"-"}
	}
	return IntPools
}

var _ = reflect.TypeOf
