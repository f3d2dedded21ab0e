package core

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

// ---- C07

var sink atomic.Pointer[[]byte]

// collect runs the garbage collector continuously and refills freed memory.
func collect(stop *atomic.Bool, done chan struct{}, cycles *int) {
	defer close(done)
	for !stop.Load() {
		runtime.GC()
		*cycles++
		for i := 0; i < 100; i++ {
			b := make([]byte, 16<<(i%3))
			for j := range b {
				b[j] = 0xaa
			}
			sink.Store(&b)
		}
	}
}

// content is a string that carries its own checksum.
func content(id uint64, r int) string {
	return fmt.Sprintf("%06d|%016x|%016x", r, id, cases.Mix(id))
}

func contentOK(s string) bool {
	p := strings.Split(s, "|")
	if len(p) != 3 {
		return false
	}
	id, e1 := strconv.ParseUint(p[1], 16, 64)
	ck, e2 := strconv.ParseUint(p[2], 16, 64)
	return e1 == nil && e2 == nil && cases.Mix(id) == ck
}

type box struct {
	key int
	n   *Node
}

// gcColl is a collection of self-describing objects referenced from nowhere else.
type gcColl struct {
	sub  Subject
	bad  func() string // verifies all objects
	prep func(r *cases.Rng)
}

func newNode(id uint64) *Node {
	return &Node{ID: id, Chk: cases.Mix(id), Pay: [3]uint64{id, id + 1, id + 2}}
}

func nodeBad(n *Node, seen []bool) string {
	if n == nil {
		return "a nil pointer appeared"
	}
	if n.Chk != cases.Mix(n.ID) || n.Pay != [3]uint64{n.ID, n.ID + 1, n.ID + 2} {
		return fmt.Sprintf("object content destroyed: %x", *n)
	}
	if n.ID >= uint64(len(seen)) || seen[n.ID] {
		return fmt.Sprintf("object %d appears twice or is unknown", n.ID)
	}
	seen[n.ID] = true
	return ""
}

func buildGC(c *cases.Case) *gcColl {
	ranks := c.MaterializeRanks()
	n := len(ranks)
	switch c.Kind {
	case "ptr", "unsafeptr":
		s := make([]*Node, n)
		for i := range s {
			s[i] = newNode(uint64(i))
			if i&7 == 3 {
				b := make([]byte, 48)
				sink.Store(&b)
			}
		}
		cast := same[*Node]
		if c.Kind == "unsafeptr" {
			cast = func(s []*Node) any { return castSlice[*Node, unsafe.Pointer](s) }
		}
		return &gcColl{&coll[*Node]{s, ptrFns(cast)}, func() string {
			seen := make([]bool, n)
			for _, p := range s {
				if m := nodeBad(p, seen); m != "" {
					return m
				}
			}
			return ""
		}, func(r *cases.Rng) {
			for i := len(s) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				s[i], s[j] = s[j], s[i]
			}
		}}
	case "string":
		s := make([]string, n)
		for i := range s {
			s[i] = content(uint64(i), ranks[i])
		}
		return &gcColl{&coll[string]{s, strFns(false, same[string])}, func() string {
			for _, v := range s {
				if !contentOK(v) {
					return fmt.Sprintf("string content destroyed: %q", v)
				}
			}
			return ""
		}, func(r *cases.Rng) {
			for i := len(s) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				s[i], s[j] = s[j], s[i]
			}
		}}
	case "bytes", "len:byte":
		s := make([][]byte, n)
		for i := range s {
			s[i] = []byte(content(uint64(i), ranks[i]))
			if c.Kind == "len:byte" { // lengths vary, content stays self-describing
				s[i] = append(s[i], make([]byte, ranks[i]%97)...)
			}
		}
		f := bytesFns(same[[]byte])
		if c.Kind == "len:byte" {
			f = lenFns[byte](same[[]byte])
		}
		return &gcColl{&coll[[]byte]{s, f}, func() string {
			for _, v := range s {
				if !contentOK(strings.TrimRight(string(v), "\x00")) {
					return fmt.Sprintf("byte slice content destroyed: %q", clip(string(v)))
				}
			}
			return ""
		}, func(r *cases.Rng) {
			for i := len(s) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				s[i], s[j] = s[j], s[i]
			}
		}}
	case "len:string":
		s := make([]string, n)
		for i := range s {
			s[i] = content(uint64(i), ranks[i]) + strings.Repeat("\x00", ranks[i]%97)
		}
		return &gcColl{&coll[string]{s, strFns(true, same[string])}, func() string {
			for _, v := range s {
				if !contentOK(strings.TrimRight(v, "\x00")) {
					return fmt.Sprintf("string content destroyed: %q", clip(v))
				}
			}
			return ""
		}, func(r *cases.Rng) {
			for i := len(s) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				s[i], s[j] = s[j], s[i]
			}
		}}
	case "len:ptr":
		s := make([][]*Node, n)
		id := uint64(0)
		for i := range s {
			s[i] = make([]*Node, 1+ranks[i]%5)
			for j := range s[i] {
				s[i][j] = newNode(id)
				id++
			}
		}
		return &gcColl{&coll[[]*Node]{s, lenFns[*Node](same[[]*Node])}, func() string {
			seen := make([]bool, id)
			for _, v := range s {
				for _, p := range v {
					if m := nodeBad(p, seen); m != "" {
						return m
					}
				}
			}
			return ""
		}, func(r *cases.Rng) {
			for i := len(s) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				s[i], s[j] = s[j], s[i]
			}
		}}
	}
	// lesswap over boxes
	s := make([]box, n)
	for i := range s {
		s[i] = box{ranks[i], newNode(uint64(i))}
	}
	f := &fns[box]{
		less: func(a, b *box) bool { return a.key < b.key },
		id:   func(a *box) [2]uint64 { return [2]uint64{uint64(uintptr(unsafe.Pointer(a.n))), uint64(a.key)} },
		sort: func(s []box) {
			sorty.Sort(len(s), func(i, k, r, q int) bool {
				if s[i].key < s[k].key {
					if r != q {
						s[r], s[q] = s[q], s[r]
					}
					return true
				}
				return false
			})
		},
		check: func(s []box) int { return 0 },
		show:  func(a *box) string { return fmt.Sprint(a.key) },
	}
	return &gcColl{&coll[box]{s, f}, func() string {
		seen := make([]bool, n)
		for _, v := range s {
			if m := nodeBad(v.n, seen); m != "" {
				return m
			}
		}
		return ""
	}, func(r *cases.Rng) {
		for i := len(s) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			s[i], s[j] = s[j], s[i]
		}
	}}
}

func runGC(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	g := buildGC(c)
	labels(x, c)
	r := cases.NewRng(c.Seed, 51)
	if c.Kind == "ptr" || c.Kind == "unsafeptr" { // allocated in ascending order
		g.prep(r)
	}
	fp := g.sub.FP()
	ok0, _ := g.sub.Ordered()
	var stop atomic.Bool
	done := make(chan struct{})
	cycles := 0
	if c.Variant == "instr" { // collect between statements
		close(done)
		var count, ran atomic.Int64
		per, lim := c.Get("per"), c.Get("gcs")
		setHook(func(int) {
			if count.Add(1)%per == 0 && ran.Add(1) <= lim {
				runtime.GC()
				b := make([]byte, 48)
				sink.Store(&b)
			}
		})
		defer func() {
			setHook(nil)
			if ran.Load() > 0 && !ok0 {
				x.NonTrivial = true
			}
		}()
	} else {
		go collect(&stop, done, &cycles)
	}
	msg := ""
	for k := int(c.Get("rounds")); k > 0 && msg == ""; k-- {
		if m := safely(g.sub.Sort); m != "" {
			msg = m
			break
		}
		msg = Verdict(g.sub, fp)
		if msg == "" {
			msg = g.bad()
		}
		if k > 1 {
			g.prep(r)
		}
	}
	stop.Store(true)
	<-done
	if msg == "" {
		runtime.GC()
		b := make([]byte, 1<<12)
		sink.Store(&b)
		runtime.GC()
		msg = g.bad()
	}
	x.NonTrivial = cycles > 1 && !ok0
	if msg != "" {
		return &Violation{Msg: "with the collector running: " + msg}
	}
	return nil
}

// ---- C10

const page = 4096

// region is memory between two inaccessible pages.
type region struct {
	all  []byte
	body []byte
}

func newRegion(size int) *region {
	n := (size + page - 1) / page * page
	all, err := syscall.Mmap(-1, 0, n+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("HARNESS mmap: " + err.Error())
	}
	r := &region{all, all[page : page+n]}
	if syscall.Mprotect(all[:page], syscall.PROT_NONE) != nil || syscall.Mprotect(all[page+n:], syscall.PROT_NONE) != nil {
		panic("HARNESS mprotect")
	}
	return r
}

func (r *region) readonly() {
	if syscall.Mprotect(r.body, syscall.PROT_READ) != nil {
		panic("HARNESS mprotect")
	}
}

func (r *region) free() { syscall.Munmap(r.all) }

// place copies s into guarded memory and returns the sub-slice to work on, plus a function that checks the surroundings.
// mode 0: flush with the inaccessible page at the end, 1: flush with the one at the start, 2: inside, with canaries on both
// sides and between length and capacity; in modes 0 the capacity may reach into the inaccessible page.
func place[T any](c *cases.Case, s []T, r *cases.Rng) (t []T, reg *region, around func() string) {
	var z T
	sz := int(unsafe.Sizeof(z))
	n := len(s)
	mode := c.Get("mode")
	pad := 0
	if mode == 2 {
		pad = int(c.Get("pad")) + 1
	}
	reg = newRegion((n + 2*pad + 1) * sz)
	start := 0 // byte offset of the slice in the region
	switch mode {
	case 0:
		start = len(reg.body) - n*sz
	case 2:
		start = pad * sz
	}
	end := start + n*sz
	base := unsafe.Pointer(&reg.body[0])
	// surroundings hold copies of elements
	for off := start - sz; off >= 0 && n > 0; off -= sz {
		*(*T)(unsafe.Add(base, off)) = s[r.Intn(n)]
	}
	for off := end; off+sz <= len(reg.body) && n > 0; off += sz {
		*(*T)(unsafe.Add(base, off)) = s[r.Intn(n)]
	}
	extra := 0
	if c.Get("cap") != 0 {
		extra = int(c.Get("pad"))
		if mode != 0 { // stay inside accessible memory
			extra = min(extra, (len(reg.body)-end)/sz)
		}
	}
	first := base
	if n > 0 {
		first = unsafe.Add(base, start)
	}
	whole := unsafe.Slice((*T)(first), n+extra)
	copy(whole[:n], s)
	snap := append([]byte(nil), reg.body...)
	return whole[:n], reg, func() string {
		for i, b := range reg.body {
			if (i < start || i >= end) && b != snap[i] {
				return fmt.Sprintf("memory outside the slice was written: byte %d relative to its start (the slice has %d bytes)", i-start, end-start)
			}
		}
		return ""
	}
}

// bodiesAt says where the first of the bodies lies, which have tot-1 bytes together: after the inaccessible page, or so that the last
// one ends at the other inaccessible page.
func bodiesAt(c *cases.Case, reg *region, tot int) int {
	if c.Seed&1 == 0 {
		return 0
	}
	return len(reg.body) - tot + 1
}

func runPlaced[T any](x *Ctx, c *cases.Case, co *coll[T]) *Violation {
	r := cases.NewRng(c.Seed, 61)
	// move bodies of strings and byte slices into read-only memory
	var body *region
	switch s := any(co.s).(type) {
	case []string:
		tot := 1
		for _, v := range s {
			tot += len(v)
		}
		body = newRegion(tot)
		off := bodiesAt(c, body, tot)
		for i, v := range s {
			copy(body.body[off:], v)
			s[i] = unsafe.String((*byte)(unsafe.Add(unsafe.Pointer(&body.body[0]), off)), len(v))
			off += len(v)
		}
	case [][]byte:
		tot := 1
		for _, v := range s {
			tot += len(v)
		}
		body = newRegion(tot)
		off := bodiesAt(c, body, tot)
		for i, v := range s {
			copy(body.body[off:], v)
			s[i] = body.body[off : off+len(v) : off+len(v)]
			off += len(v)
		}
	}
	if body != nil {
		body.readonly()
		defer body.free()
	}
	t, reg, around := place(c, co.s, r)
	defer reg.free()
	sub := &coll[T]{t, co.f}
	check := c.S == "check"
	if check {
		if c.Get("order") != 0 {
			sub.refSort()
		}
		reg.readonly()
		x.NonTrivial = sub.Len() > 1
	} else if ok, _ := sub.Ordered(); !ok {
		x.NonTrivial = true
	}
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	m := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				m = fmt.Sprint(e)
				if a, ok := e.(interface{ Addr() uintptr }); ok {
					m = fmt.Sprintf("FAULT at %#x, %d bytes from the start of a slice of %d elements: %v", a.Addr(), int64(a.Addr())-int64(uintptr(unsafe.Pointer(unsafe.SliceData(t)))), len(t), e)
				} else if strings.Contains(m, "invalid memory address") {
					m = "FAULT " + m
				}
			}
		}()
		if check {
			sub.Check()
		} else {
			sub.Sort()
		}
	}()
	if strings.HasPrefix(m, "FAULT") {
		return &Violation{Msg: "access outside the given slice: " + m}
	}
	if m != "" {
		return &Violation{Msg: m, Foreign: true}
	}
	if a := around(); a != "" {
		return &Violation{Msg: a}
	}
	return nil
}

func runContain(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	labels(x, c)
	x.Label(fmt.Sprintf("%s mode %d", c.S, c.Get("mode")))
	switch s := BuildSubject(c).(type) {
	case *coll[int]:
		return runPlaced(x, c, s)
	case *coll[int32]:
		return runPlaced(x, c, s)
	case *coll[int64]:
		return runPlaced(x, c, s)
	case *coll[uint]:
		return runPlaced(x, c, s)
	case *coll[uint32]:
		return runPlaced(x, c, s)
	case *coll[uint64]:
		return runPlaced(x, c, s)
	case *coll[uintptr]:
		return runPlaced(x, c, s)
	case *coll[float32]:
		return runPlaced(x, c, s)
	case *coll[float64]:
		return runPlaced(x, c, s)
	case *coll[string]:
		return runPlaced(x, c, s)
	case *coll[[]byte]:
		return runPlaced(x, c, s)
	case *coll[[]struct{}]:
		return runPlaced(x, c, s)
	case *coll[*Node]:
		defer runtime.KeepAlive(slices.Clone(s.s))
		return runPlaced(x, c, s)
	}
	panic("HARNESS: kind not supported in C10: " + c.Kind)
}

func init() {
	register(&Prop{ID: "C07",
		Gen: func(r *cases.Rng, c *cases.Case) {
			k := cases.Pick(r, "ptr", "ptr", "ptr", "unsafeptr", "unsafeptr", "string", "bytes", "len:byte", "len:string", "len:ptr", "lsw")
			genBase(r, c, k, 6000)
			c.Named = false
			_, rec := limits(c)
			c.N = cases.Pick(r, r.Range(2, 2*rec), r.Range(2*rec, 8*rec), r.Range(1000, 4000), r.Range(50, 1500))
			c.Order = ""
			c.Procs = cases.Pick(r, 2, 4, 8)
			if r.Intn(3) == 0 { // too long to be marked at once
				c.N = r.Range(4000, 30000)
				c.MaxGor = max(c.MaxGor, 2)
			}
			c.Set("rounds", int64(max(3, min(30, 20000/(c.N+1)))))
			if c.Variant == "instr" {
				c.N = cases.Pick(r, r.Range(2, 40), r.Range(2, 3*rec), r.Range(2*rec, 6*rec))
				c.Set("rounds", 2)
				c.Set("gcs", 60)
				c.Set("per", int64(r.Range(1, 10*c.N+200)))
				c.Procs = cases.Pick(r, 2, 2, 4)
			}
		},
		Run: runGC})

	kinds := append(append(append([]string(nil), IntKinds...), FloatKinds...), "string", "string", "bytes", "bytes", "len:string", "len:byte", "len:struct{}", "ptr", "unsafeptr")
	register(&Prop{ID: "C10",
		Gen: func(r *cases.Rng, c *cases.Case) {
			genBase(r, c, cases.Pick(r, kinds...), 6000)
			c.Named = false
			rareLong(r, c, 3000, 1<<19)
			c.S = cases.Pick(r, "sort", "sort", "sort", "check")
			c.Set("mode", int64(cases.Pick(r, 0, 0, 1, 2, 2)))
			c.Set("pad", int64(r.Intn(40)))
			c.Set("cap", int64(r.Intn(2)))
			c.Set("order", int64(cases.Pick(r, 0, 1, 1)))
		},
		Run: runContain})
}
