package core

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

// Hook flags passed by instrumented code.
const (
	FlagWork  = 1 // inside a function that moves or compares elements and does no synchronization
	FlagEntry = 2 // first hook of a function call
	FlagSync  = 4 // before a statement that synchronizes
)

// gst is a goroutine seen by the scheduler.
type gst struct {
	g       uintptr
	id      int
	ch      chan struct{}
	quantum int
	prio    uint64
	// what it is parked at
	work bool
	call [4]int
}

// scheduler owns the interleaving of all goroutines in a synctest bubble.
type scheduler struct {
	mu     sync.Mutex
	byG    map[uintptr]*gst
	parked []*gst
	nextID int
	r      *cases.Rng
	sp     *cases.Sched
	off    bool // let everything run freely (draining)
	change map[int]bool
	last   *gst
	low    uint64

	// observations
	Steps    int
	MaxW     int
	Changed  bool // the limit has just been changed
	violated string
	// onQuiet is called whenever all goroutines are parked or blocked
	onQuiet func(s *scheduler)
}

func newScheduler(sp *cases.Sched, horizon int) *scheduler {
	s := &scheduler{byG: map[uintptr]*gst{}, r: cases.NewRng(sp.Seed, 21), sp: sp, low: 1 << 40}
	if sp.Policy == "pct" {
		s.change = map[int]bool{}
		for i := 0; i < sp.Depth; i++ {
			s.change[s.r.Intn(horizon+1)] = true
		}
	}
	return s
}

func (s *scheduler) fail(format string, a ...any) {
	if s.violated == "" {
		s.violated = fmt.Sprintf(format, a...)
	}
}

// point is where goroutines hand over control.
func (s *scheduler) point(work, sync bool, call [4]int) {
	if s.off {
		return
	}
	g := getg()
	s.mu.Lock()
	p := s.byG[g]
	if p == nil {
		p = &gst{g: g, id: s.nextID, ch: make(chan struct{}), prio: s.r.U64() >> 8}
		p.prio += 1 << 41
		s.nextID++
		s.byG[g] = p
	}
	if p.quantum > 0 && !sync {
		p.quantum--
		s.mu.Unlock()
		return
	}
	p.work, p.call = work, call
	s.parked = append(s.parked, p)
	s.mu.Unlock()
	<-p.ch
}

func (s *scheduler) pick() int {
	n := len(s.parked)
	best := 0
	switch s.sp.Policy {
	case "pct":
		for i, p := range s.parked {
			if p.prio > s.parked[best].prio {
				best = i
			}
		}
		if s.change[s.Steps] {
			s.low--
			s.parked[best].prio = s.low
		}
	case "newest":
		for i, p := range s.parked {
			if p.id > s.parked[best].id {
				best = i
			}
		}
	case "oldest":
		for i, p := range s.parked {
			if p.id < s.parked[best].id {
				best = i
			}
		}
	case "robin":
		lastID := -1
		if s.last != nil {
			lastID = s.last.id
		}
		best = -1
		lo := 0
		for i, p := range s.parked {
			if p.id > lastID && (best < 0 || p.id < s.parked[best].id) {
				best = i
			}
			if p.id < s.parked[lo].id {
				lo = i
			}
		}
		if best < 0 {
			best = lo
		}
	case "starve": // the lowest ids run only when nothing else can, except rarely
		for i, p := range s.parked {
			if p.id > s.parked[best].id {
				best = i
			}
		}
		if s.r.Intn(50) == 0 {
			best = s.r.Intn(n)
		}
	default:
		best = s.r.Intn(n)
	}
	return best
}

func (s *scheduler) release(i int, quantum int) {
	p := s.parked[i]
	s.parked[i] = s.parked[len(s.parked)-1]
	s.parked = s.parked[:len(s.parked)-1]
	p.quantum = quantum
	s.last = p
	p.ch <- struct{}{}
}

// W is the number of goroutines parked while working.
func (s *scheduler) W() (w int) {
	for _, p := range s.parked {
		if p.work {
			w++
		}
	}
	return
}

// schedOpt configures RunSched.
type schedOpt struct {
	cap      int                // max scheduler steps
	lsw      *LswColl           // park in its lesswap
	natives  bool               // park in instrumented hooks
	atReturn func() string      // judged immediately when the call returns, on the caller's goroutine
	atEnd    func() string      // judged when all goroutines are gone
	onQuiet  func(s *scheduler) // at each quiescent state
}

// Fatal is called for violations that leave the bubble unusable (blocked goroutines): it must not return.
var Fatal func(v *Violation)

// runSched runs body under the owned schedule of c.
func runSched(t *testing.T, c *cases.Case, body func(), o schedOpt) (s *scheduler, viol string) {
	horizon := c.N * 8
	if c.Sched.Sync {
		horizon = 150
	}
	s = newScheduler(c.Sched, horizon)
	s.onQuiet = o.onQuiet
	var returned bool
	var retErr string
	base := 0
	synctest.Test(t, func(t *testing.T) {
		base = runtime.NumGoroutine()
		if o.lsw != nil {
			o.lsw.hook = func(i, k, r, q int) { s.point(true, false, [4]int{i, k, r, q}) }
		}
		if o.natives {
			setHook(func(f int) { s.point(f&FlagWork != 0, c.Sched.Sync && f&FlagSync != 0, [4]int{}) })
		}
		go func() {
			defer func() {
				if e := recover(); e != nil {
					retErr = fmt.Sprint("panic: ", e)
					returned = true
				}
			}()
			body()
			if o.atReturn != nil {
				retErr = o.atReturn()
			}
			returned = true
		}()
		ev := c.Sched.Events
		for {
			synctest.Wait()
			for len(ev) > 0 && ev[0].Step <= s.Steps {
				sorty.MaxGor = ev[0].Val
				ev = ev[1:]
				if s.onQuiet != nil {
					s.Changed = true
				}
			}
			if s.onQuiet != nil {
				s.onQuiet(s)
			}
			s.Changed = false
			w := s.W()
			s.MaxW = max(s.MaxW, w)
			if returned {
				if w > 0 && retErr == "" {
					s.fail("a goroutine of the call is still working on the collection after the call returned (%d at work)", w)
				}
				break
			}
			if len(s.parked) == 0 {
				s.off = true
				Fatal(&Violation{Msg: "deadlock: the call has not returned and none of its goroutines can run (step " +
					fmt.Sprint(s.Steps) + ")\n" + sortyStacks()})
			}
			if s.violated != "" {
				break
			}
			s.Steps++
			if s.Steps > o.cap {
				Fatal(&Violation{Msg: fmt.Sprintf("no termination: the call still runs after %d scheduled steps", o.cap)})
			}
			q := 0
			if c.Sched.Quantum > 0 {
				q = s.r.Intn(2*c.Sched.Quantum + 1)
			}
			s.release(s.pick(), q)
		}
		// drain: every goroutine of the call must end
		for k := 0; ; k++ {
			if len(s.parked) == 0 {
				break
			}
			s.off = true
			for len(s.parked) > 0 {
				s.release(len(s.parked)-1, 0)
			}
			synctest.Wait()
			if k > 1000000 {
				break
			}
		}
		synctest.Wait()
		setHook(nil)
		if runtime.NumGoroutine() > base {
			if st := sortyStacks(); st != "" {
				m := "goroutines of the call are left behind, blocked forever"
				if s.violated != "" {
					m = s.violated
				}
				Fatal(&Violation{Msg: m + "\n" + st})
			}
		}
	})
	if o.lsw != nil {
		o.lsw.hook = nil
		if p := o.lsw.badIdx.Load(); p != nil && s.violated == "" {
			s.violated = *p
		}
	}
	switch {
	case s.violated != "":
		viol = s.violated
	case retErr != "":
		viol = "at return: " + retErr
	case o.atEnd != nil:
		viol = o.atEnd()
	}
	return
}

// sortyStacks returns the stacks of goroutines inside the package under test.
func sortyStacks() string {
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "jfcg/sorty/v2.") {
			out = append(out, clipLines(g, 14))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

func clipLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

var stepsDone int64

// SetStepBudget makes instrumented code panic after about n statements (used to confirm endless runs). Increments that
// goroutines do at the same time may get lost: this counts too few, never too many.
func SetStepBudget(n int64) {
	stepsDone = 0
	setHook(func(int) {
		if stepsDone++; stepsDone > n {
			panic("PROPERTY statement budget exceeded")
		}
	})
}
