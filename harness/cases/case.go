package cases

import (
	"encoding/json"
	"fmt"
)

// Sched describes an owned schedule.
type Sched struct {
	Policy  string // uniform, pct, newest, oldest, robin
	Quantum int    // mean steps a goroutine runs when picked
	Sync    bool   `json:",omitempty"` // always hand over before synchronizing statements
	Depth   int    // pct change points
	Seed    uint64
	Events  []Event `json:",omitempty"` // live MaxGor changes
}

// Event sets MaxGor to Val at scheduler step Step.
type Event struct {
	Step int
	Val  uint64
}

// Case is one generated test case. The run of a case is a pure function of the Case and
// the code under test (for owned schedules and single-goroutine runs).
type Case struct {
	Prop    string
	Variant string
	Idx     int
	Seed    uint64
	Kind    string `json:",omitempty"`
	Named   bool   `json:",omitempty"`
	N       int
	Shape   string `json:",omitempty"`
	A       int    `json:",omitempty"`
	B       int    `json:",omitempty"`
	D       int    `json:",omitempty"`
	Pool    string `json:",omitempty"`
	Order   string `json:",omitempty"`
	// NaNs: how many and where (floats only)
	NaNs     int    `json:",omitempty"`
	NaNStyle string `json:",omitempty"`
	NaN      int    // NaNoption
	Explicit bool   `json:",omitempty"` // Ranks given explicitly (shrunk cases)
	Ranks    []int  `json:",omitempty"`
	MaxGor   uint64
	Procs    int              `json:",omitempty"`
	Tune     []int            `json:",omitempty"` // MaxLenIns, MaxLenInsFC, MaxLenRec, MaxLenRecFC
	Sched    *Sched           `json:",omitempty"`
	X        map[string]int64 `json:",omitempty"`
	S        string           `json:",omitempty"`
	Sub      string           `json:",omitempty"` // the property a C20 case comes from
}

func (c *Case) Get(k string) int64 { return c.X[k] }
func (c *Case) Set(k string, v int64) {
	if c.X == nil {
		c.X = map[string]int64{}
	}
	c.X[k] = v
}

func (c *Case) JSON() string {
	b, err := json.Marshal(c)
	if err != nil {
		return fmt.Sprint(err)
	}
	return string(b)
}

func (c *Case) Clone() *Case {
	var d Case
	b, _ := json.Marshal(c)
	json.Unmarshal(b, &d)
	return &d
}

// Hash identifies the content of a case, regardless of its index and seed usage.
func (c *Case) Hash() uint64 {
	d := *c
	d.Idx = 0
	return HashStr(d.JSON())
}

// NaNRank is the rank of a NaN element.
const NaNRank = -1

// MaterializeRanks returns the ranks (relative order) of the elements: c.Ranks if explicit, otherwise
// generated from Shape. Rank NaNRank stands for a NaN.
func (c *Case) MaterializeRanks() []int {
	if c.Explicit {
		return append([]int(nil), c.Ranks...)
	}
	r := NewRng(c.Seed, HashStr("ranks"))
	v := shape(r, c)
	n := len(v)
	if c.NaNs > 0 && n > 0 {
		k := c.NaNs
		if k > n {
			k = n
		}
		switch c.NaNStyle {
		case "front":
			for i := 0; i < k; i++ {
				v[i] = NaNRank
			}
		case "back":
			for i := 0; i < k; i++ {
				v[n-1-i] = NaNRank
			}
		case "even":
			for i := 0; i < k; i++ {
				v[i*n/k] = NaNRank
			}
		case "middle":
			for i := 0; i < k; i++ {
				v[(n-k)/2+i] = NaNRank
			}
		case "ends":
			for i := 0; i < k; i++ {
				if i&1 == 0 {
					v[i/2] = NaNRank
				} else {
					v[n-1-i/2] = NaNRank
				}
			}
		default:
			for i := 0; i < k; i++ {
				v[r.Intn(n)] = NaNRank
			}
		}
	}
	return v
}

// Shapes lists the arrangement generators, regular ones first.
var RegularShapes = []string{"random", "perm", "equal", "sorted", "reversed", "organpipe", "valley", "sawtooth",
	"revsaw", "fewswaps", "rotated", "blocks", "zipf", "twoval", "almostequal", "headtail", "halves", "interleave"}

// AllShapes adds irregular, adversarial arrangements.
var AllShapes = append(append([]string(nil), RegularShapes...), "samples", "killer", "skew")

func shape(r *Rng, c *Case) []int {
	n, D, A, B := c.N, c.D, c.A, c.B
	if n < 0 {
		n = 0
	}
	v := make([]int, n)
	if n == 0 {
		return v
	}
	if D < 1 {
		D = n
	}
	if A < 1 {
		A = 1
	}
	if B < 1 {
		B = 1
	}
	sorted := func() {
		for i := range v {
			v[i] = i * D / n
		}
	}
	switch c.Shape {
	case "perm":
		copy(v, r.Perm(n))
	case "equal":
	case "sorted":
		sorted()
	case "reversed":
		for i := range v {
			v[i] = (n - 1 - i) * D / n
		}
	case "organpipe":
		for i := range v {
			v[i] = min(i, n-1-i)
		}
	case "valley":
		for i := range v {
			v[i] = n/2 - min(i, n-1-i)
		}
	case "sawtooth":
		for i := range v {
			v[i] = i % (A + 1)
		}
	case "revsaw":
		for i := range v {
			v[i] = A - i%(A+1)
		}
	case "fewswaps":
		sorted()
		for k := 0; k < A; k++ {
			i, j := r.Intn(n), r.Intn(n)
			v[i], v[j] = v[j], v[i]
		}
	case "rotated":
		for i := range v {
			v[i] = (i + A) % n * D / n
		}
	case "blocks":
		nb := (n + A - 1) / A
		p := r.Perm(nb)
		for i := range v {
			v[i] = p[i/A]*A + i%A
		}
	case "zipf":
		for i := range v {
			x := r.Float()
			v[i] = int(float64(D) * x * x * x * x)
		}
	case "twoval":
		for i := range v {
			if r.Intn(1+A+B) < A {
				v[i] = 1
			}
		}
	case "almostequal":
		for i := range v {
			v[i] = 2
		}
		for k := 0; k < A && k < n; k++ {
			v[r.Intn(n)] = Pick(r, 0, 1, 3, 4)
		}
	case "headtail":
		sorted()
		for k := 0; k < A && k < n; k++ {
			if B&1 == 0 {
				v[n-1-k] = r.Intn(D)
			} else {
				v[k] = r.Intn(D)
			}
		}
	case "halves":
		h := n / 2
		for i := range v {
			if i < h {
				v[i] = 2 * i
			} else {
				v[i] = 2*(i-h) + 1
			}
			if A&1 == 1 {
				v[i] = n - v[i]
				if v[i] < 0 {
					v[i] = 0
				}
			}
		}
	case "interleave":
		for i := range v {
			if i&1 == 0 {
				v[i] = i
			} else {
				v[i] = n - i
			}
		}
	case "samples": // extreme values at equidistant positions
		for i := range v {
			v[i] = 1 + r.Intn(D)
		}
		k := 3 + A%6
		step := max(n/k, 1)
		off := B % step
		ext := Pick(r, 0, D+1)
		for i := off; i < n; i += step {
			v[i] = ext
			if d := r.Intn(3); d == 0 && i > 0 {
				v[i-1] = ext
			} else if d == 1 && i < n-1 {
				v[i+1] = ext
			}
			if c.A&8 != 0 {
				ext = Pick(r, 0, D+1)
			}
		}
	case "killer":
		return killer(n, A, int(c.Get("krec")), c.Get("kfc") != 0, r)
	case "skew":
		// few elements below everything, placed so that samples often see them
		for i := range v {
			v[i] = A + r.Intn(D)
		}
		for k := 0; k < A && k < n; k++ {
			v[r.Intn(n)] = k
		}
	default: // random
		for i := range v {
			v[i] = r.Intn(D)
		}
	}
	return v
}
