package core

import (
	"math"
	"sort"
	"unsafe"

	"verif/harness/cases"
)

// rawInts returns d raw bit patterns (w = 32 or 64 bits) from a pool.
func rawInts(r *cases.Rng, pool string, d int, w uint) []uint64 {
	v := make([]uint64, d)
	mask := ^uint64(0) >> (64 - w)
	top := uint64(1) << (w - 1)
	switch pool {
	case "small":
		off := uint64(r.Intn(2*d + 1))
		if r.Intn(2) == 0 {
			off = uint64(r.Intn(2))
		}
		for i := range v {
			v[i] = uint64(i) - off
		}
	case "extremes":
		for i := range v {
			x := uint64(r.Intn(d/2 + 2))
			switch r.Intn(6) {
			case 0:
				v[i] = top + x
			case 1:
				v[i] = top - 1 - x
			case 2:
				v[i] = x
			case 3:
				v[i] = -x
			case 4:
				v[i] = top / 2 * uint64(r.Intn(4))
			default:
				v[i] = mask - x
			}
		}
	case "high":
		for i := range v {
			v[i] = r.U64() << (w / 2)
		}
	case "low":
		base := r.U64()
		sh := uint(r.Intn(int(w) - 8))
		for i := range v {
			v[i] = base ^ (r.U64()&0xff)<<sh
		}
	case "bits":
		for i := range v {
			v[i] = 1<<uint(r.Intn(int(w))) + uint64(r.Intn(3)) - 1
		}
	case "step":
		st := mask / uint64(d)
		for i := range v {
			v[i] = top + uint64(i)*st
		}
	default: // full
		for i := range v {
			v[i] = r.U64()
		}
	}
	for i := range v {
		v[i] &= mask
	}
	return v
}

// IntPools lists the integer value pools.
var IntPools = []string{"full", "small", "extremes", "high", "low", "bits", "step"}

// FloatPools lists the float value pools (none of them yields a NaN).
var FloatPools = []string{"bits", "unit", "ints", "denormal", "huge", "specials", "zeros", "maxes"}

func rawFloats(r *cases.Rng, pool string, d int, w uint) []float64 {
	v := make([]float64, d)
	maxf := math.MaxFloat64
	tiny := math.SmallestNonzeroFloat64
	if w == 32 {
		maxf, tiny = math.MaxFloat32, math.SmallestNonzeroFloat32
	}
	sgn := func(x float64) float64 {
		if r.Intn(2) == 0 {
			return -x
		}
		return x
	}
	special := func() float64 {
		return sgn(cases.Pick(r, 0, math.Inf(1), maxf, tiny, 1, tiny*3, maxf/2, maxf/3, 1e-30, 0.5, maxf*(1-1.0/(1<<22))))
	}
	for i := range v {
		switch pool {
		case "unit":
			v[i] = r.Float()
		case "ints":
			v[i] = float64(r.Intn(2*d+2) - d)
		case "denormal":
			v[i] = sgn(tiny * float64(r.Intn(d+5)))
		case "huge":
			v[i] = sgn(maxf * (1 - r.Float()*0.6))
		case "maxes":
			v[i] = maxf * (1 - float64(r.Intn(40))/(1<<23))
			if d&1 == 0 {
				v[i] = -v[i]
			}
		case "specials":
			v[i] = special()
			if r.Intn(4) == 0 {
				v[i] = sgn(r.Float() * float64(d))
			}
		case "zeros":
			v[i] = cases.Pick(r, 0, math.Copysign(0, -1), tiny, -tiny)
		default: // bits
			if w == 32 {
				v[i] = float64(math.Float32frombits(uint32(r.U64())))
			} else {
				v[i] = math.Float64frombits(r.U64())
			}
			if v[i] != v[i] {
				v[i] = special()
			}
		}
	}
	return v
}

// StrPools lists the string content pools.
var StrPools = []string{"random", "ab", "prefix", "longprefix", "nul", "high", "utf8", "single", "words", "empty", "deep"}

func rawStrs(r *cases.Rng, pool string, d int) []string {
	v := make([]string, d)
	bytesOf := func(n int, f func() byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = f()
		}
		return string(b)
	}
	any := func() byte { return byte(r.U64()) }
	ab := func() byte { return 'a' + byte(r.Intn(2)) }
	pre := bytesOf(r.Range(20, 120), any)
	if pool == "deep" { // differ only far behind the start
		k := cases.Pick(r, 7, 8, 15, 16, 31, 32, r.Range(250, 260), r.Range(500, 1050), r.Range(4090, 4100), r.Range(65530, 65540))
		for d*k > 1<<23 {
			k /= 2
		}
		pre = bytesOf(k, any)
	}
	for i := range v {
		switch pool {
		case "deep":
			v[i] = pre + bytesOf(r.Intn(3), any)
			if b := []byte(v[i]); r.Intn(4) == 0 && len(b) > 0 {
				b[len(b)-1-r.Intn(min(len(b), 9))]++
				v[i] = string(b)
			}
		case "ab":
			v[i] = bytesOf(r.Intn(24), ab)
		case "prefix":
			v[i] = pre[:r.Intn(len(pre)+1)]
			if r.Intn(3) == 0 {
				v[i] += bytesOf(r.Intn(3), any)
			}
		case "longprefix":
			v[i] = pre + bytesOf(r.Intn(6), any)
		case "nul":
			v[i] = bytesOf(r.Intn(12), func() byte { return byte(r.Intn(2)) })
		case "high":
			v[i] = bytesOf(r.Intn(10), func() byte { return cases.Pick[byte](r, 0x7f, 0x80, 0xff, 0xfe, 0, 'a') })
		case "utf8":
			v[i] = string([]rune{rune(r.Intn(0x3000)), rune(r.Intn(0x10ffff))})
		case "single":
			v[i] = bytesOf(r.Intn(2), any)
		case "words":
			v[i] = cases.Pick(r, "Ab", "ab", "a", "Z", "z", "", "abc", "ABC", "é", "e") + bytesOf(r.Intn(3), ab)
		case "empty":
			v[i] = bytesOf(r.Intn(3)*r.Intn(2), ab)
		default:
			v[i] = bytesOf(r.Intn(13), any)
		}
	}
	return v
}

// LenPools lists the length pools of SortLen.
var LenPools = []string{"small", "full", "pow2", "few", "big"}

// rawLens returns d lengths, at most lim.
func rawLens(r *cases.Rng, pool string, d, lim int) []int {
	v := make([]int, d)
	for i := range v {
		var x int
		switch pool {
		case "small":
			x = i
		case "pow2":
			x = 1<<uint(r.Intn(bitsLen(lim))) + r.Intn(3) - 1
		case "few":
			x = r.Intn(4)
		case "big":
			x = lim - r.Intn(min(lim, 3*d+1))
		default:
			x = int(r.U64()>>1) % (lim/2 + 1) * 2
		}
		if x < 0 {
			x = 0
		}
		if x > lim {
			x = lim
		}
		v[i] = x
	}
	return v
}

func bitsLen(x int) int {
	n := 0
	for ; x > 0; x >>= 1 {
		n++
	}
	return n
}

func sorted[T any](v []T, less func(a, b T) bool) []T {
	sort.SliceStable(v, func(i, j int) bool { return less(v[i], v[j]) })
	return v
}

func ptrOf[T any](p *T) uintptr { return uintptr(unsafe.Pointer(p)) }
