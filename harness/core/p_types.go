package core

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

type (
	nByte   byte
	nBool   bool
	nStruct struct {
		A int32
		B string
	}
	nIface  interface{ M() }
	nFunc   func(int) int
	nMap    map[string]int
	nChan   chan int
	nArr    [4]int64
	nPtrInt *int
	nI8     int8
	nI16    int16
	nU8     uint8
	nU16    uint16
	nC64    complex64
	nC128   complex128
	nUint   uint
	nI64    int64
	nU64    uint64
	nUp     uintptr
	nSlice  []int32
	nBytes2 []nByte
)

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var validElems = []reflect.Type{
	typeOf[int](), typeOf[int32](), typeOf[int64](), typeOf[uint](), typeOf[uint32](), typeOf[uint64](), typeOf[uintptr](),
	typeOf[float32](), typeOf[float64](), typeOf[string](), typeOf[[]byte](), typeOf[unsafe.Pointer](),
	typeOf[NInt](), typeOf[NInt32](), typeOf[nI64](), typeOf[nUint](), typeOf[NUint32](), typeOf[nU64](), typeOf[nUp](),
	typeOf[NF32](), typeOf[NF64](), typeOf[NStr](), typeOf[NBytes](), typeOf[nBytes2](), typeOf[[]nByte](), typeOf[NUnsafe](), typeOf[nPtrInt](),
}

var otherElems = []reflect.Type{
	typeOf[bool](), typeOf[int8](), typeOf[int16](), typeOf[uint8](), typeOf[uint16](), typeOf[complex64](), typeOf[complex128](),
	typeOf[nBool](), typeOf[nI8](), typeOf[nI16](), typeOf[nU8](), typeOf[nU16](), typeOf[nC64](), typeOf[nC128](),
	typeOf[nStruct](), typeOf[nIface](), typeOf[any](), typeOf[nFunc](), typeOf[nMap](), typeOf[nChan](), typeOf[nArr](),
	typeOf[struct{}](), typeOf[[0]int](), typeOf[[1]int32](), typeOf[error](), typeOf[nSlice](),
}

// genType draws a type from the grammar.
func genType(r *cases.Rng, depth int) reflect.Type {
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(4)
	}
	switch {
	case k < 2:
		return cases.Pick(r, validElems...)
	case k < 4:
		return cases.Pick(r, otherElems...)
	}
	switch r.Intn(8) {
	case 0, 1:
		return reflect.SliceOf(genType(r, depth-1))
	case 2, 3:
		return reflect.PointerTo(genType(r, depth-1))
	case 4:
		return reflect.ArrayOf(r.Intn(4), genType(r, depth-1))
	case 5:
		return reflect.MapOf(cases.Pick(r, typeOf[int](), typeOf[string](), typeOf[NInt]()), genType(r, depth-1))
	case 6:
		return reflect.ChanOf(reflect.BothDir, typeOf[int32]())
	}
	return reflect.StructOf([]reflect.StructField{{Name: "A", Type: genType(r, depth-1)}, {Name: "B", Type: typeOf[int]()}})
}

// documented tells whether the documentation lists an equivalent type for the entry point.
func documented(t reflect.Type, byLen bool) bool {
	if t == nil || t.Kind() != reflect.Slice {
		return false
	}
	e := t.Elem()
	if byLen {
		return e.Kind() == reflect.String || e.Kind() == reflect.Slice
	}
	switch e.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.String, reflect.UnsafePointer, reflect.Pointer:
		return true
	case reflect.Slice:
		return e.Elem().Kind() == reflect.Uint8
	}
	return false
}

func pointerFree(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8,
		reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		return true
	case reflect.Array:
		return pointerFree(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !pointerFree(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}

var someObjects [64]uint64

func fillValue(r *cases.Rng, v reflect.Value) {
	t := v.Type()
	switch {
	case t.Kind() == reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case pointerFree(t) && t.Kind() != reflect.Struct && t.Kind() != reflect.Array:
		b := unsafe.Slice((*byte)(v.Addr().UnsafePointer()), t.Size())
		for i := range b {
			b[i] = byte(r.U64())
		}
		if r.Intn(3) == 0 { // small values, so that ties occur
			for i := range b {
				b[i] = 0
			}
			b[r.Intn(len(b))] = byte(r.Intn(3))
		}
	case t.Kind() == reflect.String:
		v.SetString(rawStrs(r, "words", 1)[0])
	case t.Kind() == reflect.Slice:
		n := r.Intn(6)
		if r.Intn(5) != 0 {
			s := reflect.MakeSlice(t, n, n+r.Intn(3))
			for i := 0; i < n && pointerFree(t.Elem()); i++ {
				fillValue(r, s.Index(i))
			}
			v.Set(s)
		}
	case t.Kind() == reflect.Pointer:
		if r.Intn(6) != 0 {
			v.Set(reflect.New(t.Elem()).Convert(t))
		}
	case t.Kind() == reflect.UnsafePointer:
		v.SetPointer(unsafe.Pointer(&someObjects[r.Intn(len(someObjects))]))
	case t.Kind() == reflect.Array:
		for i := 0; i < t.Len(); i++ {
			fillValue(r, v.Index(i))
		}
	case t.Kind() == reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillValue(r, v.Field(i))
			}
		}
	case t.Kind() == reflect.Interface && t.NumMethod() == 0:
		v.Set(reflect.ValueOf(r.Intn(9)))
	}
}

// elemLess is the oracle's order of a documented type.
func elemLess(a, b reflect.Value, byLen bool) bool {
	if byLen {
		return a.Len() < b.Len()
	}
	switch k := a.Kind(); {
	case k == reflect.Float32 || k == reflect.Float64:
		x, y := a.Float(), b.Float()
		return x < y || x == x && y != y
	case k == reflect.String:
		return bytesLess([]byte(a.String()), []byte(b.String()))
	case k == reflect.Slice:
		return bytesLess(a.Bytes(), b.Bytes())
	case k == reflect.Pointer || k == reflect.UnsafePointer:
		return a.Pointer() < b.Pointer()
	case k == reflect.Int || k == reflect.Int32 || k == reflect.Int64:
		return a.Int() < b.Int()
	}
	return a.Uint() < b.Uint()
}

func rawElems(v reflect.Value) [][]byte {
	sz := v.Type().Elem().Size()
	out := make([][]byte, v.Len())
	p := v.UnsafePointer()
	for i := range out {
		out[i] = append([]byte(nil), unsafe.Slice((*byte)(unsafe.Add(p, uintptr(i)*sz)), sz)...)
	}
	return out
}

func sameElems(a, b [][]byte, anyOrder bool) bool {
	if len(a) != len(b) {
		return false
	}
	if anyOrder {
		a, b = append([][]byte(nil), a...), append([][]byte(nil), b...)
		less := func(s [][]byte) func(i, j int) bool {
			return func(i, j int) bool { return bytes.Compare(s[i], s[j]) < 0 }
		}
		sort.Slice(a, less(a))
		sort.Slice(b, less(b))
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func runTypes(x *Ctx, c *cases.Case) *Violation {
	setup(c)
	r := cases.NewRng(c.Seed, 71)
	fn := int(c.Get("fn"))
	byLen := fn >= 2
	names := []string{"SortSlice", "IsSortedSlice", "SortLen", "IsSortedLen"}
	var t reflect.Type
	switch c.Get("outer") {
	case 0: // documented element
		t = reflect.SliceOf(cases.Pick(r, validElems...))
	case 1:
		t = cases.Pick(r, typeOf[SInt](), typeOf[SInt64](), typeOf[SUint](), typeOf[SUint64](), typeOf[SNUint32](), typeOf[SNInt32](),
			typeOf[SUintptr](), typeOf[SF32](), typeOf[SNF64](), typeOf[SStr](), typeOf[SNStr](), typeOf[SBytes](), typeOf[SNBytes](),
			typeOf[SPtr](), typeOf[SUnsafe](), typeOf[SNUnsafe](), typeOf[SNPtr](), typeOf[SLenInt64]())
	case 2:
		t = reflect.SliceOf(cases.Pick(r, otherElems...))
	case 3:
		t = genType(r, 3)
	case 4:
		t = reflect.SliceOf(reflect.SliceOf(genType(r, 1)))
	case 5:
		t = reflect.ArrayOf(r.Intn(5), cases.Pick(r, validElems...))
	case 6:
		t = reflect.PointerTo(reflect.SliceOf(cases.Pick(r, validElems...)))
	default:
		t = reflect.SliceOf(genType(r, 2))
	}
	var v reflect.Value
	isNil := c.Get("nil") != 0
	var arg any
	if c.Get("untyped") != 0 {
		t = nil
		x.Label("nil argument")
	} else {
		v = reflect.New(t).Elem()
		switch {
		case t.Kind() == reflect.Slice && !isNil:
			v.Set(reflect.MakeSlice(t, c.N, c.N+r.Intn(3)))
			for i := 0; i < c.N; i++ {
				fillValue(r, v.Index(i))
			}
		case t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Slice && !isNil:
			p := reflect.New(t.Elem())
			p.Elem().Set(reflect.MakeSlice(t.Elem(), 3, 3))
			for i := 0; i < 3; i++ {
				fillValue(r, p.Elem().Index(i))
			}
			v.Set(p.Convert(t))
		case t.Kind() == reflect.Map && !isNil:
			v.Set(reflect.MakeMap(t))
		case t.Kind() != reflect.Slice && !isNil:
			fillValue(r, v)
		}
		arg = v.Interface() // for interface types this is the dynamic value: nil or not
		t = reflect.TypeOf(arg)
		if t != nil {
			v = reflect.ValueOf(arg)
		}
	}
	ok := documented(t, byLen)
	what := fmt.Sprintf("%s on %v", names[fn], t)
	slice := t != nil && t.Kind() == reflect.Slice
	x.NonTrivial = !ok || slice && v.Len() > 1
	if ok {
		x.Label(names[fn] + " documented")
	} else {
		x.Label(names[fn] + " other")
	}
	var before [][]byte
	ordered := true
	if slice {
		before = rawElems(v)
		for i := 1; ok && i < v.Len(); i++ {
			if elemLess(v.Index(i), v.Index(i-1), byLen) {
				ordered = false
			}
		}
	}
	panicked, res := true, 0
	var pv any
	func() {
		defer func() {
			if panicked {
				pv = recover()
			}
		}()
		switch fn {
		case 0:
			sorty.SortSlice(arg)
		case 1:
			res = sorty.IsSortedSlice(arg)
		case 2:
			sorty.SortLen(arg)
		default:
			res = sorty.IsSortedLen(arg)
		}
		panicked = false
	}()
	if ok && panicked {
		return &Violation{Msg: fmt.Sprintf("%s (documented) panicked: %v", what, pv)}
	}
	if !ok && !panicked {
		return &Violation{Msg: fmt.Sprintf("%s (not documented) did not panic", what)}
	}
	if !slice {
		return nil
	}
	after := rawElems(v)
	sorting := ok && (fn == 0 || fn == 2)
	if !sameElems(before, after, sorting) {
		return &Violation{Msg: fmt.Sprintf("%s changed the elements (n=%d)", what, v.Len())}
	}
	if sorting {
		for i := 1; i < v.Len(); i++ {
			if elemLess(v.Index(i), v.Index(i-1), byLen) {
				return &Violation{Msg: fmt.Sprintf("%s: not ordered as that type at %d: %v | %v", what, i, v.Index(i-1), v.Index(i))}
			}
		}
	} else if ok && ordered != (res == 0) {
		return &Violation{Msg: fmt.Sprintf("%s returned %d, ordered: %v", what, res, ordered)}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C09",
		Gen: func(r *cases.Rng, c *cases.Case) {
			c.Set("fn", int64(r.Intn(4)))
			c.Set("outer", int64(r.Intn(8)))
			c.N = cases.Pick(r, 0, 1, 2, r.Intn(20), r.Intn(200), 700)
			if r.Intn(8) == 0 {
				c.Set("nil", 1)
			}
			if r.Intn(40) == 0 {
				c.Set("untyped", 1)
			}
		},
		Run: runTypes})
}
