// Command paramprog starts with whatever parameters were compiled in, and sorts.
package main

import (
	"fmt"
	"os"
	"sort"

	"github.com/jfcg/sorty/v2"
	"verif/harness/cases"
)

func main() {
	fmt.Println("STARTED", sorty.MaxGor, sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC)
	r := cases.NewRng(5)
	bad := func(what string, n int) {
		fmt.Println("UNSORTED", what, n)
		os.Exit(0)
	}
	for _, n := range []int{0, 1, 2, 10, 25, 61, 130, 700, 1300, 3000} {
		a := make([]int, n)
		s := make([]string, n)
		f := make([]float32, n)
		k := make([]uint16, n)
		for i := range a {
			a[i] = int(r.U64())
			s[i] = fmt.Sprint(r.Intn(3 * n))
			f[i] = float32(r.Float())
			k[i] = uint16(r.U64())
		}
		sum := 0
		for _, x := range a {
			sum += x
		}
		sorty.SortSlice(a)
		sorty.SortSlice(f)
		sorty.SortSlice(s)
		if !sort.IntsAreSorted(a) {
			bad("int", n)
		}
		for _, x := range a {
			sum -= x
		}
		if sum != 0 {
			bad("int elements", n)
		}
		if !sort.StringsAreSorted(s) {
			bad("string", n)
		}
		if !sort.SliceIsSorted(f, func(i, j int) bool { return f[i] < f[j] }) {
			bad("float32", n)
		}
		sorty.SortLen(s)
		if !sort.SliceIsSorted(s, func(i, j int) bool { return len(s[i]) < len(s[j]) }) {
			bad("len", n)
		}
		sorty.Sort(n, func(i, j, x, y int) bool {
			if k[i] < k[j] {
				if x != y {
					k[x], k[y] = k[y], k[x]
				}
				return true
			}
			return false
		})
		if !sort.SliceIsSorted(k, func(i, j int) bool { return k[i] < k[j] }) {
			bad("lesswap", n)
		}
	}
	fmt.Println("SORTED")
}
