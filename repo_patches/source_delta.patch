From e1c487b006d7f30a58a89c8e82a79c8b7833b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 1/4] fix: sort pointer slices as pointers, not integers

SortSlice() moved elements of []*T / []unsafe.Pointer as uint64/uint32, without
write barriers. A concurrent garbage collection could miss an object whose only
reference was moved and free it while still in the slice.
---
 sorty.go      |   7 +-
 sortyP.go     | 377 ++++++++++++++++++++++++++++++++++++++++++++++++++
 sortySlice.go |   6 +
 3 files changed, 388 insertions(+), 2 deletions(-)
 create mode 100644 sortyP.go

diff --git a/sorty.go b/sorty.go
index 0ca4b2b..58b3946 100644
--- a/sorty.go
+++ b/sorty.go
@@ -149,8 +149,11 @@ func extractSK(ar any) (slc sixb.Slice, kind reflect.Kind) {
 	kind = tipe.Kind()
 
 	switch kind {
-	// map int/uint/pointer types to hardware type
-	case reflect.Uintptr, reflect.Pointer, reflect.UnsafePointer:
+	// pointers must stay visible to garbage collector, not mapped to an integer type
+	case reflect.Pointer, reflect.UnsafePointer:
+		kind = reflect.UnsafePointer
+	// map int/uint types to hardware type
+	case reflect.Uintptr:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uintptr(0))>>3)
 	case reflect.Uint:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
diff --git a/sortyP.go b/sortyP.go
new file mode 100644
index 0000000..ba9a863
--- /dev/null
+++ b/sortyP.go
@@ -0,0 +1,377 @@
+/*	Copyright (c) 2019-present, Serhat Şevki Dinçer.
+	This Source Code Form is subject to the terms of the Mozilla Public
+	License, v. 2.0. If a copy of the MPL was not distributed with this
+	file, You can obtain one at http://mozilla.org/MPL/2.0/.
+*/
+
+package sorty
+
+import (
+	"sync/atomic"
+	"unsafe"
+
+	"github.com/jfcg/sixb"
+)
+
+// isSortedP returns 0 if ar is sorted in ascending
+// order, otherwise it returns i > 0 with ar[i] < ar[i-1], inlined
+func isSortedP(ar []unsafe.Pointer) int {
+	for i := len(ar) - 1; i > 0; i-- {
+		if uintptr(ar[i]) < uintptr(ar[i-1]) {
+			return i
+		}
+	}
+	return 0
+}
+
+// insertion sort, inlined
+func insertionP(slc []unsafe.Pointer) {
+	for h := 1; h < len(slc); h++ {
+		l, val := h, slc[h]
+		var pre unsafe.Pointer
+		goto start
+	loop:
+		slc[l] = pre
+		l--
+		if l == 0 {
+			goto last
+		}
+	start:
+		pre = slc[l-1]
+		if uintptr(val) < uintptr(pre) {
+			goto loop
+		}
+		if l == h {
+			continue
+		}
+	last:
+		slc[l] = val
+	}
+}
+
+// pivotP selects n equidistant samples from slc that minimizes max distance
+// to non-selected members, then calculates median-of-n pivot from samples.
+// Assumes even n, nsConc ≥ n ≥ 2, len(slc) ≥ 2n. Returns pivot for partitioning.
+//
+//go:nosplit
+func pivotP(slc []unsafe.Pointer, n uint) uintptr {
+
+	first, step, _ := minMaxSample(uint(len(slc)), n)
+
+	var sample [nsConc]unsafe.Pointer
+	for i := int(n - 1); i >= 0; i-- {
+		sample[i] = slc[first]
+		first += step
+	}
+	insertionP(sample[:n]) // sort n samples
+
+	n >>= 1 // return mean of middle two samples
+	return uintptr(sixb.MeanU(uint(uintptr(sample[n-1])), uint(uintptr(sample[n]))))
+}
+
+// partition slc, returns k with slc[:k] ≤ pivot ≤ slc[k:]
+// swap: slc[h] < pv ≤ slc[l]
+// swap: slc[h] ≤ pv < slc[l]
+// next: slc[l] ≤ pv ≤ slc[h]
+//
+//go:nosplit
+func partOneP(slc []unsafe.Pointer, pv uintptr) int {
+	l, h := 0, len(slc)-1
+	goto start
+second:
+	for {
+		h--
+		if h <= l {
+			return l
+		}
+		if uintptr(slc[h]) <= pv {
+			break
+		}
+	}
+swap:
+	slc[l], slc[h] = slc[h], slc[l]
+next:
+	l++
+	h--
+start:
+	if h <= l {
+		goto last
+	}
+
+	if pv <= uintptr(slc[h]) { // avoid unnecessary comparisons
+		if pv < uintptr(slc[l]) { // extend ranges in balance
+			goto second
+		}
+		goto next
+	}
+	for {
+		if pv <= uintptr(slc[l]) {
+			goto swap
+		}
+		l++
+		if h <= l {
+			return l + 1
+		}
+	}
+last:
+	if l == h && uintptr(slc[h]) < pv { // classify mid element
+		l++
+	}
+	return l
+}
+
+// swaps elements to get slc[:l] ≤ pivot ≤ slc[h:]
+// Gap (l,h) expands until one of the intervals is fully consumed.
+// swap: slc[h] < pv ≤ slc[l]
+// swap: slc[h] ≤ pv < slc[l]
+// next: slc[l] ≤ pv ≤ slc[h]
+//
+//go:nosplit
+func partTwoP(slc []unsafe.Pointer, l, h int, pv uintptr) int {
+	l--
+	if h <= l {
+		return -1 // will not run
+	}
+	goto start
+second:
+	for {
+		h++
+		if h >= len(slc) {
+			return l
+		}
+		if uintptr(slc[h]) <= pv {
+			break
+		}
+	}
+swap:
+	slc[l], slc[h] = slc[h], slc[l]
+next:
+	l--
+	h++
+start:
+	if l < 0 {
+		return h
+	}
+	if h >= len(slc) {
+		return l
+	}
+
+	if pv <= uintptr(slc[h]) { // avoid unnecessary comparisons
+		if pv < uintptr(slc[l]) { // extend ranges in balance
+			goto second
+		}
+		goto next
+	}
+	for {
+		if pv <= uintptr(slc[l]) {
+			goto swap
+		}
+		l--
+		if l < 0 {
+			return h
+		}
+	}
+}
+
+// new-goroutine partition
+//
+//go:nosplit
+func gPartOneP(ar []unsafe.Pointer, pv uintptr, ch chan int) {
+	ch <- partOneP(ar, pv)
+}
+
+// partition slc in two goroutines, returns k with slc[:k] ≤ pivot ≤ slc[k:]
+//
+//go:nosplit
+func partConP(slc []unsafe.Pointer, ch chan int) int {
+
+	pv := pivotP(slc, nsConc) // median-of-n pivot
+	mid := len(slc) >> 1
+	l, h := mid>>1, sixb.MeanI(mid, len(slc))
+
+	go gPartOneP(slc[l:h:h], pv, ch) // mid half range
+
+	r := partTwoP(slc, l, h, pv) // left/right quarter ranges
+
+	k := l + <-ch // convert returned index to slc
+
+	// only one gap is possible
+	if r < mid {
+		for ; 0 <= r; r-- { // gap left in low range?
+			if pv < uintptr(slc[r]) {
+				k--
+				slc[r], slc[k] = slc[k], slc[r]
+			}
+		}
+	} else {
+		for ; r < len(slc); r++ { // gap left in high range?
+			if uintptr(slc[r]) < pv {
+				slc[r], slc[k] = slc[k], slc[r]
+				k++
+			}
+		}
+	}
+	return k
+}
+
+// short range sort function, assumes MaxLenIns < len(ar) <= MaxLenRec, recursive
+func shortP(ar []unsafe.Pointer) {
+start:
+	first, step := minMaxFour(uint32(len(ar)))
+	a, b := uintptr(ar[first]), uintptr(ar[first+step])
+	c, d := uintptr(ar[first+2*step]), uintptr(ar[first+3*step])
+
+	if d < b {
+		d, b = b, d
+	}
+	if c < a {
+		c, a = a, c
+	}
+	if d < c {
+		c = d
+	}
+	if b < a {
+		b = a
+	}
+	pv := uintptr(sixb.MeanU(uint(b), uint(c))) // median-of-4 pivot
+
+	k := partOneP(ar, pv)
+	var aq []unsafe.Pointer
+
+	if k < len(ar)-k {
+		aq = ar[:k:k]
+		ar = ar[k:] // ar is the longer range
+	} else {
+		aq = ar[k:]
+		ar = ar[:k:k]
+	}
+
+	if len(aq) > MaxLenIns {
+		shortP(aq) // recurse on the shorter range
+		goto start
+	}
+isort:
+	insertionP(aq) // at least one insertion range
+
+	if len(ar) > MaxLenIns {
+		goto start
+	}
+	if &ar[0] != &aq[0] {
+		aq = ar
+		goto isort // two insertion ranges
+	}
+}
+
+// new-goroutine sort function
+//
+//go:nosplit
+func gLongP(ar []unsafe.Pointer, sv *syncVar) {
+	longP(ar, sv)
+
+	if atomic.AddUint64(&sv.nGor, ^uint64(0)) == 0 { // decrease goroutine counter
+		sv.done <- 0 // we are the last, all done
+	}
+}
+
+// long range sort function, assumes len(ar) > MaxLenRec, recursive
+func longP(ar []unsafe.Pointer, sv *syncVar) {
+start:
+	pv := pivotP(ar, nsLong) // median-of-n pivot
+	k := partOneP(ar, pv)
+	var aq []unsafe.Pointer
+
+	if k < len(ar)-k {
+		aq = ar[:k:k]
+		ar = ar[k:] // ar is the longer range
+	} else {
+		aq = ar[k:]
+		ar = ar[:k:k]
+	}
+
+	// branches below are optimal for fewer total jumps
+	if len(aq) <= MaxLenRec { // at least one not-long range?
+
+		if len(aq) > MaxLenIns {
+			shortP(aq)
+		} else {
+			insertionP(aq)
+		}
+
+		if len(ar) > MaxLenRec { // two not-long ranges?
+			goto start
+		}
+		shortP(ar) // we know len(ar) > MaxLenIns
+		return
+	}
+
+	// max goroutines? not atomic but good enough
+	if sv == nil || gorFull(sv) {
+		longP(aq, sv) // recurse on the shorter range
+		goto start
+	}
+
+	// new-goroutine sort on the longer range only when
+	// both ranges are big and max goroutines is not exceeded
+	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
+	go gLongP(ar, sv)
+	ar = aq
+	goto start
+}
+
+// sortP concurrently sorts ar in ascending order.
+//
+//go:nosplit
+func sortP(ar []unsafe.Pointer) {
+
+	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+
+		if len(ar) > MaxLenRec { // single-goroutine sorting
+			longP(ar, nil)
+		} else if len(ar) > MaxLenIns {
+			shortP(ar)
+		} else {
+			insertionP(ar)
+		}
+		return
+	}
+
+	// create channel only when concurrent partitioning & sorting
+	sv := syncVar{1, // number of goroutines including this
+		make(chan int)} // end signal
+	for {
+		// concurrent dual partitioning with done
+		k := partConP(ar, sv.done)
+		var aq []unsafe.Pointer
+
+		if k < len(ar)-k {
+			aq = ar[:k:k]
+			ar = ar[k:] // ar is the longer range
+		} else {
+			aq = ar[k:]
+			ar = ar[:k:k]
+		}
+
+		// handle shorter range
+		if len(aq) > MaxLenRec {
+			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
+			go gLongP(aq, &sv)
+
+		} else if len(aq) > MaxLenIns {
+			shortP(aq)
+		} else {
+			insertionP(aq)
+		}
+
+		// longer range big enough? max goroutines?
+		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+			break
+		}
+		// dual partition longer range
+	}
+
+	longP(ar, &sv) // we know len(ar) > MaxLenRec
+
+	if atomic.AddUint64(&sv.nGor, ^uint64(0)) != 0 { // decrease goroutine counter
+		<-sv.done // we are not the last, wait
+	}
+}
diff --git a/sortySlice.go b/sortySlice.go
index 6b3cf81..f91db95 100644
--- a/sortySlice.go
+++ b/sortySlice.go
@@ -48,6 +48,9 @@ func IsSortedSlice(ar any) int {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		return isSortedS(s)
+	case reflect.UnsafePointer:
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		return isSortedP(p)
 	}
 	panic("sorty: IsSortedSlice: invalid input type")
 }
@@ -88,6 +91,9 @@ func SortSlice(ar any) {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		sortS(s)
+	case reflect.UnsafePointer:
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		sortP(p)
 	default:
 		panic("sorty: SortSlice: invalid input type")
 	}
-- 
2.43.0


From 6d873082b1b53d7e1344c1ae56ba2d40894aa850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 2/4] fix: never exceed MaxGor concurrent goroutines per
 Sort*() call

Checking the quota and increasing the goroutine counter were separate steps, and
the partitioning goroutine was not counted. So up to MaxGor+1 (or more) goroutines
could be sorting at once. Reserve quota atomically, also for partitioning.
---
 sorty.go     | 17 +++++++++++++----
 sortyB.go    | 22 +++++++++++-----------
 sortyF4.go   | 22 +++++++++++-----------
 sortyF8.go   | 22 +++++++++++-----------
 sortyI4.go   | 22 +++++++++++-----------
 sortyI8.go   | 22 +++++++++++-----------
 sortyLenB.go | 22 +++++++++++-----------
 sortyLenS.go | 22 +++++++++++-----------
 sortyLsw.go  | 22 +++++++++++-----------
 sortyP.go    | 22 +++++++++++-----------
 sortyS.go    | 22 +++++++++++-----------
 sortyU4.go   | 22 +++++++++++-----------
 sortyU8.go   | 22 +++++++++++-----------
 13 files changed, 145 insertions(+), 136 deletions(-)

diff --git a/sorty.go b/sorty.go
index 58b3946..585ed28 100644
--- a/sorty.go
+++ b/sorty.go
@@ -19,6 +19,7 @@ package sorty
 
 import (
 	"reflect"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/jfcg/sixb"
@@ -83,12 +84,20 @@ type syncVar struct {
 	done chan int // end signal
 }
 
-// gorFull returns true if goroutine quota is full, inlined
+// gorGet increases goroutine counter and returns true, or
+// returns false if goroutine quota is full
 //
 //go:norace
-func gorFull(sv *syncVar) bool {
-	mg := MaxGor
-	return sv.nGor >= mg
+func gorGet(sv *syncVar) bool {
+	for {
+		n := atomic.LoadUint64(&sv.nGor)
+		if n >= MaxGor {
+			return false
+		}
+		if atomic.CompareAndSwapUint64(&sv.nGor, n, n+1) {
+			return true
+		}
+	}
 }
 
 const (
diff --git a/sortyB.go b/sortyB.go
index e5f93d0..d9558d1 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongB(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,18 @@ func sortB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongB(aq, &sv)
-
-		} else if len(aq) > MaxLenInsFC {
-			shortB(aq)
+			go gLongB(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenInsFC {
+				shortB(aq)
+			} else {
+				insertionB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF4.go b/sortyF4.go
index 48355a8..27bb412 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longF4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF4(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF4(ar []float32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,18 @@ func sortF4(ar []float32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF4(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortF4(aq)
+			go gLongF4(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionF4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenIns {
+				shortF4(aq)
+			} else {
+				insertionF4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF8.go b/sortyF8.go
index 7afe6af..c0d27a5 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longF8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF8(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF8(ar []float64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,18 @@ func sortF8(ar []float64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF8(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortF8(aq)
+			go gLongF8(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionF8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenIns {
+				shortF8(aq)
+			} else {
+				insertionF8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI4.go b/sortyI4.go
index 0476f29..e06e564 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longI4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI4(ar []int32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,18 @@ func sortI4(ar []int32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI4(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortI4(aq)
+			go gLongI4(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionI4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenIns {
+				shortI4(aq)
+			} else {
+				insertionI4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI8.go b/sortyI8.go
index c546035..d0d2a20 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longI8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI8(ar []int64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,18 @@ func sortI8(ar []int64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI8(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortI8(aq)
+			go gLongI8(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionI8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenIns {
+				shortI8(aq)
+			} else {
+				insertionI8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenB.go b/sortyLenB.go
index e8d4874..9b46664 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longLenB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenB(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,18 @@ func sortLenB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenB(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortLenB(aq)
+			go gLongLenB(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionLenB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenIns {
+				shortLenB(aq)
+			} else {
+				insertionLenB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenS.go b/sortyLenS.go
index d9f590e..86090d4 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longLenS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenS(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,18 @@ func sortLenS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenS(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortLenS(aq)
+			go gLongLenS(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionLenS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenIns {
+				shortLenS(aq)
+			} else {
+				insertionLenS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLsw.go b/sortyLsw.go
index 7612f92..d8b5ebe 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -299,15 +299,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		long(lsw, l, h, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLong(lsw, lo, hi, sv)
 	lo, hi = l, h
 	goto start
@@ -350,7 +349,7 @@ func Sort(n int, lsw Lesswap) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	lo, hi := 0, n
 	for {
@@ -368,17 +367,18 @@ func Sort(n int, lsw Lesswap) {
 
 		// handle shorter range
 		if n >= MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLong(lsw, l, h, &sv)
-
-		} else if n >= MaxLenInsFC {
-			short(lsw, l, h)
+			go gLong(lsw, l, h, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertion(lsw, l, h)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if n >= MaxLenInsFC {
+				short(lsw, l, h)
+			} else {
+				insertion(lsw, l, h)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if no <= 2*MaxLenRecFC || gorFull(&sv) {
+		if no <= 2*MaxLenRecFC || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyP.go b/sortyP.go
index ba9a863..d2a4bbe 100644
--- a/sortyP.go
+++ b/sortyP.go
@@ -304,15 +304,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longP(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongP(ar, sv)
 	ar = aq
 	goto start
@@ -336,7 +335,7 @@ func sortP(ar []unsafe.Pointer) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -353,17 +352,18 @@ func sortP(ar []unsafe.Pointer) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongP(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortP(aq)
+			go gLongP(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionP(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenIns {
+				shortP(aq)
+			} else {
+				insertionP(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyS.go b/sortyS.go
index 621df0d..93f6008 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongS(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,18 @@ func sortS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongS(aq, &sv)
-
-		} else if len(aq) > MaxLenInsFC {
-			shortS(aq)
+			go gLongS(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenInsFC {
+				shortS(aq)
+			} else {
+				insertionS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU4.go b/sortyU4.go
index 8b222f7..b9a2625 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longU4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU4(ar []uint32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,18 @@ func sortU4(ar []uint32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU4(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortU4(aq)
+			go gLongU4(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionU4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenIns {
+				shortU4(aq)
+			} else {
+				insertionU4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU8.go b/sortyU8.go
index 906f041..be895b2 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorGet(sv) {
 		longU8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU8(ar []uint64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,18 @@ func sortU8(ar []uint64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU8(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortU8(aq)
+			go gLongU8(aq, &sv) // takes over quota of partitioning goroutine
 		} else {
-			insertionU8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+			if len(aq) > MaxLenIns {
+				shortU8(aq)
+			} else {
+				insertionU8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
-- 
2.43.0


From 4bf81b61bc6fb1c2930b4d7197fb5baac4366d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 3/4] fix: no index overflow in lesswap pivot sampling on huge
 collections

---
 sortyLsw.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sortyLsw.go b/sortyLsw.go
index d8b5ebe..6aa32ad 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -64,7 +64,8 @@ func pivot(lsw Lesswap, lo, hi int, n uint) int {
 	last := lo + int(l)
 
 	// insertion sort slc[first + j * step], j=0,1,..
-	for h := first + step; h <= last; h += step {
+	for h := first; h < last; {
+		h += step // does not exceed last, so no overflow
 		for l := h; lsw(l, l-step, l, l-step); {
 			l -= step
 			if l <= first {
-- 
2.43.0


From 97aa103ac9edf3ca1533de02b17b468f8047a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 4/4] fix: no overflow of length limits with huge MaxLen*
 values

---
 sorty.go     | 3 ++-
 sortyB.go    | 4 ++--
 sortyF4.go   | 4 ++--
 sortyF8.go   | 4 ++--
 sortyI4.go   | 4 ++--
 sortyI8.go   | 4 ++--
 sortyLenB.go | 4 ++--
 sortyLenS.go | 4 ++--
 sortyLsw.go  | 4 ++--
 sortyP.go    | 4 ++--
 sortyS.go    | 4 ++--
 sortyU4.go   | 4 ++--
 sortyU8.go   | 4 ++--
 13 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/sorty.go b/sorty.go
index 585ed28..0587724 100644
--- a/sorty.go
+++ b/sorty.go
@@ -33,7 +33,8 @@ var MaxGor uint64 = 3
 
 func init() {
 	if !(4097 > MaxGor && MaxGor > 0 && MaxLenRec > MaxLenRecFC && MaxLenRecFC >
-		2*MaxLenIns && MaxLenIns > MaxLenInsFC && MaxLenInsFC > 2*nsShort) {
+		MaxLenIns && MaxLenRecFC-MaxLenIns > MaxLenIns &&
+		MaxLenIns > MaxLenInsFC && MaxLenInsFC > 2*nsShort) {
 		panic("sorty: check your MaxGor/MaxLen* values")
 	}
 }
diff --git a/sortyB.go b/sortyB.go
index d9558d1..9583cae 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -314,7 +314,7 @@ start:
 // sortB concurrently sorts ar in ascending lexicographic order.
 func sortB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRecFC || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longB(ar, nil)
@@ -355,7 +355,7 @@ func sortB(ar [][]byte) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRecFC || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF4.go b/sortyF4.go
index 27bb412..a6dd34d 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -363,7 +363,7 @@ func sortF4(ar []float32) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF4(ar, nil)
@@ -404,7 +404,7 @@ func sortF4(ar []float32) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF8.go b/sortyF8.go
index c0d27a5..93b5815 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -363,7 +363,7 @@ func sortF8(ar []float64) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF8(ar, nil)
@@ -404,7 +404,7 @@ func sortF8(ar []float64) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI4.go b/sortyI4.go
index e06e564..f11609d 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -320,7 +320,7 @@ start:
 //go:nosplit
 func sortI4(ar []int32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI4(ar, nil)
@@ -361,7 +361,7 @@ func sortI4(ar []int32) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI8.go b/sortyI8.go
index d0d2a20..b9896ed 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -320,7 +320,7 @@ start:
 //go:nosplit
 func sortI8(ar []int64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI8(ar, nil)
@@ -361,7 +361,7 @@ func sortI8(ar []int64) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenB.go b/sortyLenB.go
index 9b46664..b69d307 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortLenB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenB(ar, nil)
@@ -362,7 +362,7 @@ func sortLenB(ar [][]byte) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenS.go b/sortyLenS.go
index 86090d4..43c6e8c 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortLenS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenS(ar, nil)
@@ -362,7 +362,7 @@ func sortLenS(ar []string) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLsw.go b/sortyLsw.go
index 6aa32ad..ba95959 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -337,7 +337,7 @@ start:
 func Sort(n int, lsw Lesswap) {
 
 	n-- // high index
-	if n <= 2*MaxLenRecFC || MaxGor <= 1 {
+	if n-MaxLenRecFC <= MaxLenRecFC || MaxGor <= 1 {
 
 		if n >= MaxLenRecFC { // single-goroutine sorting
 			long(lsw, 0, n, nil)
@@ -379,7 +379,7 @@ func Sort(n int, lsw Lesswap) {
 		}
 
 		// longer range big enough? max goroutines?
-		if no <= 2*MaxLenRecFC || !gorGet(&sv) {
+		if no-MaxLenRecFC <= MaxLenRecFC || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyP.go b/sortyP.go
index d2a4bbe..8f425d0 100644
--- a/sortyP.go
+++ b/sortyP.go
@@ -322,7 +322,7 @@ start:
 //go:nosplit
 func sortP(ar []unsafe.Pointer) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longP(ar, nil)
@@ -363,7 +363,7 @@ func sortP(ar []unsafe.Pointer) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyS.go b/sortyS.go
index 93f6008..f75f57b 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -314,7 +314,7 @@ start:
 // sortS concurrently sorts ar in ascending lexicographic order.
 func sortS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRecFC || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longS(ar, nil)
@@ -355,7 +355,7 @@ func sortS(ar []string) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRecFC || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU4.go b/sortyU4.go
index b9a2625..b1b2775 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -320,7 +320,7 @@ start:
 //go:nosplit
 func sortU4(ar []uint32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU4(ar, nil)
@@ -361,7 +361,7 @@ func sortU4(ar []uint32) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU8.go b/sortyU8.go
index be895b2..d8100b6 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -320,7 +320,7 @@ start:
 //go:nosplit
 func sortU8(ar []uint64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU8(ar, nil)
@@ -361,7 +361,7 @@ func sortU8(ar []uint64) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorGet(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorGet(&sv) {
 			break
 		}
 		// dual partition longer range
-- 
2.43.0

