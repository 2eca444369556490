From 525eb88a97ba94cf23fa84b728a30c77f902ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 1/3] fix: move pointers as pointers while sorting pointer
 slices

SortSlice sorted []*T and []unsafe.Pointer as integers, hence without write
barriers. A garbage collection during the sort could miss an element in flight
and free its pointee.
---
 sorty.go      |  7 +++++--
 sortyP.go     | 34 ++++++++++++++++++++++++++++++++++
 sortySlice.go |  6 ++++++
 3 files changed, 45 insertions(+), 2 deletions(-)
 create mode 100644 sortyP.go

diff --git a/sorty.go b/sorty.go
index 0ca4b2b..8274c34 100644
--- a/sorty.go
+++ b/sorty.go
@@ -149,8 +149,11 @@ func extractSK(ar any) (slc sixb.Slice, kind reflect.Kind) {
 	kind = tipe.Kind()
 
 	switch kind {
-	// map int/uint/pointer types to hardware type
-	case reflect.Uintptr, reflect.Pointer, reflect.UnsafePointer:
+	// pointers must remain visible to the garbage collector
+	case reflect.Pointer, reflect.UnsafePointer:
+		kind = reflect.UnsafePointer
+	// map int/uint types to hardware type
+	case reflect.Uintptr:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uintptr(0))>>3)
 	case reflect.Uint:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
diff --git a/sortyP.go b/sortyP.go
new file mode 100644
index 0000000..192e60d
--- /dev/null
+++ b/sortyP.go
@@ -0,0 +1,34 @@
+/*	Copyright (c) 2019-present, Serhat Şevki Dinçer.
+	This Source Code Form is subject to the terms of the Mozilla Public
+	License, v. 2.0. If a copy of the MPL was not distributed with this
+	file, You can obtain one at http://mozilla.org/MPL/2.0/.
+*/
+
+package sorty
+
+import "unsafe"
+
+// isSortedP returns 0 if ar is sorted by address in ascending
+// order, otherwise it returns i > 0 with ar[i] < ar[i-1]
+func isSortedP(ar []unsafe.Pointer) int {
+	for i := len(ar) - 1; i > 0; i-- {
+		if uintptr(ar[i]) < uintptr(ar[i-1]) {
+			return i
+		}
+	}
+	return 0
+}
+
+// sortP concurrently sorts ar by address in ascending order. Pointers must only be
+// moved as pointers (not as integers) to keep them visible to the garbage collector.
+func sortP(ar []unsafe.Pointer) {
+	Sort(len(ar), func(i, k, r, s int) bool {
+		if uintptr(ar[i]) < uintptr(ar[k]) {
+			if r != s {
+				ar[r], ar[s] = ar[s], ar[r]
+			}
+			return true
+		}
+		return false
+	})
+}
diff --git a/sortySlice.go b/sortySlice.go
index 6b3cf81..f91db95 100644
--- a/sortySlice.go
+++ b/sortySlice.go
@@ -48,6 +48,9 @@ func IsSortedSlice(ar any) int {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		return isSortedS(s)
+	case reflect.UnsafePointer:
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		return isSortedP(p)
 	}
 	panic("sorty: IsSortedSlice: invalid input type")
 }
@@ -88,6 +91,9 @@ func SortSlice(ar any) {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		sortS(s)
+	case reflect.UnsafePointer:
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		sortP(p)
 	default:
 		panic("sorty: SortSlice: invalid input type")
 	}
-- 
2.43.0


From 6afca63e82ded54268c0b7ec6b4ded7b88a34905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 2/3] fix: never use more than MaxGor goroutines in a Sort*()
 call

The quota was checked in one step and taken in another, so goroutines could
exceed it, and the partition helper was not counted at all. Take quota
atomically, and start with quota for the caller and its partition helper, which
is passed on to the first sorting goroutine or returned.
---
 sorty.go     | 14 ++++++++++++--
 sortyB.go    | 19 ++++++++++---------
 sortyF4.go   | 19 ++++++++++---------
 sortyF8.go   | 19 ++++++++++---------
 sortyI4.go   | 19 ++++++++++---------
 sortyI8.go   | 19 ++++++++++---------
 sortyLenB.go | 19 ++++++++++---------
 sortyLenS.go | 19 ++++++++++---------
 sortyLsw.go  | 19 ++++++++++---------
 sortyS.go    | 19 ++++++++++---------
 sortyU4.go   | 19 ++++++++++---------
 sortyU8.go   | 19 ++++++++++---------
 12 files changed, 122 insertions(+), 101 deletions(-)

diff --git a/sorty.go b/sorty.go
index 8274c34..dc90e4b 100644
--- a/sorty.go
+++ b/sorty.go
@@ -19,6 +19,7 @@ package sorty
 
 import (
 	"reflect"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/jfcg/sixb"
@@ -83,12 +84,21 @@ type syncVar struct {
 	done chan int // end signal
 }
 
-// gorFull returns true if goroutine quota is full, inlined
+// gorFull returns true if goroutine quota is full, otherwise
+// it takes one goroutine from quota for the caller to use
 //
 //go:norace
 func gorFull(sv *syncVar) bool {
 	mg := MaxGor
-	return sv.nGor >= mg
+	for {
+		n := atomic.LoadUint64(&sv.nGor)
+		if n >= mg {
+			return true
+		}
+		if atomic.CompareAndSwapUint64(&sv.nGor, n, n+1) {
+			return false
+		}
+	}
 }
 
 const (
diff --git a/sortyB.go b/sortyB.go
index e5f93d0..fdffe6a 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -298,7 +298,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longB(aq, sv) // recurse on the shorter range
 		goto start
@@ -306,7 +306,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongB(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,13 +344,15 @@ func sortB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongB(aq, &sv)
-
-		} else if len(aq) > MaxLenInsFC {
-			shortB(aq)
+			go gLongB(aq, &sv) // takes over helper's quota
 		} else {
-			insertionB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenInsFC {
+				shortB(aq)
+			} else {
+				insertionB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyF4.go b/sortyF4.go
index 48355a8..a499e6b 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -313,7 +313,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longF4(aq, sv) // recurse on the shorter range
 		goto start
@@ -321,7 +321,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF4(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF4(ar []float32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,13 +393,15 @@ func sortF4(ar []float32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF4(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortF4(aq)
+			go gLongF4(aq, &sv) // takes over helper's quota
 		} else {
-			insertionF4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenIns {
+				shortF4(aq)
+			} else {
+				insertionF4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyF8.go b/sortyF8.go
index 7afe6af..8793d1e 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -313,7 +313,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longF8(aq, sv) // recurse on the shorter range
 		goto start
@@ -321,7 +321,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF8(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF8(ar []float64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,13 +393,15 @@ func sortF8(ar []float64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF8(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortF8(aq)
+			go gLongF8(aq, &sv) // takes over helper's quota
 		} else {
-			insertionF8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenIns {
+				shortF8(aq)
+			} else {
+				insertionF8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyI4.go b/sortyI4.go
index 0476f29..ff95e99 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -302,7 +302,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longI4(aq, sv) // recurse on the shorter range
 		goto start
@@ -310,7 +310,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI4(ar []int32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,13 +350,15 @@ func sortI4(ar []int32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI4(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortI4(aq)
+			go gLongI4(aq, &sv) // takes over helper's quota
 		} else {
-			insertionI4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenIns {
+				shortI4(aq)
+			} else {
+				insertionI4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyI8.go b/sortyI8.go
index c546035..9ccb670 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -302,7 +302,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longI8(aq, sv) // recurse on the shorter range
 		goto start
@@ -310,7 +310,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI8(ar []int64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,13 +350,15 @@ func sortI8(ar []int64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI8(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortI8(aq)
+			go gLongI8(aq, &sv) // takes over helper's quota
 		} else {
-			insertionI8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenIns {
+				shortI8(aq)
+			} else {
+				insertionI8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyLenB.go b/sortyLenB.go
index e8d4874..af3282a 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -303,7 +303,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longLenB(aq, sv) // recurse on the shorter range
 		goto start
@@ -311,7 +311,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenB(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,13 +351,15 @@ func sortLenB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenB(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortLenB(aq)
+			go gLongLenB(aq, &sv) // takes over helper's quota
 		} else {
-			insertionLenB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenIns {
+				shortLenB(aq)
+			} else {
+				insertionLenB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyLenS.go b/sortyLenS.go
index d9f590e..5628aad 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -303,7 +303,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longLenS(aq, sv) // recurse on the shorter range
 		goto start
@@ -311,7 +311,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenS(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,13 +351,15 @@ func sortLenS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenS(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortLenS(aq)
+			go gLongLenS(aq, &sv) // takes over helper's quota
 		} else {
-			insertionLenS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenIns {
+				shortLenS(aq)
+			} else {
+				insertionLenS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyLsw.go b/sortyLsw.go
index 7612f92..8cfc894 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -299,7 +299,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		long(lsw, l, h, sv) // recurse on the shorter range
 		goto start
@@ -307,7 +307,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLong(lsw, lo, hi, sv)
 	lo, hi = l, h
 	goto start
@@ -350,7 +349,7 @@ func Sort(n int, lsw Lesswap) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	lo, hi := 0, n
 	for {
@@ -368,13 +367,15 @@ func Sort(n int, lsw Lesswap) {
 
 		// handle shorter range
 		if n >= MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLong(lsw, l, h, &sv)
-
-		} else if n >= MaxLenInsFC {
-			short(lsw, l, h)
+			go gLong(lsw, l, h, &sv) // takes over helper's quota
 		} else {
-			insertion(lsw, l, h)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if n >= MaxLenInsFC {
+				short(lsw, l, h)
+			} else {
+				insertion(lsw, l, h)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyS.go b/sortyS.go
index 621df0d..f0f0d27 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -298,7 +298,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longS(aq, sv) // recurse on the shorter range
 		goto start
@@ -306,7 +306,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongS(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,13 +344,15 @@ func sortS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongS(aq, &sv)
-
-		} else if len(aq) > MaxLenInsFC {
-			shortS(aq)
+			go gLongS(aq, &sv) // takes over helper's quota
 		} else {
-			insertionS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenInsFC {
+				shortS(aq)
+			} else {
+				insertionS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyU4.go b/sortyU4.go
index 8b222f7..07948d2 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -302,7 +302,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longU4(aq, sv) // recurse on the shorter range
 		goto start
@@ -310,7 +310,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU4(ar []uint32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,13 +350,15 @@ func sortU4(ar []uint32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU4(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortU4(aq)
+			go gLongU4(aq, &sv) // takes over helper's quota
 		} else {
-			insertionU4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenIns {
+				shortU4(aq)
+			} else {
+				insertionU4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyU8.go b/sortyU8.go
index 906f041..6c7ff42 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -302,7 +302,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? if not, one is taken from quota
 	if sv == nil || gorFull(sv) {
 		longU8(aq, sv) // recurse on the shorter range
 		goto start
@@ -310,7 +310,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU8(ar []uint64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partition helper
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,13 +350,15 @@ func sortU8(ar []uint64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU8(aq, &sv)
-
-		} else if len(aq) > MaxLenIns {
-			shortU8(aq)
+			go gLongU8(aq, &sv) // takes over helper's quota
 		} else {
-			insertionU8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // return helper's quota
+
+			if len(aq) > MaxLenIns {
+				shortU8(aq)
+			} else {
+				insertionU8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-- 
2.43.0


From adbf4a94753616f7ccb5f49c7753ed2098792604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 3/3] fix: leave collections of negative length alone for any n

n - 1 overflows for the smallest int, then lesswap was called with indices of a
huge collection.
---
 sortyLsw.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sortyLsw.go b/sortyLsw.go
index 8cfc894..edca8b4 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -28,6 +28,9 @@ type Lesswap func(i, k, r, s int) bool
 //
 //go:nosplit
 func IsSorted(n int, lsw Lesswap) int {
+	if n < 2 {
+		return 0 // n - 1 can overflow
+	}
 	for i := n - 1; i > 0; i-- {
 		if lsw(i, i-1, i, i) { // 3rd=4th disables swap
 			return i
@@ -334,6 +337,9 @@ start:
 //
 //go:nosplit
 func Sort(n int, lsw Lesswap) {
+	if n < 2 {
+		return // n - 1 can overflow
+	}
 
 	n-- // high index
 	if n <= 2*MaxLenRecFC || MaxGor <= 1 {
-- 
2.43.0

