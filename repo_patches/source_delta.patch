From 632179e781cc872c6576eb6ec86ca82688e82f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:36 +0000
Subject: [PATCH 01/54] fix: queue lost elements when the tail caught the head
 away from the buffer end

Push only checked for a full buffer when the tail wrapped to 0, and the
growth copied the wrapped part over the front part instead of behind it.
---
 stl/gp/queue.gp     | 16 ++++++++--------
 stl/gp/queue.gp.go  | 16 ++++++++--------
 stl/queue.gp_int.go | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 23094be..81d9359 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -78,14 +78,14 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Push(v <VALUE_TYPE>) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index 1a4fc92..b95af18 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -175,14 +175,14 @@ func (this *GOGPGlobalNamePrefixQueue) Push(v GOGPValueType) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 6e1c95e..84fe823 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -72,14 +72,14 @@ func (this *IntQueue) Push(v int) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
-- 
2.43.0


From d64cc4de4da67fc500548db10c6c450b520c9570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 02/54] fix: queue Shrink dropped elements and always reported
 false

---
 stl/gp/queue.gp     | 4 ++--
 stl/gp/queue.gp.go  | 4 ++--
 stl/queue.gp_int.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 81d9359..e08b46c 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -128,14 +128,14 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Shrink() (ok bool) {
 	oldSize := this.Size()
 	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index b95af18..5e42e34 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -225,14 +225,14 @@ func (this *GOGPGlobalNamePrefixQueue) Shrink() (ok bool) {
 	oldSize := this.Size()
 	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 84fe823..203962a 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -122,14 +122,14 @@ func (this *IntQueue) Shrink() (ok bool) {
 	oldSize := this.Size()
 	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From 6b1f498a946cbc2bd44029852093903b15f497ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:38 +0000
Subject: [PATCH 03/54] fix: deque lost elements when growing or shrinking a
 wrapped buffer

The wrapped part was copied over the front part instead of behind it, and
Shrink reported false even when it had shrunk.
---
 stl/deque.gp_int.go | 6 +++---
 stl/gp/deque.gp     | 6 +++---
 stl/gp/deque.gp.go  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/deque.gp_int.go b/stl/deque.gp_int.go
index 92f337f..c8b0dd8 100644
--- a/stl/deque.gp_int.go
+++ b/stl/deque.gp_int.go
@@ -81,7 +81,7 @@ func (this *IntDeque) PushFront(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -101,7 +101,7 @@ func (this *IntDeque) PushBack(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -156,7 +156,7 @@ func (this *IntDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp b/stl/gp/deque.gp
index eddd2c8..f3f7e1b 100644
--- a/stl/gp/deque.gp
+++ b/stl/gp/deque.gp
@@ -85,7 +85,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushFront(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushBack(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -160,7 +160,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp.go b/stl/gp/deque.gp.go
index e1b76af..0e9e7d2 100644
--- a/stl/gp/deque.gp.go
+++ b/stl/gp/deque.gp.go
@@ -85,7 +85,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushFront(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushBack(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -160,7 +160,7 @@ func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From d8866d91cb58db3a03c6509f95f675804fd1333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:57 +0000
Subject: [PATCH 04/54] fix: queue and deque Shrink reported false after
 shrinking

---
 stl/deque.gp_int.go | 2 +-
 stl/gp/deque.gp     | 2 +-
 stl/gp/deque.gp.go  | 2 +-
 stl/gp/queue.gp     | 2 +-
 stl/gp/queue.gp.go  | 2 +-
 stl/queue.gp_int.go | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/stl/deque.gp_int.go b/stl/deque.gp_int.go
index c8b0dd8..79389a7 100644
--- a/stl/deque.gp_int.go
+++ b/stl/deque.gp_int.go
@@ -147,7 +147,7 @@ func (this *IntDeque) Back() (back int, ok bool) {
 func (this *IntDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
diff --git a/stl/gp/deque.gp b/stl/gp/deque.gp
index f3f7e1b..0296e60 100644
--- a/stl/gp/deque.gp
+++ b/stl/gp/deque.gp
@@ -151,7 +151,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
diff --git a/stl/gp/deque.gp.go b/stl/gp/deque.gp.go
index 0e9e7d2..c0434be 100644
--- a/stl/gp/deque.gp.go
+++ b/stl/gp/deque.gp.go
@@ -151,7 +151,7 @@ func (this *GOGPGlobalNamePrefixDeque) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index e08b46c..9caef41 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -126,7 +126,7 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Queue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index 5e42e34..89860a2 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -223,7 +223,7 @@ func (this *GOGPGlobalNamePrefixQueue) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 203962a..514955b 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -120,7 +120,7 @@ func (this *IntQueue) Back() (back int, ok bool) {
 func (this *IntQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
-- 
2.43.0


From 35c53b723a39ee6425b39f360ce5d0fe43fe510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 05/54] fix: heap Reverse panicked on an empty slice

---
 stl/gp/heap.gp     | 2 +-
 stl/gp/heap.gp.go  | 2 +-
 stl/heap.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index b98a3d5..2e45815 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -140,7 +140,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) MakeHeap(b []<VALUE_TYPE>) {
 //reverse order of b
 func (this *<GLOBAL_NAME_PREFIX>Heap) Reverse(b []<VALUE_TYPE>) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := l / 2; i >= 0 && l > 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index 90dd76d..25dc7d2 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -237,7 +237,7 @@ func (this *GOGPGlobalNamePrefixHeap) MakeHeap(b []GOGPValueType) {
 //reverse order of b
 func (this *GOGPGlobalNamePrefixHeap) Reverse(b []GOGPValueType) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := l / 2; i >= 0 && l > 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/heap.gp_int.go b/stl/heap.gp_int.go
index 92eff7a..bc81373 100644
--- a/stl/heap.gp_int.go
+++ b/stl/heap.gp_int.go
@@ -123,7 +123,7 @@ func (this *IntHeap) MakeHeap(b []int) {
 //reverse order of b
 func (this *IntHeap) Reverse(b []int) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := l / 2; i >= 0 && l > 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
-- 
2.43.0


From 1ec543d4b815fdb52cffc14c9158b2c234e12a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 06/54] fix: list InsertFrontList put only the last spliced
 element in front

---
 stl/gp/list.gp     | 6 +++---
 stl/gp/list.gp.go  | 6 +++---
 stl/list.gp_int.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index d6f28f6..ca87c06 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -191,9 +191,9 @@ func (this *<GLOBAL_NAME_PREFIX>List) PopBack() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertFrontList(other *<GLOBAL_NAME_PREFIX>List) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	head := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = head
 	}
 	return
 }
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index ca7275a..33012fc 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -288,9 +288,9 @@ func (this *GOGPGlobalNamePrefixList) PopBack() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertFrontList(other *GOGPGlobalNamePrefixList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	head := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = head
 	}
 	return
 }
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 7009afe..b07b088 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -185,9 +185,9 @@ func (this *IntList) PopBack() (v int, ok bool) {
 }
 
 func (this *IntList) InsertFrontList(other *IntList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	head := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = head
 	}
 	return
 }
-- 
2.43.0


From 8d73da89ab470ef3dc73bd694a8f49ee6d43b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:59 +0000
Subject: [PATCH 07/54] fix: list InsertAfter left the back link of the
 following node stale

---
 stl/gp/list.gp     | 3 ++-
 stl/gp/list.gp.go  | 3 ++-
 stl/list.gp_int.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index ca87c06..83c556b 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -244,9 +244,10 @@ func (this *<GLOBAL_NAME_PREFIX>List) InsertBefore(node, mark *<GLOBAL_NAME_PREF
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (n *<GLOBAL_NAME_PREFIX>ListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 33012fc..917e934 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -341,9 +341,10 @@ func (this *GOGPGlobalNamePrefixList) InsertBefore(node, mark *GOGPGlobalNamePre
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertAfter(node, mark *GOGPGlobalNamePrefixListNode) (n *GOGPGlobalNamePrefixListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index b07b088..a6fa305 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -238,9 +238,10 @@ func (this *IntList) InsertBefore(node, mark *IntListNode) (n *IntListNode) {
 }
 
 func (this *IntList) InsertAfter(node, mark *IntListNode) (n *IntListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
-- 
2.43.0


From 14a2a255d6ebc285a9dd96b62c902f0e65307aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 08/54] fix: list and slist Reachable never looked beyond the
 start node

---
 stl/gp/list.gp      | 2 +-
 stl/gp/list.gp.go   | 2 +-
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/list.gp_int.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 83c556b..623bba5 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -278,7 +278,7 @@ func (this *<GLOBAL_NAME_PREFIX>List) Remove(node *<GLOBAL_NAME_PREFIX>ListNode)
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reachable(node, dest *<GLOBAL_NAME_PREFIX>ListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 917e934..bde3457 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -375,7 +375,7 @@ func (this *GOGPGlobalNamePrefixList) Remove(node *GOGPGlobalNamePrefixListNode)
 
 func (this *GOGPGlobalNamePrefixList) Reachable(node, dest *GOGPGlobalNamePrefixListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 1a85b5a..72f591f 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -351,7 +351,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListN
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Reachable(node, dest *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 361b1d0..b4993be 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -448,7 +448,7 @@ func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListN
 
 func (this *GOGPGlobalNamePrefixSList) Reachable(node, dest *GOGPGlobalNamePrefixSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index a6fa305..25a70f8 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -272,7 +272,7 @@ func (this *IntList) Remove(node *IntListNode) (n *IntListNode) {
 
 func (this *IntList) Reachable(node, dest *IntListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index af27744..abbe6cd 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -260,7 +260,7 @@ func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
 
 func (this *IntSList) Reachable(node, dest *IntSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
-- 
2.43.0


From c01f77d4368abf9f45d15a1863b573d3322e0a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:35 +0000
Subject: [PATCH 09/54] fix: list MoveBack and MoveFront corrupted the list
 when given its head

---
 stl/gp/list.gp     | 3 +++
 stl/gp/list.gp.go  | 3 +++
 stl/list.gp_int.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 623bba5..dcc1b6e 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -300,6 +300,9 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveFront(node *<GLOBAL_NAME_PREFIX>ListNo
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
 	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
+		if node == this.head {
+			this.head = node.next
+		}
 		node.next.prev = node.prev
 		node.prev.next = node.next
 		node.next = this.head
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index bde3457..cc67574 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -397,6 +397,9 @@ func (this *GOGPGlobalNamePrefixList) MoveFront(node *GOGPGlobalNamePrefixListNo
 
 func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
 	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
+		if node == this.head {
+			this.head = node.next
+		}
 		node.next.prev = node.prev
 		node.prev.next = node.next
 		node.next = this.head
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 25a70f8..58ed850 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -294,6 +294,9 @@ func (this *IntList) MoveFront(node *IntListNode) (r *IntListNode) {
 
 func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
 	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
+		if node == this.head {
+			this.head = node.next
+		}
 		node.next.prev = node.prev
 		node.prev.next = node.next
 		node.next = this.head
-- 
2.43.0


From 69d40b702852e7ed888b8ddade9916ab6a5b569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:36 +0000
Subject: [PATCH 10/54] fix: list MoveBefore the head and MoveAfter the back
 misplaced the node

MoveBefore never made the node the new head, and both skipped the move when
the two nodes were neighbours only through the circular link.
---
 stl/gp/list.gp     | 7 +++++--
 stl/gp/list.gp.go  | 7 +++++--
 stl/list.gp_int.go | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index dcc1b6e..5898cb9 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -315,19 +315,22 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNod
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBefore(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if mark == this.head {
+				this.head = node
+			}
 		}
 	}
 	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index cc67574..2255d44 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -412,19 +412,22 @@ func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNod
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveBefore(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if mark == this.head {
+				this.head = node
+			}
 		}
 	}
 	return
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveAfter(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 58ed850..ab19d18 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -309,19 +309,22 @@ func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveBefore(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if mark == this.head {
+				this.head = node
+			}
 		}
 	}
 	return
 }
 
 func (this *IntList) MoveAfter(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
-- 
2.43.0


From cda4f3a98382eade3c5e658f7cac5029ed40221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:53 +0000
Subject: [PATCH 11/54] fix: list Reverse kept only one element

---
 stl/gp/list.gp     | 8 ++++----
 stl/gp/list.gp.go  | 8 ++++----
 stl/list.gp_int.go | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 5898cb9..44ce347 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -346,11 +346,11 @@ func (this *<GLOBAL_NAME_PREFIX>List) Empty() bool {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	var r <GLOBAL_NAME_PREFIX>List
+	for n := this.RemoveFront(); n != nil; n = this.RemoveFront() {
+		r.InsertFront(n)
 	}
+	*this = r
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) Sort() {
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 2255d44..528a939 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -443,11 +443,11 @@ func (this *GOGPGlobalNamePrefixList) Empty() bool {
 }
 
 func (this *GOGPGlobalNamePrefixList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	var r GOGPGlobalNamePrefixList
+	for n := this.RemoveFront(); n != nil; n = this.RemoveFront() {
+		r.InsertFront(n)
 	}
+	*this = r
 }
 
 func (this *GOGPGlobalNamePrefixList) Sort() {
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index ab19d18..a6432be 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -340,11 +340,11 @@ func (this *IntList) Empty() bool {
 }
 
 func (this *IntList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	var r IntList
+	for n := this.RemoveFront(); n != nil; n = this.RemoveFront() {
+		r.InsertFront(n)
 	}
+	*this = r
 }
 
 func (this *IntList) Sort() {
-- 
2.43.0


From 58b383a833b4accd0a1b972f265c61a49533d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:54 +0000
Subject: [PATCH 12/54] fix: slist Empty was inverted, which also broke Sort

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 72f591f..c8157ff 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -103,7 +103,7 @@ func New<GLOBAL_NAME_PREFIX>SList() *<GLOBAL_NAME_PREFIX>SList {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Len() (n int) {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index b4993be..5d54597 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -200,7 +200,7 @@ func NewGOGPGlobalNamePrefixSList() *GOGPGlobalNamePrefixSList {
 }
 
 func (this *GOGPGlobalNamePrefixSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *GOGPGlobalNamePrefixSList) Len() (n int) {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index abbe6cd..2973fc6 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -94,7 +94,7 @@ func NewIntSList() *IntSList {
 }
 
 func (this *IntSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *IntSList) Len() (n int) {
-- 
2.43.0


From 768ac29fbba91d1a6298bc0d8f9b2607eed5501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:54 +0000
Subject: [PATCH 13/54] fix: slist visitor Next always reported false, so Len
 was always 0

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index c8157ff..cb618f2 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -79,7 +79,7 @@ func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Get() *<GLOBAL_NAME_PREFIX>SListNode {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 5d54597..751639c 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -176,7 +176,7 @@ func (this *GOGPGlobalNamePrefixSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *GOGPGlobalNamePrefixSListNodeVisitor) Get() *GOGPGlobalNamePrefixSListNode {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 2973fc6..37f1c1e 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -73,7 +73,7 @@ func (this *IntSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *IntSListNodeVisitor) Get() *IntSListNode {
-- 
2.43.0


From 6044ac843bea8bd892493343fcc541089fc08350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:56 +0000
Subject: [PATCH 14/54] fix: slist HasCycle advanced twice per step and
 dereferenced nil

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index cb618f2..a897111 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -329,7 +329,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) Reverse() {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 751639c..5a1b31c 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -426,7 +426,7 @@ func (this *GOGPGlobalNamePrefixSList) Reverse() {
 }
 
 func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 37f1c1e..1a810b4 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -238,7 +238,7 @@ func (this *IntSList) Reverse() {
 }
 
 func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
-- 
2.43.0


From 3a6e137272f1b4d28d756fd6e683df4a8e6afca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:09 +0000
Subject: [PATCH 15/54] fix: sort slice Insert replaced the element at the
 index instead of inserting

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 6 +++---
 stl/gp/sort_slice.gp                      | 6 +++---
 stl/gp/sort_slice.gp.go                   | 6 +++---
 stl/sort_slice.gp_#inttreenodeb60b.go     | 6 +++---
 stl/sort_slice.gp_int.go                  | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 2c83af8..0b34498 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -70,9 +70,9 @@ func (this *FileHashSortSlice) Push(v *FileHashTreeNode) int {
 //insert
 func (this *FileHashSortSlice) Insert(v *FileHashTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 35e2942..1601ae9 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -76,9 +76,9 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Push(v <VALUE_TYPE>) int {
 //insert
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Insert(v <VALUE_TYPE>, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index ac6a660..d0c1010 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -173,9 +173,9 @@ func (this *GOGPGlobalNamePrefixSortSlice) Push(v GOGPValueType) int {
 //insert
 func (this *GOGPGlobalNamePrefixSortSlice) Insert(v GOGPValueType, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 8700512..2318223 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -70,9 +70,9 @@ func (this *IntTreeNodeSortSlice) Push(v *IntTreeNode) int {
 //insert
 func (this *IntTreeNodeSortSlice) Insert(v *IntTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index 65e0f3c..c7e8bb2 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -70,9 +70,9 @@ func (this *IntSortSlice) Push(v int) int {
 //insert
 func (this *IntSortSlice) Insert(v int, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
-- 
2.43.0


From 926b4bdb42118f61961e6a9373ceed6816e2b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:09 +0000
Subject: [PATCH 16/54] fix: sort slice Pop panicked on an empty slice

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 2 +-
 stl/gp/sort_slice.gp                      | 2 +-
 stl/gp/sort_slice.gp.go                   | 2 +-
 stl/sort_slice.gp_#inttreenodeb60b.go     | 2 +-
 stl/sort_slice.gp_int.go                  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 0b34498..5f81b1e 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -92,8 +92,8 @@ func (this *FileHashSortSlice) Remove(idx int) (r *FileHashTreeNode, ok bool) {
 func (this *FileHashSortSlice) Pop() (r *FileHashTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 1601ae9..caf9a03 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -98,8 +98,8 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Remove(idx int) (r <VALUE_TYPE>, ok b
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Pop() (r <VALUE_TYPE>, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index d0c1010..dc608e2 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -195,8 +195,8 @@ func (this *GOGPGlobalNamePrefixSortSlice) Remove(idx int) (r GOGPValueType, ok
 func (this *GOGPGlobalNamePrefixSortSlice) Pop() (r GOGPValueType, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 2318223..95d20e4 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -92,8 +92,8 @@ func (this *IntTreeNodeSortSlice) Remove(idx int) (r *IntTreeNode, ok bool) {
 func (this *IntTreeNodeSortSlice) Pop() (r *IntTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index c7e8bb2..d6b02bb 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -92,8 +92,8 @@ func (this *IntSortSlice) Remove(idx int) (r int, ok bool) {
 func (this *IntSortSlice) Pop() (r int, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
-- 
2.43.0


From 70a700889fb9c1b808f5bcc9b9c03a32a733aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 17/54] fix: RWSpinLock let readers in with a writer and never
 released after readers

The last RUnlock never unlocked the writer lock (its r == 0 test sat inside
r < 0), a reader could enter between a writer's Lock and the reader count
update, and a writer never waited for active readers.
---
 sync/spinrwlock.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sync/spinrwlock.go b/sync/spinrwlock.go
index 3d5e8c0..237e2de 100644
--- a/sync/spinrwlock.go
+++ b/sync/spinrwlock.go
@@ -17,6 +17,11 @@ type RWSpinLock struct {
 func (this *RWSpinLock) Lock() {
 	this.w.Lock()                                             //get writer lock first
 	atomic.AddInt32(&this.readerCount, -rwSpinLockMaxReaders) //tell readers there is a writer
+	for i := 0; atomic.LoadInt32(&this.readerCount) != -rwSpinLockMaxReaders; i++ { //wait for active readers
+		if i > spinLockMaxLoop {
+			panic("[sync] maybe dead lock on RWSpinLock.Lock")
+		}
+	}
 }
 
 func (this *RWSpinLock) Unlock() {
@@ -33,10 +38,9 @@ func (this *RWSpinLock) RLock() {
 		}
 
 		if r := atomic.LoadInt32(&this.readerCount); r >= 0 { // A writer is pending, wait for it.
-			if atomic.AddInt32(&this.readerCount, 1) == 1 {
-				this.w.Lock() //first waiter reader, block writer
+			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {
+				break
 			}
-			break
 		}
 	}
 }
@@ -45,9 +49,5 @@ func (this *RWSpinLock) RUnlock() {
 		if r+1 == 0 || r+1 == -rwSpinLockMaxReaders {
 			panic("sync: RUnlock of unlocked RWSpinLock")
 		}
-		if r == 0 {
-			// The last reader unblocks the writer.
-			this.w.Unlock()
-		}
 	}
 }
-- 
2.43.0


From dc0add1fbac5ed55847720e96ae9eee17c3738d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:44 +0000
Subject: [PATCH 18/54] fix: Fingerprint broke the hash.Hash contract in Sum,
 Reset and Size

Sum dropped the prefix it was given, Reset kept the length of the data hashed
before, and Size returned that length instead of the 24 bytes Sum adds.
---
 hash/finger_print.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index f0b3859..b963e5c 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -56,17 +56,18 @@ func (this *Fingerprint) Sum(b []byte) []byte {
 	buf.Write(this.hs1.Sum(nil)[4:10])
 	buf.Write(this.hs2.Sum(nil)[7:13])
 	buf.Write(this.hs3.Sum(nil)[1:7])
-	return buf.Bytes()
+	return append(b, buf.Bytes()...)
 }
 
 func (this *Fingerprint) Reset() {
 	this.hs1.Reset()
 	this.hs2.Reset()
 	this.hs3.Reset()
+	this.size = 0
 }
 
 func (this *Fingerprint) Size() int {
-	return int(this.size)
+	return 24
 }
 
 func (this *Fingerprint) BlockSize() int {
-- 
2.43.0


From 7d8c69c9b55aba2ef500eecdcb4b42941b10985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:45 +0000
Subject: [PATCH 19/54] fix: NewNoneHash raced on its id counter and could hand
 out duplicates

---
 hash/none_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index 7c08ca2..a08f57f 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"hash"
 	"io"
+	"sync/atomic"
 )
 
 var (
@@ -15,8 +16,7 @@ type NoneHash struct {
 }
 
 func NewNoneHash() hash.Hash {
-	gId++
-	return &NoneHash{id: gId}
+	return &NoneHash{id: atomic.AddUint32(&gId, 1)}
 }
 
 func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
-- 
2.43.0


From 85609b9d62ae8a1fc4765dc34df2b0ba0de8b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:45 +0000
Subject: [PATCH 20/54] fix: NoneHash broke the hash.Hash contract in Write,
 Sum and Size

Write reported 0 bytes written without an error (io.Copy fails with a short
write), Sum dropped the prefix it was given, and Size was not the 4 bytes
Sum adds.
---
 hash/none_hash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index a08f57f..26be196 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -24,7 +24,7 @@ func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (this *NoneHash) Write(p []byte) (n int, err error) {
-	return
+	return len(p), nil
 }
 
 func (this *NoneHash) Sum(b []byte) []byte {
@@ -33,14 +33,14 @@ func (this *NoneHash) Sum(b []byte) []byte {
 	for i := uint(4); i > 0; i-- {
 		buf.WriteByte(byte(id >> ((i - 1) * 8) & 0xff))
 	}
-	return buf.Bytes()
+	return append(b, buf.Bytes()...)
 }
 
 func (this *NoneHash) Reset() {
 }
 
 func (this *NoneHash) Size() int {
-	return 0
+	return 4
 }
 
 func (this *NoneHash) BlockSize() int {
-- 
2.43.0


From 457368c2cb091f3f1c5dcd3f9b0796fc23c8e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:46 +0000
Subject: [PATCH 21/54] fix: Copys gave the data of a WriterTo source to the
 first destination only

---
 io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/io.go b/io/io.go
index 19d3567..004190c 100644
--- a/io/io.go
+++ b/io/io.go
@@ -12,7 +12,7 @@ func Copys(src io.Reader, dsts ...io.Writer) (written int64, err error) {
 
 //copy src to multi dsts
 func CopysBuffer(src io.Reader, buf []byte, dsts ...io.Writer) (written int64, err error) {
-	if wt, ok := src.(io.WriterTo); ok {
+	if wt, ok := src.(io.WriterTo); ok && len(dsts) == 1 { //WriteTo consumes src
 		for _, dst := range dsts {
 			if written, err = wt.WriteTo(dst); err != nil {
 				break
-- 
2.43.0


From 5a9453fe1821e0809ace200304e3b781d4686a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:46 +0000
Subject: [PATCH 22/54] fix: Copys missed a short write of any destination but
 the last

---
 io/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/io.go b/io/io.go
index 004190c..e5a317a 100644
--- a/io/io.go
+++ b/io/io.go
@@ -34,6 +34,9 @@ ReadAll:
 					err = ew
 					break ReadAll
 				}
+				if nw != nr {
+					break
+				}
 			}
 			if nw > 0 {
 				written += int64(nw)
-- 
2.43.0


From a58c350e990b3285cd134f38cb9331a4104fb108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:22 +0000
Subject: [PATCH 23/54] fix: RangeUint32 and RangeUInt64 accepted out of range
 values and wrapped around

Every error return was commented out with the errors package they used, so
nothing enforced the range, overflow went unnoticed and a division by zero
panicked.
---
 math/range_uint32.go | 18 +++++++++---------
 math/range_uint64.go | 20 ++++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/math/range_uint32.go b/math/range_uint32.go
index 21be19c..126c00f 100644
--- a/math/range_uint32.go
+++ b/math/range_uint32.go
@@ -41,7 +41,7 @@ func (me *RangeUint32) Init(_val, _min, _max uint32) (err error) {
 
 func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 	if math.MaxUint32-other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -49,7 +49,7 @@ func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -58,7 +58,7 @@ func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 
 func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 	if other > 0 && math.MaxUint32/other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -66,7 +66,7 @@ func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Div(other uint32) (r uint32, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -82,14 +82,14 @@ func (me *RangeUint32) Mod(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Inc() (r uint32, err error) {
 	if math.MaxUint32 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUint32) Dec(other uint32) (r uint32, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -135,16 +135,16 @@ func (me *RangeUint32) Info() string {
 
 func (me *RangeUint32) verify(_val uint32) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUint32(_val, _min, _max uint32) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUint32] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
diff --git a/math/range_uint64.go b/math/range_uint64.go
index 4fb12fe..26c0292 100644
--- a/math/range_uint64.go
+++ b/math/range_uint64.go
@@ -47,7 +47,7 @@ func (me *RangeUInt64) Init(_val, _min, _max uint64) (err error) {
 
 func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 	if math.MaxUint64-other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -55,7 +55,7 @@ func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -64,7 +64,7 @@ func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 
 func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 	if other > 0 && math.MaxUint64/other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -72,7 +72,7 @@ func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -80,7 +80,7 @@ func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
 	}
 	v := me.val % other
 	r, err = v, me.verify(v)
@@ -88,14 +88,14 @@ func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Inc() (r uint64, err error) {
 	if math.MaxUint64 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUInt64) Dec(other uint64) (r uint64, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -136,16 +136,16 @@ func (me *RangeUInt64) Info() string {
 
 func (me *RangeUInt64) verify(_val uint64) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUInt64(_val, _min, _max uint64) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUInt64] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
-- 
2.43.0


From e92d457b958bff2bd5884e7b8288cbb62cc5d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:23 +0000
Subject: [PATCH 24/54] fix: IsPrime never tried a divisor above 3

---
 math/prime/prime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/prime/prime.go b/math/prime/prime.go
index 9889ddf..0b23baf 100644
--- a/math/prime/prime.go
+++ b/math/prime/prime.go
@@ -11,7 +11,7 @@ func IsPrime(num uint32) bool {
 	if mod != 1 && mod != 5 {
 		return false
 	}
-	max := uint32(0) //uint64(math.Floor(math.Sqrt(float64(num))))
+	max := SqrtUint32(num)
 	for i := 2; i < len(g_primes); i++ {
 		prime := g_primes[i]
 		if prime > max {
-- 
2.43.0


From ae048189b4e9d109ccd7968635492a45abcc7f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:23 +0000
Subject: [PATCH 25/54] fix: ZeroPadding and PKCS5Padding overwrote the
 caller's bytes behind the slice

---
 crypto/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/padding.go b/crypto/padding.go
index 798ffe1..bfa1090 100644
--- a/crypto/padding.go
+++ b/crypto/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func ZeroPadding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func ZeroUnPadding(origData []byte) []byte {
@@ -17,7 +17,7 @@ func ZeroUnPadding(origData []byte) []byte {
 func PKCS5Padding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func PKCS5UnPadding(origData []byte) []byte {
-- 
2.43.0


From 798bc75284e2001e861263018d60ac20b17502ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:24 +0000
Subject: [PATCH 26/54] fix: crypto/ecb and crypto/rsa imported a path that
 does not exist

---
 crypto/ecb/ecb.go  | 2 +-
 crypto/rsa/code.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/ecb/ecb.go b/crypto/ecb/ecb.go
index ca2a0af..ba50a61 100644
--- a/crypto/ecb/ecb.go
+++ b/crypto/ecb/ecb.go
@@ -4,7 +4,7 @@ import (
 	"crypto/des"
 	"errors"
 
-	"gitee.com/vipally/gx/crypto"
+	"github.com/vipally/gx/crypto"
 )
 
 // 3DES加密
diff --git a/crypto/rsa/code.go b/crypto/rsa/code.go
index e1f5981..ce43d83 100644
--- a/crypto/rsa/code.go
+++ b/crypto/rsa/code.go
@@ -5,7 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 
-	"gitee.com/vipally/gx/crypto/ecb"
+	"github.com/vipally/gx/crypto/ecb"
 )
 
 var key = []byte("ac643718-9730-e711-59210")
-- 
2.43.0


From 471c3d7cd5c84ff54778063f3e8ea6b7eb8b5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:25 +0000
Subject: [PATCH 27/54] fix: GenRsaKeys did not compile

---
 crypto/rsa/rsa.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index 805b891..f53bb75 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -104,7 +104,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	//generate private key
 	priKey, _err := rsa.GenerateKey(rand.Reader, bits)
 	if _err != nil {
-		return "", "", _err
+		return nil, nil, _err
 	}
 	derStream := x509.MarshalPKCS1PrivateKey(priKey)
 	block := &pem.Block{
@@ -115,7 +115,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPri bytes.Buffer
 	err = pem.Encode(&bufPri, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	privateKey = bufPri.Bytes()
 
@@ -123,7 +123,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	pubKey := &priKey.PublicKey
 	derPkix, err := x509.MarshalPKIXPublicKey(pubKey)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	block = &pem.Block{
 		Type:  "public key",
@@ -132,7 +132,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPub bytes.Buffer
 	err = pem.Encode(&bufPub, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	publicKey = bufPub.Bytes()
 	return
-- 
2.43.0


From b457865ac5c03684fca3e39171d681d3e546fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:39 +0000
Subject: [PATCH 28/54] fix: Bts and CallStackList looked up return addresses

They named the line after the call, and the wrong function when the call was
the last instruction of a function or was inlined.
---
 debug/backtrace.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/debug/backtrace.go b/debug/backtrace.go
index 59a99e5..c59fa81 100644
--- a/debug/backtrace.go
+++ b/debug/backtrace.go
@@ -62,8 +62,8 @@ func Bts() (bts string) {
 	n := runtime.Callers(BtMe, __pcs[0:])
 	for i := 0; i < n; i++ {
 		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+		_f := runtime.FuncForPC(_pc - 1) //_pc is the return address
+		_file, _line := _f.FileLine(_pc - 1)
 		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\n",
 			i, _f.Name(), _file, _line, _pc)
 		buf.WriteString(s)
@@ -99,8 +99,8 @@ func CallStackList(nDepth int) []string {
 	cs := make([]string, 0, n)
 	for i := 0; i < n; i++ {
 		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+		_f := runtime.FuncForPC(_pc - 1) //_pc is the return address
+		_file, _line := _f.FileLine(_pc - 1)
 		s := fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%0X}",
 			_f.Name(), _file, _line, _pc)
 		cs = append(cs, s)
-- 
2.43.0


From a10e77c609c84fdffa358a9d5ea1b31181500c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:39 +0000
Subject: [PATCH 29/54] fix: factory AddCreater and RemoveCreater reported
 success without doing anything

---
 factory/factoryi.go | 15 +++++++++++++++
 factory/factorys.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/factory/factoryi.go b/factory/factoryi.go
index 0febb58..f9b14d9 100644
--- a/factory/factoryi.go
+++ b/factory/factoryi.go
@@ -1,5 +1,9 @@
 package factory
 
+import (
+	"fmt"
+)
+
 func NewFactoryI() *FactoryI {
 	return &FactoryI{cmap: make(map[int]Creater)}
 }
@@ -9,10 +13,21 @@ type FactoryI struct {
 }
 
 func (me *FactoryI) AddCreater(nType int, creater Creater) error {
+	if creater == nil {
+		return fmt.Errorf("[factory] nil creater for type %d", nType)
+	}
+	if _, ok := me.cmap[nType]; ok {
+		return fmt.Errorf("[factory] type %d already has a creater", nType)
+	}
+	me.cmap[nType] = creater
 	return nil
 }
 
 func (me *FactoryI) RemoveCreater(nType int) error {
+	if _, ok := me.cmap[nType]; !ok {
+		return fmt.Errorf("[factory] type %d has no creater", nType)
+	}
+	delete(me.cmap, nType)
 	return nil
 }
 
diff --git a/factory/factorys.go b/factory/factorys.go
index a66e9a6..ae1cb35 100644
--- a/factory/factorys.go
+++ b/factory/factorys.go
@@ -1,5 +1,9 @@
 package factory
 
+import (
+	"fmt"
+)
+
 func NewFactoryS() *FactoryS {
 	return &FactoryS{cmap: make(map[string]Creater)}
 }
@@ -9,10 +13,21 @@ type FactoryS struct {
 }
 
 func (me *FactoryS) AddCreater(typename string, creater Creater) error {
+	if creater == nil {
+		return fmt.Errorf("[factory] nil creater for type %s", typename)
+	}
+	if _, ok := me.cmap[typename]; ok {
+		return fmt.Errorf("[factory] type %s already has a creater", typename)
+	}
+	me.cmap[typename] = creater
 	return nil
 }
 
 func (me *FactoryS) RemoveCreater(typename string) error {
+	if _, ok := me.cmap[typename]; !ok {
+		return fmt.Errorf("[factory] type %s has no creater", typename)
+	}
+	delete(me.cmap, typename)
 	return nil
 }
 
-- 
2.43.0


From 1b5367f2a60fbbabc62d1cd1de6753b5dd819ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:40 +0000
Subject: [PATCH 30/54] fix: package time did not compile, autoUpdate was
 declared twice

---
 time/time_sys.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/time/time_sys.go b/time/time_sys.go
index 3154fde..6226460 100644
--- a/time/time_sys.go
+++ b/time/time_sys.go
@@ -55,11 +55,6 @@ func (this *timeSys) UpdateAdjust(_unix_time int64) error {
 	return nil
 }
 
-//auto update local time
-func (this *timeSys) autoUpdate() {
-
-}
-
 //autoUpdate is autoUpdateTime duration
 func StartSys(autoUpdate Duration) {
 }
-- 
2.43.0


From 75ff2837acfc6218db0c1790a096da8bc888221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:41 +0000
Subject: [PATCH 31/54] fix: RDTSC returned only half of the counter on amd64

The "=A" constraint names the edx:eax pair on 386 only.
---
 time/rdtsc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/time/rdtsc.go b/time/rdtsc.go
index 8341a2e..cf199c8 100644
--- a/time/rdtsc.go
+++ b/time/rdtsc.go
@@ -6,9 +6,9 @@ package time
 #include<time.h>
 unsigned long long rdtsc(void)
 {
-	unsigned long long ullCPUTick = 0;
-	__asm__ __volatile__("rdtsc" : "=A" (ullCPUTick) : );
-	return ullCPUTick;
+	unsigned int lo = 0, hi = 0;
+	__asm__ __volatile__("rdtsc" : "=a" (lo), "=d" (hi));
+	return ((unsigned long long)hi << 32) | lo;
 }
 */
 import "C"
-- 
2.43.0


From 68b40042b6bee1b9bd41f04d879393afce0a1064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:41 +0000
Subject: [PATCH 32/54] fix: RandRange divided by zero on the full range

---
 math/rand/rand.gp       | 3 +++
 math/rand/rand.gp_32.go | 3 +++
 math/rand/rand.gp_64.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/math/rand/rand.gp b/math/rand/rand.gp
index e958077..810f322 100644
--- a/math/rand/rand.gp
+++ b/math/rand/rand.gp
@@ -67,6 +67,9 @@ func (me *Rand<BITS>T) RandRange(min, max <SEED_TYPE>) <SEED_TYPE> {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_32.go b/math/rand/rand.gp_32.go
index 4d3cfbd..7dc6988 100644
--- a/math/rand/rand.gp_32.go
+++ b/math/rand/rand.gp_32.go
@@ -87,6 +87,9 @@ func (me *Rand32T) RandRange(min, max uint32) uint32 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_64.go b/math/rand/rand.gp_64.go
index b286e57..3d77fb2 100644
--- a/math/rand/rand.gp_64.go
+++ b/math/rand/rand.gp_64.go
@@ -87,6 +87,9 @@ func (me *Rand64T) RandRange(min, max uint64) uint64 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
-- 
2.43.0


From 3fb5f74e5156dff687dc4ad252b165145255aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 33/54] fix: package errors did not compile, Reg was declared
 twice

---
 errors/interface.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/errors/interface.go b/errors/interface.go
index 35f5d87..dfd2bbd 100644
--- a/errors/interface.go
+++ b/errors/interface.go
@@ -15,11 +15,6 @@ type ErrorObj struct {
 	Para []interface{}
 }
 
-//regist an error
-func Reg(moduleId uint16, name, content string, handle Handler) ErrorId {
-	return 0
-}
-
 type ErrorInfo struct {
 	content string
 	name    string
-- 
2.43.0


From d31c11fc8b9ea020c858d69a6aca72cbb6e2c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 34/54] fix: ERRID_STD shared its id with ERRID_UNKNOWN and
 lost its name

init() ran after ERRID_STD had been registered and threw the table away.
---
 errors/errors.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index f5d496d..7eaed44 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -37,10 +37,6 @@ type ErrorDef struct {
 //}
 
 //-------------------------------------------------------------------
-func init() {
-	g_id2err = []string{"unknown error"}
-}
-
 const (
 	//unknown error id
 	ERRID_UNKNOWN = errId(g_id_min)
@@ -52,9 +48,9 @@ var (
 
 var (
 	//registered error mapping
-	g_id2err      = make([]string, 0, g_init_err)
+	g_id2err      = append(make([]string, 0, g_init_err), "unknown error")
 	g_id2err_lock sync.RWMutex
-	g_id_cur_max  errId = g_id_invalid
+	g_id_cur_max  errId = ERRID_UNKNOWN
 )
 
 const (
-- 
2.43.0


From 25c77eba5554b510ff409d311a07ccdd26effe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 35/54] fix: errors.ShowAll read the registry without its lock

---
 errors/errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index 7eaed44..72e134e 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -95,9 +95,12 @@ func Reg(_err_name string) (id errId, err error) {
 
 func ShowAll() string {
 	var buf bytes.Buffer
-	s := fmt.Sprintf("[errors] Count:%d", g_id_cur_max-g_id_min+1)
+	g_id2err_lock.RLock()
+	max := g_id_cur_max
+	g_id2err_lock.RUnlock()
+	s := fmt.Sprintf("[errors] Count:%d", max-g_id_min+1)
 	buf.WriteString(s)
-	for id := errId(g_id_min); id <= g_id_cur_max; id++ {
+	for id := errId(g_id_min); id <= max; id++ {
 		buf.WriteString(consts.NewLine)
 		buf.WriteString(id.String())
 	}
-- 
2.43.0


From 0d70e38dc549b008a27489b453550be2e9cf2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 36/54] fix: errors.StdErr used the text of the error as a
 format

---
 errors/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index 72e134e..9f957ea 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -135,5 +135,5 @@ func (cp errId) String() string {
 }
 
 func StdErr(e error) (err WithIdErr) {
-	return Newf(ERRID_STD, e.Error())
+	return Newf(ERRID_STD, "%s", e.Error())
 }
-- 
2.43.0


From 9a8d8c91186dc9ba0fd999eafdb42abee93cd5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:52 +0000
Subject: [PATCH 37/54] fix: package regable did not compile, its imports were
 stale

---
 regable/reg.go     | 4 ++--
 regable/reg.gp     | 4 ++--
 regable/regable.go | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 01dce47..43fe26b 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -25,8 +25,8 @@ import (
 	"fmt"
 	"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/reg.gp b/regable/reg.gp
index 96c711d..6b1063f 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -5,8 +5,8 @@ import (
 	"fmt"
 	<LOCK_COMMENT>"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/regable.go b/regable/regable.go
index 8a15053..0bd94d7 100644
--- a/regable/regable.go
+++ b/regable/regable.go
@@ -8,8 +8,8 @@ import (
 	"bytes"
 	"fmt"
 
-	acst "vipally.gmail.com/basic/consts"
-	aerr "vipally.gmail.com/basic/errors"
+	acst "github.com/vipally/gx/consts"
+	aerr "github.com/vipally/gx/errors"
 )
 
 const (
@@ -48,7 +48,7 @@ func ShowAllRegs() string {
 	var buf bytes.Buffer
 	buf.WriteString(str_head)
 	for _, f := range g_show_reg_funcs {
-		buf.WriteString(acst.NEW_LINE)
+		buf.WriteString(acst.NewLine)
 		buf.WriteString(f())
 	}
 	return buf.String()
-- 
2.43.0


From 6208f04d17f4899b818907144c476361c2f3cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:06 +0000
Subject: [PATCH 38/54] fix: regable panicked on ids that were never handed out

The lookup went on after it had found the id invalid, and took the next
unassigned id for a valid one.
---
 regable/reg.go | 6 ++++--
 regable/reg.gp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 43fe26b..34706cb 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -189,12 +189,14 @@ type Uint32Id regedId
 func (cp Uint32Id) get() (rg *Uint32Reger, r *_uint32Record, err error) {
 	idrgr, id := regedId(cp).ids()
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
-	if idrgr == g_invalid_id || !g_u32_rgr_id_gen.InCurrentRange(idrgr) {
+	if idrgr == g_invalid_id || idregidx >= uint32(len(g_u32_reger_list)) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	rg = g_u32_reger_list[idregidx]
-	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
+	if id == g_invalid_id || idx >= uint32(len(rg.reg_list)) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 6b1063f..6d1473f 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -169,12 +169,14 @@ type <TYPENAME_U>Id regedId
 func (cp <TYPENAME_U>Id) get() (rg *<TYPENAME_U>Reger, r *_<TYPENAME_L>Record, err error) {
 	idrgr, id := regedId(cp).ids()
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
-	if idrgr == g_invalid_id || !g_<TYPENAME_L_SHORT>_rgr_id_gen.InCurrentRange(idrgr) {
+	if idrgr == g_invalid_id || idregidx >= uint32(len(g_<TYPENAME_L_SHORT>_reger_list)) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	rg = g_<TYPENAME_L_SHORT>_reger_list[idregidx]
-	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
+	if id == g_invalid_id || idx >= uint32(len(rg.reg_list)) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
-- 
2.43.0


From 8f3a495635b868758c2fc1773e473e83672174de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:06 +0000
Subject: [PATCH 39/54] fix: regable objects reported an id without their reger

Uint32Obj.Id never was the id the value had been registered with.
---
 regable/reg.go | 2 +-
 regable/reg.gp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 34706cb..6e01cc6 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -138,7 +138,7 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 		return
 	}
 	p := me.new_rec(name, val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = Uint32Id(MakeRegedId(uint32(me.reger_id), id))
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 6d1473f..0555520 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -118,7 +118,7 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 		return
 	}
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = <TYPENAME_U>Id(MakeRegedId(uint32(me.reger_id), id))
 	return
-- 
2.43.0


From e83e708f073082f7a1482d81048afd4dbe5dd5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:08 +0000
Subject: [PATCH 40/54] fix: package fs did not compile, it used stale names of
 its generated tree

---
 fs/file_path.go            | 26 +++++++++++++-------------
 fs/tree.gp_filehash38b3.go |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index d353667..efe3334 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -415,21 +415,21 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
-			h.Resetsize(int64(root.Size))
+			h.Resetsize(int64(root.val.Size))
 			p := h.String()
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
@@ -464,20 +464,20 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
diff --git a/fs/tree.gp_filehash38b3.go b/fs/tree.gp_filehash38b3.go
index 8b17bd3..b54c1b1 100644
--- a/fs/tree.gp_filehash38b3.go
+++ b/fs/tree.gp_filehash38b3.go
@@ -38,7 +38,7 @@ func NewFileHashTree() *FileHashTree {
 //tree node
 type FileHashTreeNode struct {
 	val      FileHash
-	children FileHashTreeNodeSortSlice
+	children FileHashSortSlice
 }
 
 func (this *FileHashTreeNode) Less(right *FileHashTreeNode) (ok bool) {
-- 
2.43.0


From 5c05acbc4ca2fe3fed69f6f4b83894c0aef8fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 41/54] fix: SplitAll panicked on relative paths and lost the
 root of absolute ones

---
 fs/file_path.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index efe3334..be1147f 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -193,7 +193,9 @@ func (me FilePathObject) SplitAll() []string {
 	i := maxn - 1
 	for ; i >= 0; i-- {
 		p, f := filepath.Split(s)
-		s = strings.TrimSuffix(p, "/")
+		if s = strings.TrimSuffix(p, "/"); s == "" {
+			s = p //keep root
+		}
 		if f != "" {
 			b[i] = f
 		} else {
@@ -205,6 +207,9 @@ func (me FilePathObject) SplitAll() []string {
 			break
 		}
 	}
+	if i < 0 {
+		i = 0
+	}
 	return b[i:]
 }
 
-- 
2.43.0


From fa7306c0af90612ca0679189516b56c659456ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 42/54] fix: CollectSubs reported an unreadable directory as
 empty

---
 fs/fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs/fs.go b/fs/fs.go
index 82de1d0..f0aa364 100644
--- a/fs/fs.go
+++ b/fs/fs.go
@@ -55,9 +55,11 @@ func GetDeepFiles(dir string) (subs []string, err error) {
 }
 
 func CollectSubs(dir string, opt FsOption) (subs []string, err error) {
-	if _f, err := os.Open(dir); err == nil {
+	var _f *os.File
+	if _f, err = os.Open(dir); err == nil {
 		defer _f.Close()
-		if _subs, err := _f.Readdir(0); err == nil {
+		var _subs []os.FileInfo
+		if _subs, err = _f.Readdir(0); err == nil {
 			_has_sub_dir := false
 			for _, _v := range _subs {
 				_sub_name := _v.Name()
-- 
2.43.0


From 77f7d0f4e0564212d8bc584502626b8e9836be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:10 +0000
Subject: [PATCH 43/54] fix: Rename, Link, Symlink and Move misplaced their
 destination

An absolute destination was taken as relative where paths have no volume
name, and Move resolved a relative destination twice.
---
 fs/file_path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index be1147f..70b47e9 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -344,7 +344,7 @@ func (me FilePathObject) Stat() (os.FileInfo, error) {
 //if _destPath is related path, then calculate from me.Dir
 func (me FilePathObject) relateThisPath(_destPath string) FilePathObject {
 	n := FilePath(_destPath)
-	if n.VolumeName() == "" { //related path, then calculate from me.Dir
+	if n.VolumeName() == "" && !filepath.IsAbs(n.String()) { //related path, then calculate from me.Dir
 		n.Set(Joins(me.Dir(), n.String()))
 	}
 	return n
@@ -498,7 +498,7 @@ func (me FilePathObject) Copy(destPath string) (FilePathObject, error) {
 func (me FilePathObject) Move(destPath string) (FilePathObject, error) {
 	n := me.relateThisPath(destPath)
 	if me.VolumeName() == n.VolumeName() { //not cross disk,use rename operation
-		return me.Rename(n.String())
+		return n, os.Rename(string(me), n.String())
 	}
 	return "", nil
 }
-- 
2.43.0


From 0a365783b939343f9c17725d0c4ff84a2c9943bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:10 +0000
Subject: [PATCH 44/54] fix: Fingerprint and Hash ignored read errors of a file

---
 fs/file_path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 70b47e9..041e244 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -428,7 +428,9 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			h.Resetsize(int64(root.val.Size))
@@ -477,7 +479,9 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From ad6d52dcb465ea2230739f7c641f16b5a4f2148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:29 +0000
Subject: [PATCH 45/54] fix: rsa.NewClient panicked on a public key that is not
 an RSA key

---
 crypto/rsa/rsa.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index f53bb75..a650faf 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -36,7 +36,10 @@ func NewClient(publicKey []byte) (*RsaClient, error) {
 	if err != nil {
 		return nil, err
 	}
-	pub := pubInterface.(*rsa.PublicKey)
+	pub, ok := pubInterface.(*rsa.PublicKey)
+	if !ok {
+		return nil, errPublicKey
+	}
 	c := &RsaClient{publicKey: pub}
 	return c, nil
 }
-- 
2.43.0


From 43813e5e827aa4ddae4aa367cae6a7d5ea78ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:53 +0000
Subject: [PATCH 46/54] fix: StringBytes keeps the string's buffer alive across
 a garbage collection

---
 unsafe/string.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unsafe/string.go b/unsafe/string.go
index e2d7607..54859a0 100644
--- a/unsafe/string.go
+++ b/unsafe/string.go
@@ -47,10 +47,13 @@ func (me String) Pointer() Pointer {
 
 //return GoString's buffer slice(enable modify string)
 func StringBytes(s string) Bytes {
-	var bh reflect.SliceHeader
+	// fill in the header of a real slice: the address in a plain
+	// reflect.SliceHeader does not keep the buffer alive
+	var b Bytes
+	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
 	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
 	bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, sh.Len
-	return *(*Bytes)(unsafe.Pointer(&bh))
+	return b
 }
 
 // convert b to string without copy
-- 
2.43.0


From 66406748e3a4d868b847b0471df37a2cd4c15b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 47/54] fix: heap template without GOGP_ImproveSTL moved values
 above the node being adjusted, so MakeHeap gave no heap

---
 stl/gp/heap.gp    | 10 +++++++++-
 stl/gp/heap.gp.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index 2e45815..1d11b83 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -105,6 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) adjustDown(b []<VALUE_TYPE>, hole int, v <
 	//#GOGP_ELSE
 	//C++ stl's adjust down algorithm
 	//it seems to cost more move, to get probably less cmpare
+	top := hole
 	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
 		c := l                                              //index that need to be new root
 		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
@@ -112,7 +113,14 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) adjustDown(b []<VALUE_TYPE>, hole int, v <
 		}
 		b[hole], hole = b[c], c
 	}
-	this.adjustUp(b, hole, v) //adjust up from leaf hole
+	for hole > top { //adjust up from leaf hole, but never above where v came from
+		parent := this.parent(hole)
+		if this.cmpV(v, b[parent]) {
+			break
+		}
+		b[hole], hole = b[parent], parent
+	}
+	b[hole] = v
 	//#GOGP_ENDIF
 }
 
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index 25dc7d2..0bc2e42 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -202,6 +202,7 @@ func (this *GOGPGlobalNamePrefixHeap) adjustDown(b []GOGPValueType, hole int, v
 	//#GOGP_ELSE
 	//C++ stl's adjust down algorithm
 	//it seems to cost more move, to get probably less cmpare
+	top := hole
 	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
 		c := l                                              //index that need to be new root
 		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
@@ -209,7 +210,14 @@ func (this *GOGPGlobalNamePrefixHeap) adjustDown(b []GOGPValueType, hole int, v
 		}
 		b[hole], hole = b[c], c
 	}
-	this.adjustUp(b, hole, v) //adjust up from leaf hole
+	for hole > top { //adjust up from leaf hole, but never above where v came from
+		parent := this.parent(hole)
+		if this.cmpV(v, b[parent]) {
+			break
+		}
+		b[hole], hole = b[parent], parent
+	}
+	b[hole] = v
 	//#GOGP_ENDIF
 }
 
-- 
2.43.0


From b8bf2bbd9df1e425190c3d0b95c72d48e3daa0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 48/54] fix: lock-free queue template counted a pop of an empty
 queue

---
 stl/gp/lfqueue.gp    | 2 +-
 stl/gp/lfqueue.gp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfqueue.gp b/stl/gp/lfqueue.gp
index be666a6..6e39a3a 100644
--- a/stl/gp/lfqueue.gp
+++ b/stl/gp/lfqueue.gp
@@ -97,11 +97,11 @@ func (this *<GLOBAL_NAME_PREFIX>LFQueue) PopFront() (v <VALUE_TYPE>, ok bool) {
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
 				v, ok = n.val, true
+				atomic.AddInt32(&this.size, -1)
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
diff --git a/stl/gp/lfqueue.gp.go b/stl/gp/lfqueue.gp.go
index d95984d..86d3086 100644
--- a/stl/gp/lfqueue.gp.go
+++ b/stl/gp/lfqueue.gp.go
@@ -97,11 +97,11 @@ func (this *GOGPGlobalNamePrefixLFQueue) PopFront() (v GOGPValueType, ok bool) {
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
 				v, ok = n.val, true
+				atomic.AddInt32(&this.size, -1)
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
-- 
2.43.0


From 4756916cc83261776825a390cf3ac5f20de9590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:41 +0000
Subject: [PATCH 49/54] fix: Clear of the lock-free queue template left its
 size

---
 stl/gp/lfqueue.gp    | 6 +++++-
 stl/gp/lfqueue.gp.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfqueue.gp b/stl/gp/lfqueue.gp
index 6e39a3a..7b815bd 100644
--- a/stl/gp/lfqueue.gp
+++ b/stl/gp/lfqueue.gp
@@ -106,7 +106,11 @@ func (this *<GLOBAL_NAME_PREFIX>LFQueue) PopFront() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>LFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	var n int32
+	for p := atomic.SwapPointer(&this.head.next, nil); p != nil; p = (*<GLOBAL_NAME_PREFIX>LFQueueNode)(p).next {
+		n++
+	}
+	atomic.AddInt32(&this.size, -n)
 	//atomic.StorePointer(&this.tail, nil)
 }
 
diff --git a/stl/gp/lfqueue.gp.go b/stl/gp/lfqueue.gp.go
index 86d3086..880ceeb 100644
--- a/stl/gp/lfqueue.gp.go
+++ b/stl/gp/lfqueue.gp.go
@@ -106,7 +106,11 @@ func (this *GOGPGlobalNamePrefixLFQueue) PopFront() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixLFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	var n int32
+	for p := atomic.SwapPointer(&this.head.next, nil); p != nil; p = (*GOGPGlobalNamePrefixLFQueueNode)(p).next {
+		n++
+	}
+	atomic.AddInt32(&this.size, -n)
 	//atomic.StorePointer(&this.tail, nil)
 }
 
-- 
2.43.0


From 0cadd93696685f7672f5fed2f94d1b784f691f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:41 +0000
Subject: [PATCH 50/54] fix: ring buffer template always had room for one value
 only

---
 stl/gp/ringbuffer.gp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index b1eec5a..a030d38 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -38,7 +38,7 @@ func (this *GOGPGlobalNamePrefixRingBuffer) Init(bufSize int) {
 			bufSize = defaultRingBufferCap //default buffer size
 		}
 		sizeRndUp := 1
-		for sizeRndUp := 1; sizeRndUp < bufSize; sizeRndUp *= 2 { //body do nothing
+		for ; sizeRndUp < bufSize; sizeRndUp *= 2 { //body do nothing
 		}
 		this.mask = uint64(sizeRndUp - 1)
 		this.newBuf(sizeRndUp)
-- 
2.43.0


From 270cfd020c6e0198cf9ef4803664766358deacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:41 +0000
Subject: [PATCH 51/54] fix: Push and Pop of the ring buffer template ignored
 full and empty and never reported success

---
 stl/gp/ringbuffer.gp.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index a030d38..6a24835 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -86,22 +86,35 @@ func (this *GOGPGlobalNamePrefixRingBuffer) MustPop() (val GOGPValueType, ok boo
 
 //push to back of deque, will return false when full
 func (this *GOGPGlobalNamePrefixRingBuffer) Push(v GOGPValueType) (ok bool) {
-	tail_r := atomic.AddUint64(&this.tail_r, 1)
-	idx := tail_r & this.mask
-	this.d[idx] = v
-	for old := tail_r - 1; !atomic.CompareAndSwapUint64(&this.tail, old, tail_r); { //body do nothing
+	for {
+		old := atomic.LoadUint64(&this.tail_r)
+		if old >= atomic.LoadUint64(&this.head)+this.mask+1 { //full
+			atomic.AddUint64(&this.busy, 1)
+			return
+		}
+		if atomic.CompareAndSwapUint64(&this.tail_r, old, old+1) {
+			this.d[old&this.mask], ok = v, true
+			for !atomic.CompareAndSwapUint64(&this.tail, old, old+1) { //body do nothing
+			}
+			return
+		}
 	}
-	return
 }
 
 //pop front of deque, will return false when empty
 func (this *GOGPGlobalNamePrefixRingBuffer) Pop() (val GOGPValueType, ok bool) {
-	head_r := atomic.AddUint64(&this.head_r, 1)
-	idx := head_r & this.mask
-	val, ok = this.d[idx], true
-	for old := head_r - 1; !atomic.CompareAndSwapUint64(&this.head, old, head_r); { //body do nothing
+	for {
+		old := atomic.LoadUint64(&this.head_r)
+		if old >= atomic.LoadUint64(&this.tail) { //empty
+			return
+		}
+		if atomic.CompareAndSwapUint64(&this.head_r, old, old+1) {
+			val, ok = this.d[old&this.mask], true
+			for !atomic.CompareAndSwapUint64(&this.head, old, old+1) { //body do nothing
+			}
+			return
+		}
 	}
-	return
 }
 
 //data buffer size
-- 
2.43.0


From a62831a520c859bf71ab9c01bd2e21e67ac2fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:34 +0000
Subject: [PATCH 52/54] fix: lock-free deque template indexed before its buffer
 at the wrap

---
 stl/gp/lfdeque.gp    | 2 +-
 stl/gp/lfdeque.gp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfdeque.gp b/stl/gp/lfdeque.gp
index f7c5b8d..6814339 100644
--- a/stl/gp/lfdeque.gp
+++ b/stl/gp/lfdeque.gp
@@ -212,7 +212,7 @@ func (this *<GLOBAL_NAME_PREFIX>LFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *<GLOBAL_NAME_PREFIX>LFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
+	if r = idx - 1; idx == 0 {
 		r = this.Cap() - 1
 	}
 	return
diff --git a/stl/gp/lfdeque.gp.go b/stl/gp/lfdeque.gp.go
index 5566815..767d220 100644
--- a/stl/gp/lfdeque.gp.go
+++ b/stl/gp/lfdeque.gp.go
@@ -212,7 +212,7 @@ func (this *GOGPGlobalNamePrefixLFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *GOGPGlobalNamePrefixLFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
+	if r = idx - 1; idx == 0 {
 		r = this.Cap() - 1
 	}
 	return
-- 
2.43.0


From 8c2f91622a53e3f72b337baa34e40a67a278c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:26 +0000
Subject: [PATCH 53/54] fix: SList.Reachable and IsValidNode end on a chain
 that runs into a ring

---
 stl/gp/slist.gp     | 5 ++++-
 stl/gp/slist.gp.go  | 5 ++++-
 stl/slist.gp_int.go | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index a897111..4950811 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -351,10 +351,13 @@ func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListN
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Reachable(node, dest *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node.next; p != nil && p != node; p = p.next {
+		for p, slow, step := node.next, node, false; p != nil && p != slow; p, step = p.next, !step {
 			if ok = (p == dest); ok {
 				break
 			}
+			if step { //slow follows at half the speed, p meets it only after it went round a whole ring
+				slow = slow.next
+			}
 		}
 	}
 	return
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 5a1b31c..6b9204e 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -448,10 +448,13 @@ func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListN
 
 func (this *GOGPGlobalNamePrefixSList) Reachable(node, dest *GOGPGlobalNamePrefixSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node.next; p != nil && p != node; p = p.next {
+		for p, slow, step := node.next, node, false; p != nil && p != slow; p, step = p.next, !step {
 			if ok = (p == dest); ok {
 				break
 			}
+			if step { //slow follows at half the speed, p meets it only after it went round a whole ring
+				slow = slow.next
+			}
 		}
 	}
 	return
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 1a810b4..bd32cb8 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -260,10 +260,13 @@ func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
 
 func (this *IntSList) Reachable(node, dest *IntSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node.next; p != nil && p != node; p = p.next {
+		for p, slow, step := node.next, node, false; p != nil && p != slow; p, step = p.next, !step {
 			if ok = (p == dest); ok {
 				break
 			}
+			if step { //slow follows at half the speed, p meets it only after it went round a whole ring
+				slow = slow.next
+			}
 		}
 	}
 	return
-- 
2.43.0


From e01ece6c21774108caf8073bebb3d30805d93ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:22 +0000
Subject: [PATCH 54/54] fix: reading an ini file that fails midway passed for a
 complete document

---
 encoding/ini/ini.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/encoding/ini/ini.go b/encoding/ini/ini.go
index 3129f01..e6695cf 100644
--- a/encoding/ini/ini.go
+++ b/encoding/ini/ini.go
@@ -41,11 +41,20 @@ func New(path string) (*IniFile, error) {
 	defer func() {
 		f.Close()
 	}()
-	r := Load(f)
+	r, err := load(f)
+	if err != nil {
+		return nil, err
+	}
 	return r, nil
 }
 
 func Load(f io.Reader) *IniFile {
+	r, _ := load(f)
+	return r
+}
+
+//load what can be read of f, with the error that ended it
+func load(f io.Reader) (*IniFile, error) {
 	m := make(map[string]section)
 	r := bufio.NewReader(f)
 	sec := ""
@@ -83,7 +92,10 @@ func Load(f io.Reader) *IniFile {
 		}
 		m[sec][key] = val
 	}
-	return &IniFile{m}
+	if err == io.EOF {
+		err = nil
+	}
+	return &IniFile{m}, err
 }
 
 func (p *IniFile) Sections() []string {
-- 
2.43.0

