From a4416fc4f05cc07fecc3f3865383d5997d976754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 01/12] fix: give Int an Equal method so that it can be the key
 type of a Map or Set

Int is documented as a key type for the generic Map, but without Equal it does
not satisfy Key[Int], and Map[Int, V] does not compile.
---
 int_map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/int_map.go b/int_map.go
index 6eeb39c..66ad37a 100644
--- a/int_map.go
+++ b/int_map.go
@@ -31,6 +31,8 @@ import (
 // Int may be used as the key type of a generic Map[Int, V].
 type Int int
 
+func (i Int) Equal(i2 Int) bool { return i == i2 }
+
 func (i Int) Hash(seed maphash.Seed, iter uint) uint64 {
 	b := intbytes(IntKey(i))
 	var hw maphash.Hash
-- 
2.43.0


From d718e54a866b0be6bb6eae79aa9de2f6cafd9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 02/12] fix: BytesSet.Del deletes the given key instead of
 another key in its place

---
 bytes_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes_set.go b/bytes_set.go
index c0027fb..7fac452 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -203,7 +203,7 @@ func (s BytesSet) Del(key []byte) {
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			continue
 		}
-		if bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
 			return
 		}
 		l.pmap &^= bit
-- 
2.43.0


From 64a9a43f0ec75fff84798952e00ad2d42eb3b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 03/12] fix: ArrMap.Set keeps the value when the new key
 collides with an existing one

---
 arr_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arr_map.go b/arr_map.go
index 01fda75..ff26598 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -167,7 +167,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
+				kv := &arrkv[K, V]{k: key, v: value}
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From 215929ce8f33aeb3091d1edf349d1b14dc4ae549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 04/12] fix: generic Map.Set and Set.Add rehash the conflicting
 key as often as lookups do

---
 generic_map.go | 2 +-
 generic_set.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index d93eb22..2fd1a23 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -146,7 +146,7 @@ func (m Map[K, V]) Set(key K, value V) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
diff --git a/generic_set.go b/generic_set.go
index ec8f206..d862c20 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -97,7 +97,7 @@ func (s Set[K]) Add(key K) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(s.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		s.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From d05783d19ed4228faad38adf6c74c3d377761e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 05/12] fix: generic Map.Mod rehashes the conflicting key, not
 the new one, when it splits a slot

---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 2fd1a23..70ad36d 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -235,7 +235,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			return
 		}
 		// rehash conflicting key
-		chd := key.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From 73b9ccb457843d99e8a842297d787a580ccd40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 06/12] fix: HashBytes terminates for iter counts of 255 and
 more

---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 70ad36d..857dca9 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -43,7 +43,7 @@ type Key[K any] interface {
 func HashBytes(key []byte, seed maphash.Seed, iter uint) uint64 {
 	var hw maphash.Hash
 	hw.SetSeed(seed)
-	for i := uint8(0); i <= uint8(iter); i++ {
+	for i := uint(0); i <= iter; i++ {
 		hw.Write(key)
 	}
 	return hw.Sum64()
-- 
2.43.0


From 8c19196b230310ed5455168722324b810734eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 07/12] fix: IntMap and IntSet leave no key bits in the type
 map of an intermediate branch

---
 int_map.go | 4 ++--
 int_set.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/int_map.go b/int_map.go
index 66ad37a..5514aca 100644
--- a/int_map.go
+++ b/int_map.go
@@ -178,7 +178,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 				hd, chd = hw.Sum64(), chw.Sum64()
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			item.pmap, item.tmap = kbit|cbit, 0
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
@@ -286,7 +286,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 				hd, chd = hw.Sum64(), chw.Sum64()
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			item.pmap, item.tmap = kbit|cbit, 0
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
diff --git a/int_set.go b/int_set.go
index 7c6e44a..45ccd59 100644
--- a/int_set.go
+++ b/int_set.go
@@ -128,7 +128,7 @@ func (s IntSet) Add(key IntKey) {
 				hd, chd = hw.Sum64(), chw.Sum64()
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			item.pmap, item.tmap = kbit|cbit, 0
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-- 
2.43.0


From ac07a9b138b25f0a5aee28f7e0805b0b2ec40cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 08/12] fix: count levels with an unsigned word, so that deep
 branches do not wrap the depth

---
 arr_map.go     | 12 ++++++------
 arr_set.go     |  8 ++++----
 bytes_map.go   | 12 ++++++------
 bytes_set.go   |  8 ++++----
 generic_map.go |  8 ++++----
 generic_set.go |  6 +++---
 int_map.go     | 12 ++++++------
 int_set.go     |  8 ++++----
 string_map.go  | 12 ++++++------
 string_set.go  |  8 ++++----
 10 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index ff26598..e3e30e6 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -85,7 +85,7 @@ func (m ArrMap[K, V]) Ptr(key K) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -117,7 +117,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -145,7 +145,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -219,7 +219,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -247,7 +247,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -324,7 +324,7 @@ func (m ArrMap[K, V]) Del(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/arr_set.go b/arr_set.go
index c19eccf..ef30a39 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -55,7 +55,7 @@ func (s ArrSet[K]) Has(key K) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -84,7 +84,7 @@ func (s ArrSet[K]) Add(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -111,7 +111,7 @@ func (s ArrSet[K]) Add(key K) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -185,7 +185,7 @@ func (s ArrSet[K]) Del(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/bytes_map.go b/bytes_map.go
index 830804d..52f1797 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -93,7 +93,7 @@ func (m BytesMap[V]) Ptr(key []byte) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -125,7 +125,7 @@ func (m BytesMap[V]) Set(key []byte, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -152,7 +152,7 @@ func (m BytesMap[V]) Set(key []byte, value V) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -230,7 +230,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -257,7 +257,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -339,7 +339,7 @@ func (m BytesMap[V]) Del(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/bytes_set.go b/bytes_set.go
index 7fac452..22d5b43 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -56,7 +56,7 @@ func (s BytesSet) Has(key []byte) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -85,7 +85,7 @@ func (s BytesSet) Add(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -111,7 +111,7 @@ func (s BytesSet) Add(key []byte) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -184,7 +184,7 @@ func (s BytesSet) Del(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/generic_map.go b/generic_map.go
index 857dca9..c4fbfff 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -95,7 +95,7 @@ func (m Map[K, V]) Val(key K) (value V) {
 // Ptr returns a pointer to the value for key, or nil if the key is missing.
 // The value may be updated through the returned pointer.
 func (m Map[K, V]) Ptr(key K) *V {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -122,7 +122,7 @@ func (m Map[K, V]) Ptr(key K) *V {
 
 // Set adds or updates the value for key.
 func (m Map[K, V]) Set(key K, value V) {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -211,7 +211,7 @@ func (m Map[K, V]) Set(key K, value V) {
 // Mod modifies the value for key using the mod callback. The mod callback receives
 // a pointer to the existing or new value for key, and true if the key existed.
 func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -303,7 +303,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 // Del deletes the value for key.
 func (m Map[K, V]) Del(key K) {
 	path := m.path[:0]
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/generic_set.go b/generic_set.go
index d862c20..d459d85 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -50,7 +50,7 @@ func (s Set[K]) Dep() float64 { return s.root.Dep() }
 
 // Has returns true if s contains key.
 func (s Set[K]) Has(key K) bool {
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -74,7 +74,7 @@ func (s Set[K]) Has(key K) bool {
 
 // Add adds key to s.
 func (s Set[K]) Add(key K) {
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -162,7 +162,7 @@ func (s Set[K]) Add(key K) {
 // Del deletes key from s.
 func (s Set[K]) Del(key K) {
 	path := s.path[:0]
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/int_map.go b/int_map.go
index 5514aca..e38d156 100644
--- a/int_map.go
+++ b/int_map.go
@@ -100,7 +100,7 @@ func (m IntMap[V]) Ptr(key IntKey) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -132,7 +132,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -160,7 +160,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -240,7 +240,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -268,7 +268,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -351,7 +351,7 @@ func (m IntMap[V]) Del(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/int_set.go b/int_set.go
index 45ccd59..10a4239 100644
--- a/int_set.go
+++ b/int_set.go
@@ -55,7 +55,7 @@ func (s IntSet) Has(key IntKey) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -84,7 +84,7 @@ func (s IntSet) Add(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -110,7 +110,7 @@ func (s IntSet) Add(key IntKey) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -187,7 +187,7 @@ func (s IntSet) Del(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/string_map.go b/string_map.go
index 2470a61..caa70ed 100644
--- a/string_map.go
+++ b/string_map.go
@@ -91,7 +91,7 @@ func (m StringMap[V]) Ptr(key string) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -122,7 +122,7 @@ func (m StringMap[V]) Set(key string, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -149,7 +149,7 @@ func (m StringMap[V]) Set(key string, value V) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -222,7 +222,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -249,7 +249,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -325,7 +325,7 @@ func (m StringMap[V]) Del(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/string_set.go b/string_set.go
index 4b7da97..aab4120 100644
--- a/string_set.go
+++ b/string_set.go
@@ -54,7 +54,7 @@ func (s StringSet) Has(key string) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -82,7 +82,7 @@ func (s StringSet) Add(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -108,7 +108,7 @@ func (s StringSet) Add(key string) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -181,7 +181,7 @@ func (s StringSet) Del(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
-- 
2.43.0


From 6a0caaf471dfe0a9d48b8eca233d464b3e0a1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 09/12] fix: Mod calls its callback before it starts to replace
 a colliding key

---
 arr_map.go    | 4 ++--
 bytes_map.go  | 4 ++--
 int_map.go    | 4 ++--
 string_map.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index e3e30e6..728bcab 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -251,6 +251,8 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &arrkv[K, V]{k: key}
+		mod(&kv.v, false) // before any change, since the callback may panic or read the map
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -269,8 +271,6 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/bytes_map.go b/bytes_map.go
index 52f1797..c481058 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -267,6 +267,8 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			item.ptr = unsafe.Pointer(kv)
 			return
 		}
+		kv := &byteskv[V]{k: key}
+		mod(&kv.v, false) // before any change, since the callback may panic or read the map
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -285,8 +287,6 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &byteskv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/int_map.go b/int_map.go
index e38d156..19b1f74 100644
--- a/int_map.go
+++ b/int_map.go
@@ -272,6 +272,8 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		val := &intkv[V]{}
+		mod(&val.v, false) // before any change, since the callback may panic or read the map
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -290,8 +292,6 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				val := &intkv[V]{}
-				mod(&val.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0] = link{ptr: unsafe.Pointer(val), pmap: uint32(key), tmap: uint32(key >> 32)}
 					pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(ckey >> 32)}
diff --git a/string_map.go b/string_map.go
index caa70ed..57737c7 100644
--- a/string_map.go
+++ b/string_map.go
@@ -253,6 +253,8 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &strkv[V]{k: key}
+		mod(&kv.v, false) // before any change, since the callback may panic or read the map
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -271,8 +273,6 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &strkv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From 5e5f73be13739e6c84f9c1aae235202dbebf2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 10/12] fix: generic Map and Set complete a new branch before
 they link it

---
 generic_map.go | 44 ++++++++++++++++++++++++++------------------
 generic_set.go | 22 +++++++++++++---------
 2 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index c4fbfff..c918eb3 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -147,9 +147,10 @@ func (m Map[K, V]) Set(key K, value V) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
-		// replace with new branch until non-colliding
-		l.tmap &^= bit
-		m.dep -= uint64(d) // conflicting key depth
+		// replace with new branch until non-colliding; the branch is linked when it is
+		// complete, since the methods of the keys may panic or read the map
+		cd, branch := d, link{}
+		b := &branch
 		for {
 			d++
 			if d&0xF != 0 { // hash bits available
@@ -159,23 +160,26 @@ func (m Map[K, V]) Set(key K, value V) {
 				hd, chd = key.Hash(m.seed, uint(d>>4)), ckey.Hash(m.seed, uint(d>>4))
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			b.pmap = kbit | cbit
 			if kbit != cbit { // non-colliding
-				item.tmap = item.pmap
-				item.ptr = newLinkArray(2)
+				b.tmap = b.pmap
+				b.ptr = newLinkArray(2)
 				kv := &kv[K, V]{value, key}
-				if pair := (*[2]link)(item.ptr); kbit < cbit {
+				if pair := (*[2]link)(b.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)
 				}
+				*item = branch
+				l.tmap &^= bit
 				m.len++
+				m.dep -= uint64(cd) // conflicting key depth
 				m.dep += uint64(d) * 2
 				return // item added
 			}
 			// handle collision at new level
-			item.ptr = newLinkArray(1)
-			item = (*link)(item.ptr)
+			b.ptr = newLinkArray(1)
+			b = (*link)(b.ptr)
 		}
 	}
 	count := uint8(bits.OnesCount32(l.pmap))
@@ -236,9 +240,10 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
-		// replace with new branch until non-colliding
-		l.tmap &^= bit
-		m.dep -= uint64(d) // conflicting key depth
+		// replace with new branch until non-colliding; the branch is linked when it is
+		// complete, since the methods of the keys may panic or read the map
+		cd, branch := d, link{}
+		b := &branch
 		for {
 			d++
 			if d&0xF != 0 { // hash bits available
@@ -248,24 +253,27 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 				hd, chd = key.Hash(m.seed, uint(d>>4)), ckey.Hash(m.seed, uint(d>>4))
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			b.pmap = kbit | cbit
 			if kbit != cbit { // non-colliding
-				item.tmap = item.pmap
-				item.ptr = newLinkArray(2)
+				b.tmap = b.pmap
+				b.ptr = newLinkArray(2)
 				kv := &kv[K, V]{k: key}
 				mod(&kv.v, false)
-				if pair := (*[2]link)(item.ptr); kbit < cbit {
+				if pair := (*[2]link)(b.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)
 				}
+				*item = branch
+				l.tmap &^= bit
 				m.len++
+				m.dep -= uint64(cd) // conflicting key depth
 				m.dep += uint64(d) * 2
 				return // item added
 			}
 			// handle collision at new level
-			item.ptr = newLinkArray(1)
-			item = (*link)(item.ptr)
+			b.ptr = newLinkArray(1)
+			b = (*link)(b.ptr)
 		}
 	}
 	kv := &kv[K, V]{k: key}
diff --git a/generic_set.go b/generic_set.go
index d459d85..fd9b435 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -98,9 +98,10 @@ func (s Set[K]) Add(key K) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
-		// replace with new branch until non-colliding
-		l.tmap &^= bit
-		s.dep -= uint64(d) // conflicting key depth
+		// replace with new branch until non-colliding; the branch is linked when it is
+		// complete, since the methods of the keys may panic or read the set
+		cd, branch := d, link{}
+		b := &branch
 		for {
 			d++
 			if d&0xF != 0 { // hash bits available
@@ -110,23 +111,26 @@ func (s Set[K]) Add(key K) {
 				hd, chd = key.Hash(s.seed, uint(d>>4)), ckey.Hash(s.seed, uint(d>>4))
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			b.pmap = kbit | cbit
 			if kbit != cbit { // non-colliding
-				item.tmap = item.pmap
-				item.ptr = newLinkArray(2)
+				b.tmap = b.pmap
+				b.ptr = newLinkArray(2)
 				kv := &kv[K, struct{}]{k: key}
-				if pair := (*[2]link)(item.ptr); kbit < cbit {
+				if pair := (*[2]link)(b.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)
 				}
+				*item = branch
+				l.tmap &^= bit
 				s.len++
+				s.dep -= uint64(cd) // conflicting key depth
 				s.dep += uint64(d) * 2
 				return // key added
 			}
 			// handle collision at new level
-			item.ptr = newLinkArray(1)
-			item = (*link)(item.ptr)
+			b.ptr = newLinkArray(1)
+			b = (*link)(b.ptr)
 		}
 	}
 	count := uint8(bits.OnesCount32(l.pmap))
-- 
2.43.0


From 842e5bcb0c10b53ffe19dea38cfd4d73a4d7a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 11/12] fix: Del clears the slot it vacates, so that the
 deleted value can be collected

---
 arr_map.go     | 3 +++
 arr_set.go     | 3 +++
 bytes_map.go   | 3 +++
 bytes_set.go   | 3 +++
 generic_map.go | 3 +++
 generic_set.go | 3 +++
 int_map.go     | 3 +++
 int_set.go     | 3 +++
 string_map.go  | 3 +++
 string_set.go  | 3 +++
 10 files changed, 30 insertions(+)

diff --git a/arr_map.go b/arr_map.go
index 728bcab..e875aa4 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -376,6 +376,9 @@ func (m ArrMap[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/arr_set.go b/arr_set.go
index ef30a39..ef686d3 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -237,6 +237,9 @@ func (s ArrSet[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/bytes_map.go b/bytes_map.go
index c481058..a171c0b 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -391,6 +391,9 @@ func (m BytesMap[V]) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/bytes_set.go b/bytes_set.go
index 22d5b43..32d2652 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -236,6 +236,9 @@ func (s BytesSet) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/generic_map.go b/generic_map.go
index c918eb3..54f544e 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -362,6 +362,9 @@ func (m Map[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/generic_set.go b/generic_set.go
index fd9b435..9d5869c 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -217,6 +217,9 @@ func (s Set[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/int_map.go b/int_map.go
index 19b1f74..8e29cce 100644
--- a/int_map.go
+++ b/int_map.go
@@ -403,6 +403,9 @@ func (m IntMap[V]) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/int_set.go b/int_set.go
index 10a4239..5fc81db 100644
--- a/int_set.go
+++ b/int_set.go
@@ -239,6 +239,9 @@ func (s IntSet) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/string_map.go b/string_map.go
index 57737c7..3ecada8 100644
--- a/string_map.go
+++ b/string_map.go
@@ -377,6 +377,9 @@ func (m StringMap[V]) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/string_set.go b/string_set.go
index aab4120..85e3495 100644
--- a/string_set.go
+++ b/string_set.go
@@ -233,6 +233,9 @@ func (s StringSet) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
-- 
2.43.0


From f395da795bc6770e1b610c5218eb59b544a13a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 12/12] fix: Del keeps its traversal path on the stack, so that
 no removed branch stays referenced

---
 amt.go         |  7 +++----
 arr_map.go     | 10 +---------
 arr_set.go     | 10 +---------
 bytes_map.go   | 10 +---------
 bytes_set.go   | 10 +---------
 generic_map.go | 10 +---------
 generic_set.go | 10 +---------
 int_map.go     | 10 +---------
 int_set.go     | 10 +---------
 string_map.go  | 10 +---------
 string_set.go  | 10 +---------
 11 files changed, 13 insertions(+), 94 deletions(-)

diff --git a/amt.go b/amt.go
index 501f94e..e5debc1 100644
--- a/amt.go
+++ b/amt.go
@@ -56,7 +56,7 @@ import (
 	"unsafe"
 )
 
-// root contains the root level of a map or set. Each root allocation is 512 bytes
+// root contains the root level of a map or set. Each root allocation is 320 bytes
 // on 64-bit architectures. Multiples of 64 bytes will likely be 64-byte (cache)
 // aligned by the memory allocator. See runtime/sizeclasses.go.
 type root struct {
@@ -64,9 +64,8 @@ type root struct {
 	seed  maphash.Seed
 	len   uint64
 	dep   uint64
-	_     [3]uint64    // pad to 64-byte alignment
-	items [16]link     // referenced by link
-	path  [12]pathLink // scratch for traversal path during deletion
+	_     [3]uint64 // pad to 64-byte alignment
+	items [16]link  // referenced by link
 }
 
 func newRoot() *root {
diff --git a/arr_map.go b/arr_map.go
index e875aa4..7c7e061 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -319,7 +319,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m ArrMap[K, V]) Del(key K) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	kb := key.KeyBytes()
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
@@ -350,14 +350,12 @@ func (m ArrMap[K, V]) Del(key K) {
 		l.tmap &^= bit
 		m.len--
 		m.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -385,15 +383,9 @@ func (m ArrMap[K, V]) Del(key K) {
 			m.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
diff --git a/arr_set.go b/arr_set.go
index ef686d3..1e41cd4 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -180,7 +180,7 @@ func (s ArrSet[K]) Add(key K) {
 
 // Del deletes key from s.
 func (s ArrSet[K]) Del(key K) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	kb := key.KeyBytes()
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
@@ -211,14 +211,12 @@ func (s ArrSet[K]) Del(key K) {
 		l.tmap &^= bit
 		s.len--
 		s.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -246,15 +244,9 @@ func (s ArrSet[K]) Del(key K) {
 			s.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
diff --git a/bytes_map.go b/bytes_map.go
index a171c0b..1512c56 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -335,7 +335,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m BytesMap[V]) Del(key []byte) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
@@ -365,14 +365,12 @@ func (m BytesMap[V]) Del(key []byte) {
 		l.tmap &^= bit
 		m.len--
 		m.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -400,15 +398,9 @@ func (m BytesMap[V]) Del(key []byte) {
 			m.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
diff --git a/bytes_set.go b/bytes_set.go
index 32d2652..cbf4fa7 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -180,7 +180,7 @@ func (s BytesSet) Add(key []byte) {
 
 // Del deletes key from s.
 func (s BytesSet) Del(key []byte) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
@@ -210,14 +210,12 @@ func (s BytesSet) Del(key []byte) {
 		l.tmap &^= bit
 		s.len--
 		s.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -245,15 +243,9 @@ func (s BytesSet) Del(key []byte) {
 			s.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
diff --git a/generic_map.go b/generic_map.go
index 54f544e..10d94d5 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -310,7 +310,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m Map[K, V]) Del(key K) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
@@ -336,14 +336,12 @@ func (m Map[K, V]) Del(key K) {
 		l.tmap &^= bit
 		m.len--
 		m.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -371,15 +369,9 @@ func (m Map[K, V]) Del(key K) {
 			m.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
diff --git a/generic_set.go b/generic_set.go
index 9d5869c..26a0a30 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -165,7 +165,7 @@ func (s Set[K]) Add(key K) {
 
 // Del deletes key from s.
 func (s Set[K]) Del(key K) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
@@ -191,14 +191,12 @@ func (s Set[K]) Del(key K) {
 		l.tmap &^= bit
 		s.len--
 		s.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -226,15 +224,9 @@ func (s Set[K]) Del(key K) {
 			s.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
diff --git a/int_map.go b/int_map.go
index 8e29cce..62baab7 100644
--- a/int_map.go
+++ b/int_map.go
@@ -346,7 +346,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m IntMap[V]) Del(key IntKey) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	kb := intbytes(key)
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
@@ -377,14 +377,12 @@ func (m IntMap[V]) Del(key IntKey) {
 		l.tmap &^= bit
 		m.len--
 		m.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -412,15 +410,9 @@ func (m IntMap[V]) Del(key IntKey) {
 			m.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
diff --git a/int_set.go b/int_set.go
index 5fc81db..4839b11 100644
--- a/int_set.go
+++ b/int_set.go
@@ -182,7 +182,7 @@ func (s IntSet) Add(key IntKey) {
 
 // Del deletes key from s.
 func (s IntSet) Del(key IntKey) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	kb := intbytes(key)
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
@@ -213,14 +213,12 @@ func (s IntSet) Del(key IntKey) {
 		l.tmap &^= bit
 		s.len--
 		s.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -248,15 +246,9 @@ func (s IntSet) Del(key IntKey) {
 			s.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
diff --git a/string_map.go b/string_map.go
index 3ecada8..c6c314d 100644
--- a/string_map.go
+++ b/string_map.go
@@ -321,7 +321,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m StringMap[V]) Del(key string) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
@@ -351,14 +351,12 @@ func (m StringMap[V]) Del(key string) {
 		l.tmap &^= bit
 		m.len--
 		m.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -386,15 +384,9 @@ func (m StringMap[V]) Del(key string) {
 			m.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
diff --git a/string_set.go b/string_set.go
index 85e3495..f79c201 100644
--- a/string_set.go
+++ b/string_set.go
@@ -177,7 +177,7 @@ func (s StringSet) Add(key string) {
 
 // Del deletes key from s.
 func (s StringSet) Del(key string) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
@@ -207,14 +207,12 @@ func (s StringSet) Del(key string) {
 		l.tmap &^= bit
 		s.len--
 		s.dep -= uint64(d)
-		path[d].link = nil
 		count := uint8(bits.OnesCount32(l.pmap))
 		// unlink empty branches up to the root
 		for count == 0 && d != 0 {
 			l.ptr = nil
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			l.pmap &^= bit
 			l.tmap &^= bit
@@ -242,15 +240,9 @@ func (s StringSet) Del(key string) {
 			s.dep--
 			d--
 			l, radix = path[d].link, path[d].radix
-			path[d].link = nil
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
 		return // item removed
 	}
 }
-- 
2.43.0

