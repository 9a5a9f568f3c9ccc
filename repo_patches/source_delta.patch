From 647e7a43ef2605e3159ec02a140435ef3df67111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 01/25] fix: gmap.Equal looks keys up in the second map

---
 gogenerics/gcontainers/gmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gmap/map.go b/gogenerics/gcontainers/gmap/map.go
index ab0d76f..24f99c8 100644
--- a/gogenerics/gcontainers/gmap/map.go
+++ b/gogenerics/gcontainers/gmap/map.go
@@ -81,7 +81,7 @@ func Equal[K, V comparable](m1, m2 map[K]V) bool {
 	}
 
 	for k, v1 := range m1 {
-		v2, ok := m1[k]
+		v2, ok := m2[k]
 		if !ok || v2 != v1 {
 			return false
 		}
-- 
2.43.0


From c62e2bd6759f316b77bf39cf3fa45b6f85f32da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 02/25] fix: gslice.Merge returns a new slice instead of
 writing into s1's spare capacity

---
 gogenerics/gcontainers/gslice/slice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gslice/slice.go b/gogenerics/gcontainers/gslice/slice.go
index 5e3a692..b4fd416 100644
--- a/gogenerics/gcontainers/gslice/slice.go
+++ b/gogenerics/gcontainers/gslice/slice.go
@@ -151,7 +151,9 @@ func Merge[T any](s1, s2 []T) []T {
 	if s2 == nil {
 		return Copy(s1)
 	}
-	return append(s1, s2...)
+	s := make([]T, 0, len(s1)+len(s2))
+	s = append(s, s1...)
+	return append(s, s2...)
 }
 
 // IsSorted reports whether x is sorted in ascending order
-- 
2.43.0


From dfd89e3800d598904330b4a199f703c774b057e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 03/25] fix: sync.Map CompareAndSwap and CompareAndDelete
 compare the current value with old

---
 gogenerics/gconcurrent/sync/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 7d64677..91c1596 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -166,7 +166,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 // the entry unchanged.
 func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 	p := e.p.Load()
-	if p == nil || unsafe.Pointer(p) == expunged {
+	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 		return false
 	}
 
@@ -179,7 +179,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 			return true
 		}
 		p = e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 	}
@@ -434,7 +434,7 @@ func (m *Map[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}
 	for ok {
 		p := e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
-- 
2.43.0


From bbdee0409dcb48eb0c0cdab424ebe8c9465744b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 04/25] fix: AtomicError accepts errors of different concrete
 types

---
 gogenerics/gconstraints/errors.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconstraints/errors.go b/gogenerics/gconstraints/errors.go
index 81c3bbd..9d5d3aa 100644
--- a/gogenerics/gconstraints/errors.go
+++ b/gogenerics/gconstraints/errors.go
@@ -7,20 +7,25 @@ import (
 // AtomicError defines an atomic error.
 
 type AtomicError struct {
-	err atomic.Value // error
+	err atomic.Value // errorBox
+}
+
+// errorBox gives every stored error the same concrete type, as atomic.Value requires.
+type errorBox struct {
+	err error
 }
 
 // Set sets the error.
 func (ae *AtomicError) Set(err error) {
 	if err != nil {
-		ae.err.Store(err)
+		ae.err.Store(errorBox{err: err})
 	}
 }
 
 // Load returns the error.
 func (ae *AtomicError) Load() error {
 	if v := ae.err.Load(); v != nil {
-		return v.(error)
+		return v.(errorBox).err
 	}
 	return nil
 }
-- 
2.43.0


From fdd0a56f0a20d2dfb3962c4f9c382a61b9fedd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 05/25] fix: BitSet.Count with both ends in one byte no longer
 panics

---
 library/bitset/bitset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 757c39f..0450995 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -131,6 +131,9 @@ func (b *BitSet) Count(start, end int) int {
 	if !valid {
 		return 0
 	}
+	if sgi == egi {
+		return bits.OnesCount8(b.set[sgi] << sbi & (0xff << (7 - ebi + sbi)))
+	}
 	var n int
 	n += bits.OnesCount8(b.set[sgi] << sbi)
 	for _, v := range b.set[sgi+1 : egi] {
-- 
2.43.0


From 3ec45642cfb4301438a3938ab539d5abd32f1a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 06/25] fix: BitSet.Sub returns exactly the bits of the range

---
 library/bitset/bitset.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 0450995..6209980 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -352,15 +352,17 @@ func (b *BitSet) Sub(start, end int) *BitSet {
 	if !valid {
 		return newBitSet
 	}
-	pre := b.set[sgi] << sbi
-	for _, v := range b.set[sgi+1 : egi] {
-		newBitSet.set = append(newBitSet.set, pre|v>>(7-sbi))
-		pre = v << sbi
+	n := egi*8 + ebi - (sgi*8 + sbi) + 1
+	for i := uint(0); i < (n+7)/8; i++ {
+		v := b.set[sgi+i] << sbi
+		if sgi+i < egi {
+			v |= b.set[sgi+i+1] >> (8 - sbi)
+		}
+		newBitSet.set = append(newBitSet.set, v)
 	}
-	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
-	newBitSet.set = append(newBitSet.set, pre|last>>(7-sbi))
-	if sbi < ebi {
-		newBitSet.set = append(newBitSet.set, last<<sbi)
+	// clear the bits beyond the range in the last byte.
+	if r := n % 8; r != 0 {
+		newBitSet.set[len(newBitSet.set)-1] &= 0xff << (8 - r)
 	}
 	return newBitSet
 }
-- 
2.43.0


From d4df7b9ff41e9f9c5d59e2a2eca2c676a292187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 07/25] fix: fastrand.Uint and Uintn link with runtimes that
 have no runtime.fastrandu

---
 hack/fastrand/runtime19.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hack/fastrand/runtime19.go b/hack/fastrand/runtime19.go
index 6244da5..b660f76 100644
--- a/hack/fastrand/runtime19.go
+++ b/hack/fastrand/runtime19.go
@@ -13,5 +13,5 @@ func runtimefastrand() uint32
 //go:linkname runtimefastrand64 runtime.fastrand64
 func runtimefastrand64() uint64
 
-//go:linkname runtimefastrandu runtime.fastrandu
-func runtimefastrandu() uint
+// runtimefastrandu does not link to runtime.fastrandu, which newer runtimes lack.
+func runtimefastrandu() uint { return uint(runtimefastrand64()) }
-- 
2.43.0


From 88bb92b035c0aa6e16dee99d68e51ee08f272415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 08/25] fix: AES encryption no longer writes padding into the
 caller's spare capacity

---
 library/cryptox/cryptox.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index cb29f56..c47eee8 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -203,10 +203,13 @@ func mustNewCipher(cipherKey []byte) cipher.Block {
 
 func pkcs5Padding(plainText []byte, blockSize int) []byte {
 	n := byte(blockSize - len(plainText)%blockSize)
+	// append to a copy: plainText may have spare capacity which belongs to the caller.
+	padded := make([]byte, len(plainText), len(plainText)+int(n))
+	copy(padded, plainText)
 	for i := byte(0); i < n; i++ {
-		plainText = append(plainText, n)
+		padded = append(padded, n)
 	}
-	return plainText
+	return padded
 }
 
 func pkcs5Unpadding(r []byte) ([]byte, error) {
-- 
2.43.0


From 5f577720e25538726c82914b7ce889e20ab3d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 09/25] fix: AESDecrypt rejects ciphertext that is not a whole
 number of blocks instead of panicking

---
 library/cryptox/cryptox.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index c47eee8..cd2eea1 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -87,6 +87,10 @@ func AESDecrypt(cipherKey, ciphertext []byte, useBase64 ...bool) ([]byte, error)
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	// ECB mode always works in whole blocks.
+	if len(src)%blockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	r := make([]byte, len(src))
 	dst := r
 	for len(src) > 0 {
-- 
2.43.0


From 9562d14e2000d20fff4ec5a3a6a5e81aea7e9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 10/25] fix: padding of zero or more than a block is rejected
 when decrypting

---
 library/cryptox/cryptox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index cd2eea1..ece5a49 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -222,7 +222,7 @@ func pkcs5Unpadding(r []byte) ([]byte, error) {
 		return nil, errors.New("input padded bytes is empty")
 	}
 	last := int(r[l-1])
-	if l-last < 0 {
+	if last == 0 || last > aes.BlockSize || l-last < 0 {
 		return nil, errors.New("input padded bytes is invalid")
 	}
 	n := byte(last)
-- 
2.43.0


From 6ff932f32e6e41a5a72574cf05122f770320e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 11/25] fix: HTMLEntityToUTF8 decodes each entity on its own,
 also one that starts like an earlier one

---
 library/stringx/stringx.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index 2b90b6f..ddf650b 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -192,18 +192,13 @@ var htmlEntityRegexp = regexp.MustCompile(`&#([0-9a-zA-Z]+);*`)
 // e.g.: HTMLEntityToUTF8(`{"info":[["color","&#5496;&#5561;&#8272;&#7c;&#7eff;&#8272;"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func HTMLEntityToUTF8(str string, base int) string {
-	a := htmlEntityRegexp.FindAllStringSubmatch(str, -1)
-	if len(a) == 0 {
-		return str
-	}
-	oldnew := make([]string, 0, len(a)*2)
-	for _, s := range a {
-		if i, err := strconv.ParseInt(s[1], base, 32); err == nil {
-			oldnew = append(oldnew, s[0], string(rune(i)))
+	return htmlEntityRegexp.ReplaceAllStringFunc(str, func(entity string) string {
+		digits := strings.TrimRight(entity[len("&#"):], ";")
+		if i, err := strconv.ParseInt(digits, base, 32); err == nil {
+			return string(rune(i))
 		}
-	}
-	r := strings.NewReplacer(oldnew...)
-	return r.Replace(str)
+		return entity
+	})
 }
 
 // CodePointToUTF8 converts Unicode Code Point to UTF-8.
-- 
2.43.0


From ae9ed1542cccc637a6da42962f43f7c03ee2009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 12/25] fix: CodePointToUTF8 keeps the text around and between
 escapes

---
 library/stringx/stringx.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index ddf650b..774b813 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -205,22 +205,30 @@ func HTMLEntityToUTF8(str string, base int) string {
 // e.g.: CodePointToUTF8(`{"info":[["color","\u5496\u5561\u8272\u7c\u7eff\u8272"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func CodePointToUTF8(str string, base int) string {
-	i := 0
-	if strings.Index(str, `\u`) > 0 {
-		i = 1
-	}
-	strSlice := strings.Split(str, `\u`)
-	last := len(strSlice) - 1
-	if len(strSlice[last]) > 4 {
-		strSlice = append(strSlice, string(strSlice[last][4:]))
-		strSlice[last] = string(strSlice[last][:4])
-	}
-	for ; i <= last; i++ {
-		if x, err := strconv.ParseInt(strSlice[i], base, 32); err == nil {
-			strSlice[i] = string(rune(x))
+	var b strings.Builder
+	for {
+		i := strings.Index(str, `\u`)
+		if i < 0 {
+			b.WriteString(str)
+			return b.String()
+		}
+		b.WriteString(str[:i])
+		str = str[i+len(`\u`):]
+		n := len(str)
+		if n > 4 {
+			n = 4
+		}
+		for ; n > 0; n-- {
+			if x, err := strconv.ParseUint(str[:n], base, 32); err == nil {
+				b.WriteRune(rune(x))
+				break
+			}
+		}
+		if n == 0 {
+			b.WriteString(`\u`)
 		}
+		str = str[n:]
 	}
-	return strings.Join(strSlice, "")
 }
 
 var spaceReplacer = strings.NewReplacer(
-- 
2.43.0


From 8a6409eb552021530d24baa83af167d50a69e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 13/25] fix: Chain.MGet answers every occurrence of a repeated
 key

---
 library/cachex/cache.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index c6ec8e5..8fbd781 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -157,9 +157,9 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		return nil, nil, nil
 	}
 	length := len(keys)
-	indexMap := make(map[K]int, length)
-	for i, k := range keys {
-		indexMap[k] = i
+	indexes := make([]int, length) // indexes[j] is the position of keys[j] in the request
+	for i := range indexes {
+		indexes[i] = i
 	}
 	values := make([]V, length)
 	status := make([]bool, length)
@@ -176,7 +176,7 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		}
 		for j := 0; j < len(oks); j++ {
 			if oks[j] {
-				keyIndex := indexMap[keys[j]]
+				keyIndex := indexes[j]
 				values[keyIndex] = vals[j]
 				status[keyIndex] = true
 			}
@@ -184,6 +184,13 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		// Set the content queried from the next-level cache to the upper-level cache
 		c.msetForMGet(ctx, c.Caches[:idx], keys, vals, oks)
 		keys = c.keysNotFound(keys, oks)
+		left := make([]int, 0, len(keys))
+		for j, keyIndex := range indexes {
+			if len(oks) <= j || !oks[j] {
+				left = append(left, keyIndex)
+			}
+		}
+		indexes = left
 	}
 	return values, status, err
 }
-- 
2.43.0


From 355c938c7125e9f08be8d67b31846b670ebe8f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:01 +0000
Subject: [PATCH 14/25] fix: FileStore keeps keys apart that print alike

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index be9cd26..f114eff 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -41,7 +41,7 @@ type FileStore[K comparable, V any] struct {
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
-	str := fmt.Sprint(key)
+	str := fmt.Sprintf("%T|%#v", key, key)
 	h := md5.New()
 	h.Write([]byte(str))
 	s := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From d49be0a457f92150e1685b24e82be280b6cf1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 15/25] fix: FileStore no longer panics on a cache file that
 holds null

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index f114eff..c265b10 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -70,7 +70,7 @@ func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
 		}
 		return emp, false, err
 	}
-	item := &fileCacheItem[K, V]{}
+	var item fileCacheItem[K, V]
 	err = json.Unmarshal(content, &item)
 	if err != nil {
 		_ = os.Remove(fp)
-- 
2.43.0


From da918ca594fae556754ecec886816cd447a99a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 16/25] fix: FileStore background clean-up leaves files alone
 that are not cache files

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index c265b10..cf06b13 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -221,7 +221,7 @@ func (f *FileStore[K, V]) scanExpire() {
 		if err != nil {
 			return nil
 		}
-		if d.IsDir() {
+		if d.IsDir() || !strings.HasSuffix(path, cacheFileExt) {
 			return nil
 		}
 		_, _, _ = f.readFile(path)
-- 
2.43.0


From 074dff8355ee8fcfac0e2a3eec28da59635f004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 17/25] fix: FileStore.Purge removes cache files only, and one
 that is gone already is no error

---
 library/cachex/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index cf06b13..14d9523 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -237,9 +237,9 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-		if strings.HasSuffix(path, cacheFileExt) {
+		if d != nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
 			e := os.Remove(path)
-			if e != nil && !os.IsNotExist(err) {
+			if e != nil && !os.IsNotExist(e) {
 				errTotal++
 				lastErr = e
 			}
-- 
2.43.0


From 0ee5fc473f8701a09174c01b58c5766909483f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 18/25] fix: map-reduce cancel no longer closes the output
 while the reducer writes to it

---
 gogenerics/gconcurrent/mr/mr.go | 47 ++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 2c7d316..23b9bbf 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -153,19 +153,29 @@ func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reduce
 func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, mapper MapperFunc[T, U],
 	reducer ReducerFunc[U, V], opts ...Option) (val V, err error) {
 	options := buildOptions(opts...)
-	// output is used to write the final result
+	// output is used to write the final result, it is never closed,
+	// because a cancellation can come while reducer is writing
 	output := make(chan V)
+	// if done is closed, all mappers and reducer should stop processing
+	done := make(chan struct{})
 	defer func() {
+		select {
+		case <-done:
+			return
+		default:
+		}
+
+		// not done yet, so output is already read,
 		// reducer can only write once, if more, panic
-		for range output {
+		select {
+		case <-output:
 			panic("more than one element written in reducer")
+		case <-done:
 		}
 	}()
 
 	// collector is used to collect data from mapper, and consume in reducer
 	collector := make(chan U, options.workers)
-	// if done is closed, all mappers and reducer should stop processing
-	done := make(chan struct{})
 	writer := newGuardedWriter(options.ctx, output, done)
 	var closeOnce sync.Once
 	// use atomic type to avoid data race
@@ -173,7 +183,6 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	finish := func() {
 		closeOnce.Do(func() {
 			close(done)
-			close(output)
 		})
 	}
 	cancel := once(func(err error) {
@@ -217,13 +226,17 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		err = context.DeadlineExceeded
 	case v := <-panicChan.channel:
 		// drain output here, otherwise for loop panic in defer
-		drain(output)
+		drainUntil(output, done)
 		panic(v)
-	case v, ok := <-output:
+	case v := <-output:
 		if e := retErr.Load(); e != nil {
 			err = e
-		} else if ok {
+		} else {
 			val = v
+		}
+	case <-done:
+		if e := retErr.Load(); e != nil {
+			err = e
 		} else {
 			err = ErrReduceNoOutput
 		}
@@ -297,6 +310,17 @@ func drain[T any](channel <-chan T) {
 
 }
 
+// drainUntil drains the channel until done is closed.
+func drainUntil[T any](channel <-chan T, done <-chan struct{}) {
+	for {
+		select {
+		case <-channel:
+		case <-done:
+			return
+		}
+	}
+}
+
 func executeMappers[T, U any](mCtx mapperContext[T, U]) {
 	var wg sync.WaitGroup
 	defer func() {
@@ -375,7 +399,12 @@ func (gw guardedWriter[T]) Write(v T) {
 	case <-gw.done:
 		return
 	default:
-		gw.channel <- v
+	}
+
+	select {
+	case <-gw.ctx.Done():
+	case <-gw.done:
+	case gw.channel <- v:
 	}
 }
 
-- 
2.43.0


From 5cb6cdc82d1241d1348f00904887d1fe3be9b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:28 +0000
Subject: [PATCH 19/25] fix: map-reduce reports the end of the context when it
 ends without output

---
 gogenerics/gconcurrent/mr/mr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 23b9bbf..c45897e 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -237,6 +237,9 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	case <-done:
 		if e := retErr.Load(); e != nil {
 			err = e
+		} else if options.ctx.Err() != nil {
+			// items or outputs may have been skipped
+			err = context.DeadlineExceeded
 		} else {
 			err = ErrReduceNoOutput
 		}
-- 
2.43.0


From 38c39dd11bd14f3ee1590b0717473b7137eea533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 20/25] fix: map-reduce panics reach the caller under every
 schedule and leave no goroutine behind

---
 gogenerics/gconcurrent/mr/mr.go | 46 +++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index c45897e..45a5aa9 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -104,7 +104,7 @@ func FinishVoid(fns ...func()) {
 // ForEach maps all elements from given generate but no output.
 func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Option) {
 	options := buildOptions(opts...)
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	collector := make(chan any)
 	done := make(chan struct{})
@@ -127,6 +127,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 			panic(v)
 		case _, ok := <-collector:
 			if !ok {
+				panicChan.rethrow()
 				return
 			}
 		}
@@ -137,7 +138,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 // and reduces the output elements with given reducer.
 func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
@@ -145,7 +146,7 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
 
@@ -161,17 +162,18 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	defer func() {
 		select {
 		case <-done:
-			return
 		default:
+			// not done yet, so output is already read,
+			// reducer can only write once, if more, panic
+			select {
+			case <-output:
+				panic("more than one element written in reducer")
+			case <-done:
+			}
 		}
 
-		// not done yet, so output is already read,
-		// reducer can only write once, if more, panic
-		select {
-		case <-output:
-			panic("more than one element written in reducer")
-		case <-done:
-		}
+		// mapper or reducer may have panicked after output was written
+		panicChan.rethrow()
 	}()
 
 	// collector is used to collect data from mapper, and consume in reducer
@@ -413,11 +415,27 @@ func (gw guardedWriter[T]) Write(v T) {
 
 type onceChan struct {
 	channel chan any
-	wrote   int32
+	once    sync.Once
+}
+
+// newOnceChan has room for the value, because nobody receives it
+// once the caller has returned.
+func newOnceChan() *onceChan {
+	return &onceChan{channel: make(chan any, 1)}
+}
+
+// rethrow panics with the value written, if any.
+func (oc *onceChan) rethrow() {
+	select {
+	case v := <-oc.channel:
+		panic(v)
+	default:
+	}
 }
 
 func (oc *onceChan) write(val any) {
-	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
+	// whoever comes second returns when the value is there
+	oc.once.Do(func() {
 		oc.channel <- val
-	}
+	})
 }
-- 
2.43.0


From 63f25808ad35a58bf187f86d587b23cb745a8350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 21/25] fix: combining bit sets no longer deadlocks with
 concurrent writers

---
 library/bitset/bitset.go | 47 ++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 6209980..4b4bfea 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -187,21 +187,18 @@ func (b *BitSet) Not() *BitSet {
 //
 //	If the bitSets are empty, returns b.
 func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
 	if len(bitSets) == 0 {
 		return b
 	}
 	var (
-		maxLen  = len(b.set)
+		set     = b.Bytes()
+		others  = copySets(bitSets)
+		maxLen  = len(set)
 		minLen  = maxLen
 		currLen int
 	)
-	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-
-		currLen = len(g.set)
+	for _, g := range others {
+		currLen = len(g)
 		if currLen > maxLen {
 			maxLen = currLen
 		} else if currLen < minLen {
@@ -212,14 +209,24 @@ func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
 		set: make([]byte, maxLen),
 	}
 	for i := range rBitSet.set[:minLen] {
-		rBitSet.set[i] = b.set[i]
-		for _, g := range bitSets {
-			rBitSet.set[i] &= g.set[i]
+		rBitSet.set[i] = set[i]
+		for _, g := range others {
+			rBitSet.set[i] &= g[i]
 		}
 	}
 	return rBitSet
 }
 
+// copySets copies the bytes of the bit sets, locking one at a time:
+// holding several read locks deadlocks when writers wait in between.
+func copySets(bitSets []*BitSet) [][]byte {
+	sets := make([][]byte, len(bitSets))
+	for i, g := range bitSets {
+		sets[i] = g.Bytes()
+	}
+	return sets
+}
+
 // Or returns all the "OR" bit sets.
 // NOTE:
 //
@@ -248,15 +255,13 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	if len(bitSets) == 0 {
 		return b
 	}
-	b.mu.RLock()
-	defer b.mu.RUnlock()
 	var (
-		maxLen, currLen = len(b.set), 0
+		set             = b.Bytes()
+		others          = copySets(bitSets)
+		maxLen, currLen = len(set), 0
 	)
-	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-		currLen = len(g.set)
+	for _, g := range others {
+		currLen = len(g)
 		if currLen > maxLen {
 			maxLen = currLen
 		}
@@ -264,9 +269,9 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	rBitSet := &BitSet{
 		set: make([]byte, maxLen),
 	}
-	copy(rBitSet.set, b.set)
-	for _, g := range bitSets {
-		for i, gb := range g.set {
+	copy(rBitSet.set, set)
+	for _, g := range others {
+		for i, gb := range g {
 			switch op {
 			case "|":
 				rBitSet.set[i] = rBitSet.set[i] | gb
-- 
2.43.0


From 2a4a21f5a655e15fa71a3e0e51778d9c97a91704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 22/25] fix: LRUCacheV2.MGet takes the lock

---
 library/cachex/lrucache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/cachex/lrucache.go b/library/cachex/lrucache.go
index 7b800be..5420a9a 100644
--- a/library/cachex/lrucache.go
+++ b/library/cachex/lrucache.go
@@ -96,6 +96,9 @@ func (lc *LRUCacheV2[K, V]) MGet(_ context.Context, keys ...K) ([]V, []bool, err
 	if len(keys) == 0 {
 		return nil, nil, nil
 	}
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
+
 	values := make([]V, len(keys))
 	oks := make([]bool, len(keys))
 	for idx, key := range keys {
-- 
2.43.0


From 3063e21cbb77cd9a7a02852bc45895fa3ae6410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 23/25] fix: FileStore clean-up no longer removes or misreads
 an entry that is being written

---
 library/cachex/file.go | 49 +++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 14d9523..d6f9ed3 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -38,6 +39,9 @@ type FileStore[K comparable, V any] struct {
 
 	lastGC   atomic.Int64
 	gcStatus atomic.Bool
+
+	// mu keeps the removal of dead files apart from writes
+	mu sync.RWMutex
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
@@ -62,27 +66,40 @@ func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
 }
 
 func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
+	f.mu.RLock()
+	val, ok, dead, err := f.loadFile(fp)
+	f.mu.RUnlock()
+	if !dead {
+		return val, ok, err
+	}
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	// it may have been written again in the meantime
+	val, ok, dead, err = f.loadFile(fp)
+	if dead {
+		_ = os.Remove(fp)
+	}
+	return val, ok, err
+}
+
+// loadFile reads a cache file, dead tells that it is expired or unreadable and should be removed
+func (f *FileStore[K, V]) loadFile(fp string) (val V, ok bool, dead bool, err error) {
 	content, err := os.ReadFile(fp)
 	if err != nil {
-		var emp V
 		if os.IsNotExist(err) {
-			return emp, false, nil
+			err = nil
 		}
-		return emp, false, err
+		return val, false, false, err
 	}
 	var item fileCacheItem[K, V]
 	err = json.Unmarshal(content, &item)
 	if err != nil {
-		_ = os.Remove(fp)
-		var emp V
-		return emp, false, err
+		return val, false, true, err
 	}
 	if item.Alive() {
-		return item.Data, true, nil
+		return item.Data, true, false, nil
 	}
-	_ = os.Remove(fp)
-	var emp V
-	return emp, false, err
+	return val, false, true, nil
 }
 
 var errDirEmpty = errors.New("cache Dir is empty")
@@ -105,6 +122,8 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	if err != nil {
 		return err
 	}
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	dir := filepath.Dir(fp)
 	_, err = os.Stat(dir)
 	if err != nil && os.IsNotExist(err) {
@@ -172,7 +191,7 @@ func (f *FileStore[K, V]) Delete(ctx context.Context, keys ...K) error {
 	var errs []error
 	for _, k := range keys {
 		fp := f.getFilePath(k)
-		err := os.Remove(fp)
+		err := f.removeFile(fp)
 		if err == nil || os.IsNotExist(err) {
 			continue
 		}
@@ -184,6 +203,12 @@ func (f *FileStore[K, V]) Delete(ctx context.Context, keys ...K) error {
 	return errors.Join(errs...)
 }
 
+func (f *FileStore[K, V]) removeFile(fp string) error {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	return os.Remove(fp)
+}
+
 // gc Background cleaning of expired cache files, only one background goroutine performs cleaning within each cycle
 func (f *FileStore[K, V]) gc() {
 	if f.gcStatus.Load() {
@@ -238,7 +263,7 @@ func (f *FileStore[K, V]) Purge() error {
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
 		if d != nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
-			e := os.Remove(path)
+			e := f.removeFile(path)
 			if e != nil && !os.IsNotExist(e) {
 				errTotal++
 				lastErr = e
-- 
2.43.0


From f7ad7da6420693d933757956a02aac5f77f5f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:19 +0000
Subject: [PATCH 24/25] fix: report directories that Purge cannot list

---
 library/cachex/file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index d6f9ed3..d81b83a 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -268,6 +268,9 @@ func (f *FileStore[K, V]) Purge() error {
 				errTotal++
 				lastErr = e
 			}
+		} else if err != nil && !os.IsNotExist(err) {
+			errTotal++
+			lastErr = err
 		}
 		return nil
 	})
-- 
2.43.0


From fa2c8f878c684a08b07d1cae2fad461093cc9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:19 +0000
Subject: [PATCH 25/25] fix: start one background scan per cycle

---
 library/cachex/file.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index d81b83a..b4d28d3 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -225,12 +225,20 @@ func (f *FileStore[K, V]) gc() {
 		cycle = time.Minute
 	}
 
-	if time.Now().Unix()-f.lastGC.Load() < int64(cycle/time.Second) {
+	due := func() bool {
+		return time.Now().Unix()-f.lastGC.Load() >= int64(cycle/time.Second)
+	}
+	if !due() {
 		return
 	}
 	if !f.gcStatus.CompareAndSwap(false, true) {
 		return
 	}
+	// a scan may have ended in the meantime
+	if !due() {
+		f.gcStatus.Store(false)
+		return
+	}
 	go func() {
 		defer func() {
 			f.lastGC.Store(time.Now().Unix())
-- 
2.43.0

