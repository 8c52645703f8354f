From 44cdf7592a495281eeba7dc989f8455cba5423d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 01/43] fix: decode non-negative ZIGZAG values

ZIGZAG was assumed to hold a negative number, so that even (non-negative)
values came out as negative ones.
---
 Go/sereal/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fb9c6e6..7c57316 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -479,7 +479,8 @@ func (d *Decoder) decodeVarint(by []byte, idx int) (int, int, error) {
 
 func (d *Decoder) decodeZigzag(by []byte, idx int) (int, int, error) {
 	i, sz, err := varintdecode(by[idx:])
-	return int(-(1 + (uint64(i) >> 1))), idx + sz, err
+	u := uint64(i)
+	return int((u >> 1) ^ -(u & 1)), idx + sz, err
 }
 
 func (d *Decoder) decodeFloat(by []byte, idx int) (float32, int, error) {
-- 
2.43.0


From 43dd3904562be3f1647489a29c821d4ff29c1575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 02/43] fix: encode named integer types

Values of named unsigned types panicked (reflect's Int on a Uint), and
negative values of named int8..int64 types were written as huge unsigned
numbers.
---
 Go/sereal/encode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 57b4a39..7b67174 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -498,9 +498,11 @@ func (e *Encoder) encodeViaReflection(b []byte, rv reflect.Value, isKeyOrClass b
 			b = append(b, typeFALSE)
 		}
 
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		b = e.encodeInt(b, rk, rv.Int())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		b = e.encodeInt(b, reflect.Int, rv.Int())
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		b = e.encodeInt(b, reflect.Uint, int64(rv.Uint()))
 
 	case reflect.Float32:
 		b = e.encodeFloat(b, float32(rv.Float()))
-- 
2.43.0


From 4cea6c37732dba18c9b9cab3f57c208848034173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 03/43] fix: reject varints that do not fit in 64 bits

The excess bits of a ten byte varint were dropped silently.
---
 Go/sereal/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 7c57316..9f6ef96 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1245,6 +1245,10 @@ func varintdecode(by []byte) (n int, sz int, err error) {
 		s += 7
 
 		if (b & 0x80) == 0 {
+			if s > 64 && b > 1 {
+				// does not fit in 64 bits
+				return 0, i + 1, ErrCorrupt{errBadVarint}
+			}
 			return n, i + 1, nil
 		}
 
-- 
2.43.0


From 60d1d9dbfc5fef12f6ba49e90d68aa3b340370b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 04/43] fix: check the header size where it is read

A header size beyond the document, a negative one, or a zero encoded in
several bytes made UnmarshalHeader, DecompressDocument and Merger.Append
panic.
---
 Go/sereal/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 9f6ef96..fb0542a 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -56,6 +56,10 @@ func readHeader(b []byte) (serealHeader, error) {
 		return serealHeader{}, err
 	}
 
+	if ln < 0 || ln > len(b)-headerSize-sz {
+		return serealHeader{}, ErrCorrupt{errBadOffset}
+	}
+
 	h.suffixSize = ln + sz
 	h.suffixStart = headerSize + sz
 
@@ -201,7 +205,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	if vheader != nil && header.suffixSize != 1 {
+	if vheader != nil && header.suffixStart < bodyStart {
 		d.tracked = make(map[int]reflect.Value)
 		defer func() { d.tracked = nil }()
 
-- 
2.43.0


From c87e29d74b5fd9c9c99b7250aacf2d75bb6b98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 05/43] fix: resolve offsets in the user header relative to it

The encoder writes offsets relative to the header data, as the format
asks for; the decoder took them relative to the document, so that any
header with a repeated key or a shared reference could not be read.
---
 Go/sereal/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fb0542a..6cb76b1 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -216,10 +216,12 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 
 		header.suffixFlags = b[header.suffixStart]
 		if header.suffixFlags&1 == 1 {
+			// offsets in the header data are 1-based, counting from the byte after the flags
+			hbuf := b[header.suffixStart:bodyStart]
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
-				_, err = d.decode(b[:bodyStart], header.suffixStart+1, ptr)
+				_, err = d.decode(hbuf, 1, ptr)
 			} else {
-				_, err = d.decodeViaReflection(b[:bodyStart], header.suffixStart+1, headerValue.Elem())
+				_, err = d.decodeViaReflection(hbuf, 1, headerValue.Elem())
 			}
 		}
 	}
-- 
2.43.0


From 2e945d68348f1077c1d03a5ef5c69c1b03008a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 06/43] fix: reset the COPY depth of a reused decoder

When decoding was aborted by a panic inside of a COPY, the decoder kept
rejecting every COPY afterwards.
---
 Go/sereal/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 6cb76b1..e53f712 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -189,6 +189,8 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
+	d.copyDepth = 0 // an earlier call may have been aborted inside of a COPY
+
 	header, err := checkHeader(b)
 	if err != nil {
 		return err
-- 
2.43.0


From 535a1996bc74e42b66a56f167cf71eb2b6b4b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 07/43] fix: accept copied items whose keys or class names are
 copies

The format allows a COPY to refer to an item that uses COPY for its hash
keys or class names, and encoders emit it.
---
 Go/sereal/decode.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index e53f712..333e4b1 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -84,6 +84,9 @@ type Decoder struct {
 	tcache    tagsCache
 	copyDepth int
 
+	// inside of a COPY used as a hash key, class name or regexp part
+	strCopy bool
+
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
 	// DisableReferentialIntegrity produces a decoded data structure where Perl references are never decoded as Go pointers
@@ -649,7 +652,9 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		idx += ln
 
 	case tag == typeCOPY:
-		if d.copyDepth > 0 {
+		// a copied item may use COPY for its strings, but their
+		// target must not be another COPY
+		if d.strCopy {
 			return nil, 0, ErrCorrupt{errNestedCOPY}
 		}
 
@@ -662,9 +667,9 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		}
 		idx += sz
 
-		d.copyDepth++
+		d.strCopy = true
 		res, _, err = d.decodeStringish(by, offs)
-		d.copyDepth--
+		d.strCopy = false
 		if err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From 89a5d3418971cc72259534e8eec016bdea7a12fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 08/43] fix: do not let decoded regexps share memory with the
 document

---
 Go/sereal/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 333e4b1..9f2c40e 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -694,8 +694,8 @@ func (d *Decoder) decodeRegexp(by []byte, idx int) (*PerlRegexp, int, error) {
 		return nil, 0, err
 	}
 
-	// TODO perhaps, copy values
-	return &PerlRegexp{pattern, modifiers}, idx, nil
+	// pattern and modifiers are slices of the document, don't hand those out
+	return &PerlRegexp{append([]byte{}, pattern...), append([]byte{}, modifiers...)}, idx, nil
 }
 
 /********************************************************************
-- 
2.43.0


From 0ac7ebd69080c5e2f221ac6720243e3929c729a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 09/43] fix: decode frozen objects in Perl compatible mode

There the reference around the frozen data decodes into a pointer, and
every OBJECT_FREEZE was rejected as corrupt.
---
 Go/sereal/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 9f2c40e..756a28b 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1153,7 +1153,8 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 	}
 
 	var iface interface{}
-	if idx, err = d.decode(by, idx, &iface); err != nil {
+	// skip the REFN, in Perl compatible mode it would become a pointer
+	if idx, err = d.decode(by, idx+1, &iface); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 3ce7e8f86261fcf5de7c0c83ae9d435d0ed372c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:19 +0000
Subject: [PATCH 10/43] fix: reject a REFP or ALIAS that refers to itself

A tracked ALIAS naming its own offset decoded to nil.
---
 Go/sereal/decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 756a28b..7674719 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1037,12 +1037,13 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 		var res reflect.Value
 		return res, 0, err
 	}
-	idx += sz
 
-	if offs < 0 || offs >= idx {
+	// the target must precede this tag
+	if offs < 0 || offs >= idx-1 {
 		var res reflect.Value
 		return res, 0, ErrCorrupt{errBadOffset}
 	}
+	idx += sz
 
 	rv, ok := d.tracked[offs]
 	if !ok {
-- 
2.43.0


From 1ebdc381ccfe9b0b85fc0e4a710a374a820139fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 11/43] fix: decode references to undef

A REFP to a tracked UNDEF panicked inside of reflect and was reported as
an error.
---
 Go/sereal/decode.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 7674719..1db01cd 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -80,6 +80,7 @@ func LooksLikeSereal(b []byte) bool {
 // A Decoder reads and decodes Sereal objects from an input buffer
 type Decoder struct {
 	tracked   map[int]reflect.Value
+	undef     map[int]bool // tracked offsets that turned out to be undef
 	umcache   map[string]reflect.Type
 	tcache    tagsCache
 	copyDepth int
@@ -211,8 +212,8 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 	}
 
 	if vheader != nil && header.suffixStart < bodyStart {
-		d.tracked = make(map[int]reflect.Value)
-		defer func() { d.tracked = nil }()
+		d.tracked, d.undef = make(map[int]reflect.Value), nil
+		defer func() { d.tracked, d.undef = nil, nil }()
 
 		headerValue := reflect.ValueOf(vheader)
 		if headerValue.Kind() != reflect.Ptr {
@@ -246,8 +247,8 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 			b = newBody
 		}
 
-		d.tracked = make(map[int]reflect.Value)
-		defer func() { d.tracked = nil }()
+		d.tracked, d.undef = make(map[int]reflect.Value), nil
+		defer func() { d.tracked, d.undef = nil, nil }()
 
 		bodyValue := reflect.ValueOf(vbody)
 		if bodyValue.Kind() != reflect.Ptr {
@@ -293,6 +294,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		tag = by[idx]
 	}
 
+	start := idx
 	trackme := (tag & trackFlag) == trackFlag
 	if trackme {
 		tag &^= trackFlag
@@ -472,6 +474,13 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		return 0, fmt.Errorf("unknown tag byte: %d (0x%x)", int(tag), int(tag))
 	}
 
+	if trackme && err == nil && *ptr == nil {
+		if d.undef == nil {
+			d.undef = make(map[int]bool)
+		}
+		d.undef[start] = true
+	}
+
 	//fmt.Printf("stop decode: tag %d (0x%x)\n", int(tag), int(tag))
 	return idx, err
 }
@@ -1066,7 +1075,17 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 
 		if isREFP {
 			rvData := rv.Elem().Elem()
-			if d.DisableReferentialIntegrity {
+			if !rvData.IsValid() {
+				if !d.undef[offs] {
+					// the target is not decoded yet
+					return res, 0, ErrCorrupt{errBadOffset}
+				}
+				// a reference to undef
+				res = reflect.ValueOf(new(interface{}))
+				if d.DisableReferentialIntegrity {
+					res = res.Elem()
+				}
+			} else if d.DisableReferentialIntegrity {
 				res = rvData
 			} else {
 				res = reflect.New(rvData.Type())
-- 
2.43.0


From c7f0e5bc2ebc565f1856473dabf7a57ce1d1b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 12/43] fix: decode objects that refer to themselves

The content of an object was decoded aside, so that a reference to the
object from within its own content could not be resolved.
---
 Go/sereal/decode.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 1db01cd..4c37199 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -463,8 +463,17 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		*ptr, idx, err = d.decodeRegexp(by, idx)
 
 	case tag == typeOBJECT, tag == typeOBJECTV:
-		rvPtr := reflect.ValueOf(ptr)
-		idx, err = d.decodeObjectViaReflection(by, idx, rvPtr.Elem(), tag == typeOBJECTV)
+		if d.PerlCompat {
+			rvPtr := reflect.ValueOf(ptr)
+			idx, err = d.decodeObjectViaReflection(by, idx, rvPtr.Elem(), tag == typeOBJECTV)
+			break
+		}
+
+		// the class is dropped; decode right into ptr, the content may refer to it
+		if _, idx, err = d.decodeClassName(by, idx, tag == typeOBJECTV); err != nil {
+			return 0, err
+		}
+		idx, err = d.decode(by, idx, ptr)
 
 	case tag == typeOBJECT_FREEZE, tag == typeOBJECTV_FREEZE:
 		rvPtr := reflect.ValueOf(ptr)
@@ -1104,24 +1113,23 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 	return res, idx, nil
 }
 
-func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Value, isObjectV bool) (int, error) {
-	var err error
-	var className []byte
-
+func (d *Decoder) decodeClassName(by []byte, idx int, isObjectV bool) ([]byte, int, error) {
 	if !isObjectV {
 		// typeOBJECT
-		className, idx, err = d.decodeStringish(by, idx)
-	} else {
-		// typeOBJECTV
-		var offs, sz int
-		offs, sz, err = varintdecode(by[idx:])
-		if err != nil {
-			return 0, err
-		}
-		idx += sz
-		className, _, err = d.decodeStringish(by, offs)
+		return d.decodeStringish(by, idx)
+	}
+
+	// typeOBJECTV
+	offs, sz, err := varintdecode(by[idx:])
+	if err != nil {
+		return nil, 0, err
 	}
+	className, _, err := d.decodeStringish(by, offs)
+	return className, idx + sz, err
+}
 
+func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Value, isObjectV bool) (int, error) {
+	className, idx, err := d.decodeClassName(by, idx, isObjectV)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 528fb27151517d5937315be8de4604a69ac5f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 13/43] fix: do not take different things at one address for
 the same

A pointer to a struct and one to its first field, strings or slices that
start at the same address, and empty slices were all encoded as
references to one item, losing data. Pointers to interfaces that hold
strings could not be encoded at all.
---
 Go/sereal/encode.go | 48 ++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 7b67174..52f1539 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -10,7 +10,6 @@ import (
 	"reflect"
 	"runtime"
 	"strconv"
-	"unsafe"
 )
 
 // An Encoder encodes Go data structures into Sereal byte streams
@@ -28,7 +27,15 @@ type Encoder struct {
 
 type marshalState struct {
 	strTable map[string]int
-	ptrTable map[uintptr]int
+	ptrTable map[ptrKey]int
+}
+
+// ptrKey identifies a pointer or container: values of different types, or
+// slices of different lengths, may start at the same address
+type ptrKey struct {
+	addr uintptr
+	typ  reflect.Type
+	len  int
 }
 
 type compressor interface {
@@ -110,7 +117,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	if header != nil && e.version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
-			ptrTable: make(map[uintptr]int),
+			ptrTable: make(map[ptrKey]int),
 		}
 
 		// this is both the flag byte (== "there is user data") and also a hack to make 1-based offsets work
@@ -131,7 +138,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	remainingDepth := remainingRecursion(e.MaxRecursionDepth)
 	state := marshalState{
 		strTable: make(map[string]int),
-		ptrTable: make(map[uintptr]int),
+		ptrTable: make(map[ptrKey]int),
 	}
 
 	encBody := make([]byte, 0, e.ExpectedSize)
@@ -634,16 +641,13 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		}
 	}
 
-	rvptr := rv.Pointer()
+	rvptr := ptrKey{rv.Pointer(), rv.Type(), 0}
 	rvptr2 := getPointer(rv.Elem())
 
 	offs, ok := state.ptrTable[rvptr]
 
-	if !ok && rvptr2 != 0 {
+	if !ok && rvptr2 != (ptrKey{}) {
 		offs, ok = state.ptrTable[rvptr2]
-		if ok {
-			rvptr = rvptr2
-		}
 	}
 
 	if ok { // seen this before
@@ -655,7 +659,7 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 
 		by = append(by, typeREFN)
 
-		if rvptr != 0 {
+		if !rv.IsNil() {
 			state.ptrTable[rvptr] = lenbOrig
 		}
 
@@ -665,7 +669,7 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 			return nil, err
 		}
 
-		if rvptr2 != 0 {
+		if rvptr2 != (ptrKey{}) {
 			// The thing this this points to starts one after the current pointer
 			state.ptrTable[rvptr2] = lenbOrig + 1
 		}
@@ -684,23 +688,23 @@ func varint(by []byte, n uint) []uint8 {
 	return append(by, byte(n))
 }
 
-func getPointer(rv reflect.Value) uintptr {
-	var rvptr uintptr
-
+// getPointer returns the identity of the container rv, or the zero ptrKey if it has none
+func getPointer(rv reflect.Value) ptrKey {
 	switch rv.Kind() {
-	case reflect.Map, reflect.Slice:
-		rvptr = rv.Pointer()
+	case reflect.Map:
+		if !rv.IsNil() {
+			return ptrKey{rv.Pointer(), rv.Type(), 0}
+		}
+	case reflect.Slice:
+		if rv.Len() > 0 {
+			return ptrKey{rv.Pointer(), rv.Type(), rv.Len()}
+		}
 	case reflect.Interface:
 		// FIXME: still needed?
 		return getPointer(rv.Elem())
-	case reflect.Ptr:
-		rvptr = rv.Pointer()
-	case reflect.String:
-		ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
-		rvptr = ps.Data
 	}
 
-	return rvptr
+	return ptrKey{}
 }
 
 func concreteName(value reflect.Value) string {
-- 
2.43.0


From dbdfba88fae657d5f157f0d7ffd97093e03aaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 14/43] fix: encode equal pointers as references to the same
 thing

The second of two equal pointers was encoded as a reference to the first
pointer, that is as a pointer to a pointer.
---
 Go/sereal/encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 52f1539..facc2b9 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -660,7 +660,8 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		by = append(by, typeREFN)
 
 		if !rv.IsNil() {
-			state.ptrTable[rvptr] = lenbOrig
+			// refer to the thing pointed to, which starts one after the current pointer
+			state.ptrTable[rvptr] = lenbOrig + 1
 		}
 
 		var err error
-- 
2.43.0


From 2de6753de2ff1623517691b2bb5b0a3a476be951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 15/43] fix: refuse maps whose keys are not strings

They were encoded into documents that no decoder accepts, or with keys
like "<int Value>". String keys are now always written as strings, also
when their type is json.Number or implements BinaryMarshaler.
---
 Go/sereal/encode.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index facc2b9..3bc88bc 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -565,24 +565,20 @@ func (e *Encoder) encodeMap(by []byte, m reflect.Value, isRefNext bool, state *m
 	by = append(by, typeHASH)
 	by = varint(by, uint(len(keys)))
 
-	if e.PerlCompat {
-		var err error
-		for _, k := range keys {
-			by = e.encodeString(by, k.String(), true, state.strTable)
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+	var err error
+	for _, k := range keys {
+		ks := k
+		for ks.Kind() == reflect.Interface {
+			ks = ks.Elem()
+		}
+		if ks.Kind() != reflect.String {
+			// hash keys are always strings
+			return nil, fmt.Errorf("no support for map keys of type '%s'", m.Type().Key())
 		}
-	} else {
-		var err error
-		for _, k := range keys {
-			if by, err = e.encode(by, k, true, false, state, remainingDepth); err != nil {
-				return by, err
-			}
 
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+		by = e.encodeString(by, ks.String(), true, state.strTable)
+		if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
+			return by, err
 		}
 	}
 
-- 
2.43.0


From 4dc7e13f921553c596f593c583ccb7745bbbc9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 16/43] fix: make the package level Marshal safe for concurrent
 use

It shares one encoder, whose cache of struct tags was an unprotected map.
---
 Go/sereal/tagscache.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Go/sereal/tagscache.go b/Go/sereal/tagscache.go
index 907b39f..779efad 100644
--- a/Go/sereal/tagscache.go
+++ b/Go/sereal/tagscache.go
@@ -1,9 +1,13 @@
 package sereal
 
-import "reflect"
+import (
+	"reflect"
+	"sync"
+)
 
+// tagsCache may be shared: all callers of Marshal use one encoder
 type tagsCache struct {
-	cmap map[reflect.Type]map[string]int
+	cmap sync.Map // reflect.Type -> map[string]int
 }
 
 func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
@@ -11,13 +15,9 @@ func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 		return nil
 	}
 
-	if tc.cmap == nil {
-		tc.cmap = make(map[reflect.Type]map[string]int)
-	}
-
 	ptrType := ptr.Type()
-	if m, ok := tc.cmap[ptrType]; ok {
-		return m
+	if m, ok := tc.cmap.Load(ptrType); ok {
+		return m.(map[string]int)
 	}
 
 	m := make(map[string]int)
@@ -46,6 +46,6 @@ func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 		m = nil
 	}
 
-	tc.cmap[ptrType] = m
+	tc.cmap.Store(ptrType, m)
 	return m
 }
-- 
2.43.0


From 7c40eea14dea07454fac8b4b9693d216cb656d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 17/43] fix: store all of a binary in a byte slice that is not
 nil

Data beyond the previous length of the destination was dropped, and an
empty destination stayed empty.
---
 Go/sereal/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 4c37199..9da1ef6 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1262,9 +1262,11 @@ func setInt(ptr reflect.Value, i int) {
 func setBinary(ptr reflect.Value, val []byte) {
 	switch ptr.Kind() {
 	case reflect.Slice:
-		if ptr.Type().Elem().Kind() == reflect.Uint8 && ptr.IsNil() {
+		if ptr.Type().Elem().Kind() == reflect.Uint8 {
 			slice := make([]byte, len(val))
-			ptr.Set(reflect.ValueOf(slice))
+			copy(slice, val)
+			ptr.SetBytes(slice)
+			break
 		}
 
 		reflect.Copy(ptr, reflect.ValueOf(val))
-- 
2.43.0


From 70cb3a7f90e3aca0029c6b08002ae031e946fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 18/43] fix: decode into maps whose key type is a named string
 type

---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 9da1ef6..3e2c4d4 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -984,6 +984,9 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 			}
 
 			keyValue := reflect.ValueOf(string(key))
+			if keyType := ptr.Type().Key(); keyType.Kind() == reflect.String {
+				keyValue = keyValue.Convert(keyType)
+			}
 			if value := ptr.MapIndex(keyValue); value.IsValid() {
 				// strkey exists in map, replace its content but respect structure
 				idx, err = d.decodeViaReflection(by, idx, value)
-- 
2.43.0


From 4b1affbe8d8091be5d5941624d97eb5af353e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 19/43] fix: register types whose pointers implement
 BinaryUnmarshaler

RegisterName tried to take the address of a value that has none, and
panicked for every value whose type is not an unmarshaler itself.
---
 Go/sereal/decode.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 3e2c4d4..417c4bb 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1342,13 +1342,15 @@ func (d *Decoder) RegisterName(name string, value interface{}) {
 		return
 	}
 
-	prv := rv.Addr()
-	if _, ok := prv.Interface().(encoding.BinaryUnmarshaler); ok {
-		d.umcache[name] = prv.Type()
-		return
+	if rv.IsValid() {
+		ptyp := reflect.PtrTo(rv.Type())
+		if ptyp.Implements(reflect.TypeOf((*encoding.BinaryUnmarshaler)(nil)).Elem()) {
+			d.umcache[name] = ptyp
+			return
+		}
 	}
 
-	panic(fmt.Sprintf("unable to register type %s: not encoding.BinaryUnmarshaler", rv.Type()))
+	panic(fmt.Sprintf("unable to register type %T: not encoding.BinaryUnmarshaler", value))
 }
 
 func (d *Decoder) getUnmarshalerType(name string) (reflect.Type, bool) {
@@ -1365,8 +1367,7 @@ func instantiateZero(typ reflect.Type) reflect.Value {
 		return reflect.New(typ.Elem())
 	}
 
-	v := reflect.New(typ)
-	return v.Addr()
+	return reflect.New(typ).Elem()
 }
 
 // DecompressDocument changes the compression type of a Sereal document without performing a full re-serialization
-- 
2.43.0


From a17e09540b93738fb597c9f862ba31c0877cf914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 20/43] fix: do not panic when a document decompresses to
 nothing

---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 417c4bb..0d3565d 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1424,6 +1424,9 @@ func DecompressDocument(dst, b []byte) (r []byte, err error) {
 // hasSameBuffer returns true if the two slices share the same array (it only works for slices with capacity > 0)
 func hasSameBuffer(a, b []byte) bool {
 	aCap, bCap := cap(a), cap(b)
+	if aCap == 0 || bCap == 0 {
+		return false
+	}
 	aExt, bExt := a[:aCap], b[:bCap]
 
 	return &aExt[aCap-1] == &bExt[bCap-1]
-- 
2.43.0


From b8e6e15e4e4b2367d90d916e71beb8e48376da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 21/43] fix: check the claimed length of compressed bodies

The length was used to allocate memory before anything was decompressed,
so that a document of a few bytes could make the process panic or run
out of memory.
---
 Go/sereal/snappy.go | 10 ++++++++++
 Go/sereal/zlib.go   |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/Go/sereal/snappy.go b/Go/sereal/snappy.go
index 8562ad1..1afef2d 100644
--- a/Go/sereal/snappy.go
+++ b/Go/sereal/snappy.go
@@ -11,6 +11,9 @@ type SnappyCompressor struct {
 	Incremental bool // enable incremental parsing
 }
 
+// three bytes of snappy data can stand for up to 64 bytes
+const snappyMaxRatio = 64
+
 func (c SnappyCompressor) compress(b []byte) ([]byte, error) {
 	// XXX this could be more efficient!  I'm creating a new buffer to
 	//     store the compressed document, which isn't necessary.  You
@@ -48,6 +51,13 @@ func (c SnappyCompressor) decompress(d, b []byte) ([]byte, error) {
 		b = b[sz : sz+ln]
 	}
 
+	// don't allocate memory for a length that the data can't possibly have
+	if ln, err := snappy.DecodedLen(b); err != nil {
+		return nil, err
+	} else if ln/snappyMaxRatio > len(b) {
+		return nil, ErrCorrupt{errBadStringSize}
+	}
+
 	decompressed, err := snappy.Decode(d, b)
 	if err != nil {
 		return nil, err
diff --git a/Go/sereal/zlib.go b/Go/sereal/zlib.go
index 989dc27..3ce1146 100644
--- a/Go/sereal/zlib.go
+++ b/Go/sereal/zlib.go
@@ -17,6 +17,9 @@ const (
 	ZlibDefaultCompression = zlib.DefaultCompression
 )
 
+// deflate needs at least two bits for 258 bytes
+const zlibMaxRatio = 1032
+
 func (c ZlibCompressor) compress(buf []byte) ([]byte, error) {
 	// Prepend a compressed block with its length, i.e.:
 	//
@@ -63,6 +66,11 @@ func (c ZlibCompressor) decompress(d, buf []byte) ([]byte, error) {
 
 	buf = buf[csz : csz+cln]
 
+	// don't allocate memory for a length that the data can't possibly have
+	if uln < 0 || uln/zlibMaxRatio > cln {
+		return nil, ErrCorrupt{errBadStringSize}
+	}
+
 	// XXX Perhaps check if len(buf) == cln
 
 	return zlibDecode(uln, buf)
-- 
2.43.0


From 223c5e8642d2ded391bb6b204520320036dc91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 22/43] fix: limit the nesting depth when decoding

A document of a few megabytes of nested references or arrays overflowed
the stack, which ends the process.
---
 Go/sereal/decode.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 0d3565d..e2971ee 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -11,6 +11,10 @@ import (
 	"strings"
 )
 
+// maxDecodeDepth limits the nesting of documents, because exceeding Go's
+// maximum stack size can't be recovered from
+const maxDecodeDepth = 250000
+
 type serealHeader struct {
 	doctype     documentType
 	version     byte
@@ -85,6 +89,9 @@ type Decoder struct {
 	tcache    tagsCache
 	copyDepth int
 
+	// nesting of the item being decoded
+	depth int
+
 	// inside of a COPY used as a hash key, class name or regexp part
 	strCopy bool
 
@@ -193,7 +200,8 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
-	d.copyDepth = 0 // an earlier call may have been aborted inside of a COPY
+	// an earlier call may have been aborted half-way
+	d.copyDepth, d.depth = 0, 0
 
 	header, err := checkHeader(b)
 	if err != nil {
@@ -294,6 +302,11 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		tag = by[idx]
 	}
 
+	// on errors the whole decoding is given up, so the depth is only maintained on success
+	if d.depth++; d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	start := idx
 	trackme := (tag & trackFlag) == trackFlag
 	if trackme {
@@ -489,6 +502,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		}
 		d.undef[start] = true
 	}
+	d.depth--
 
 	//fmt.Printf("stop decode: tag %d (0x%x)\n", int(tag), int(tag))
 	return idx, err
@@ -747,6 +761,10 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		tag = by[idx]
 	}
 
+	if d.depth++; d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	if (tag & trackFlag) == trackFlag {
 		tag &^= trackFlag
 		d.tracked[idx] = ptr
@@ -915,6 +933,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		return 0, fmt.Errorf("unknown tag byte: %d (0x%x)", int(tag), int(tag))
 	}
 
+	d.depth--
 	return idx, err
 }
 
-- 
2.43.0


From 4305fb3380c8ef6b3f0551590b71d91d3850dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 23/43] fix: do not allocate more array elements than a
 document can hold

Every array claims its length up front, and the claims of nested arrays
were checked against the same remaining bytes, so that a document of some
kilobytes could make the decoder allocate gigabytes.
---
 Go/sereal/decode.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index e2971ee..4a5e165 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -89,6 +89,9 @@ type Decoder struct {
 	tcache    tagsCache
 	copyDepth int
 
+	// number of elements that open arrays and hashes still claim to have
+	pending int
+
 	// nesting of the item being decoded
 	depth int
 
@@ -201,7 +204,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 	}()
 
 	// an earlier call may have been aborted half-way
-	d.copyDepth, d.depth = 0, 0
+	d.copyDepth, d.depth, d.pending = 0, 0, 0
 
 	header, err := checkHeader(b)
 	if err != nil {
@@ -434,9 +437,12 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0 // those follow this tag, not the target
 		d.copyDepth++
 		_, err = d.decode(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		if d.PerlCompat {
@@ -549,7 +555,8 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 		return 0, ErrCorrupt{errBadHashSize}
 	}
 
-	if idx+2*ln > len(by) {
+	// every element takes a byte, and so do those of the enclosing containers
+	if idx+2*ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
 
@@ -562,7 +569,10 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 	}
 
 	var err error
+	d.pending += 2 * ln
 	for i := 0; i < ln; i++ {
+		d.pending -= 2
+
 		var key []byte
 		key, idx, err = d.decodeStringish(by, idx)
 		if err != nil {
@@ -586,7 +596,8 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
+	// every element takes a byte, and so do those of the enclosing containers
+	if idx+ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
 
@@ -606,7 +617,9 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 	}
 
 	var err error
+	d.pending += ln
 	for i := 0; i < ln; i++ {
+		d.pending--
 		idx, err = d.decode(by, idx, &slice[i])
 		if err != nil {
 			return 0, err
@@ -892,9 +905,12 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0 // those follow this tag, not the target
 		d.copyDepth++
 		_, err = d.decodeViaReflection(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		idx, err = d.decodeViaReflection(by, idx, ptr)
@@ -942,7 +958,7 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
+	if idx+ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
 
@@ -962,7 +978,9 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 	var err error
 	ptrLen := ptr.Len()
 
+	d.pending += ln
 	for i := 0; i < ln; i++ {
+		d.pending--
 		if i < ptrLen {
 			idx, err = d.decodeViaReflection(by, idx, ptr.Index(i))
 		} else {
-- 
2.43.0


From ce98f115d4cc289b2f8b934d607a1a939cfcc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 24/43] fix: do not create a pointer type for every nested
 reference

References to references decoded into pointers to pointers, creating types
as deep as the document nests. A document of 200 kB exhausted the memory.
---
 Go/sereal/decode.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 4a5e165..d9591f4 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -453,11 +453,12 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 				// if REFN is not tracked, build a pointer to concrete type
 				// otherwise let ptr be pointer to something (i.e. *interface{})
 				riface := reflect.ValueOf(iface)
-
-				// reflect.New create value of type *riface.Type())
-				val := reflect.New(riface.Type())
-				val.Elem().Set(riface)
-				*ptr = val.Interface()
+				if !isDeepPointer(riface.Type()) {
+					// reflect.New create value of type *riface.Type())
+					val := reflect.New(riface.Type())
+					val.Elem().Set(riface)
+					*ptr = val.Interface()
+				}
 			}
 		} else {
 			idx, err = d.decode(by, idx, ptr)
@@ -1136,6 +1137,9 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 				}
 			} else if d.DisableReferentialIntegrity {
 				res = rvData
+			} else if isDeepPointer(rvData.Type()) {
+				res = reflect.ValueOf(new(interface{}))
+				res.Elem().Set(rvData)
 			} else {
 				res = reflect.New(rvData.Type())
 				res.Elem().Set(rvData)
@@ -1153,6 +1157,19 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 	return res, idx, nil
 }
 
+// isDeepPointer tells if typ is a pointer to a pointer to a pointer and so on.
+// The runtime keeps every type that was ever created, so references nested in
+// references must not each get a type of their own.
+func isDeepPointer(typ reflect.Type) bool {
+	for i := 0; i < 16; i++ {
+		if typ.Kind() != reflect.Ptr {
+			return false
+		}
+		typ = typ.Elem()
+	}
+	return true
+}
+
 func (d *Decoder) decodeClassName(by []byte, idx int, isObjectV bool) ([]byte, int, error) {
 	if !isObjectV {
 		// typeOBJECT
-- 
2.43.0


From ba73dd31a07fa95f56c58924f7eb6176efa04ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 25/43] fix: let Append check version and type of the document

Documents of unknown versions or types were merged as if they were plain
ones.
---
 Go/sereal/merge.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index eca2046..200072f 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -157,7 +157,7 @@ func (m *Merger) Append(b []byte) (int, error) {
 		return 0, errors.New("finished document")
 	}
 
-	docHeader, err := readHeader(b)
+	docHeader, err := checkHeader(b)
 	if err != nil {
 		return 0, err
 	}
@@ -170,6 +170,9 @@ func (m *Merger) Append(b []byte) (int, error) {
 	}
 
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
+	if err != nil {
+		return 0, err
+	}
 
 	if decomp != nil {
 		if doc.buf, err = decomp.decompress(nil, doc.buf); err != nil {
-- 
2.43.0


From 5e7afc38a90ecc9682fa10d837ef3501a51ba21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 26/43] fix: resolve all offsets when merging

Offsets of version 1 documents are relative to the start of the document,
and an offset may name the tag right before the one that uses it.
---
 Go/sereal/merge.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 200072f..2db4e44 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -66,7 +66,7 @@ type mergerDoc struct {
 	trackTable map[int]int
 	version    int
 	startIdx   int // 0-based
-	bodyOffset int // 1-based
+	bodyOffset int // what to add to an offset to get an index in buf
 }
 
 // NewMerger returns a merger using the latest sereal version
@@ -169,6 +169,11 @@ func (m *Merger) Append(b []byte) (int, error) {
 		bodyOffset: -1, // 1-based offsets
 	}
 
+	if doc.version == 1 {
+		// offsets count from the start of the document
+		doc.bodyOffset = -(headerSize + docHeader.suffixSize)
+	}
+
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
 	if err != nil {
 		return 0, err
@@ -321,7 +326,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx {
+			if offset < 0 || offset >= idx-doc.bodyOffset {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
-- 
2.43.0


From af3ea3ede6d48801bdef7d30ff27d1fe41a4ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 27/43] fix: set the track flag at the right byte when merging

The offset was not adjusted for the header, so that some unrelated byte
in front of the referenced item was changed.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 2db4e44..19850c3 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -501,7 +501,7 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset] |= trackFlag
+				mbuf[m.bodyOffset+targetOffset] |= trackFlag
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
-- 
2.43.0


From e4200c534b18b96fda74b924e26999a05d362da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 28/43] fix: merge documents with a body of a single byte in
 flat mode

---
 Go/sereal/merge.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 19850c3..28d01a3 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -602,9 +602,12 @@ LOOP:
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat {
+	if m.KeepFlat && len(b) > 0 {
 		tag0 := b[0] &^ trackFlag
-		tag1 := b[1] &^ trackFlag
+		tag1 := byte(typePAD)
+		if len(b) > 1 {
+			tag1 = b[1] &^ trackFlag
+		}
 
 		switch m.TopLevelElement {
 		case TopLevelArray:
-- 
2.43.0


From f46ceaa956b5682b2ddb6449cf8e5b7525716c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 29/43] fix: reject truncated and overlong documents when
 merging

Append accepted documents that ended early, which made the following
documents part of them, and it panicked on truncated numbers and strings.
---
 Go/sereal/merge.go | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 28d01a3..b2b2f1a 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -18,7 +18,7 @@ const (
 	// TopLevelHashRef
 )
 
-const hashKeysValuesFlag = uint32(1 << 31)
+const hashKeysValuesFlag = uint64(1 << 63)
 
 // Merger merges multiple sereal documents without reconstructing them
 type Merger struct {
@@ -304,13 +304,11 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			idx += sz + ln + 1
 
 			if ln < 0 || ln > math.MaxUint32 {
 				return fmt.Errorf("bad size for string: %d", ln)
-			} else if idx > len(buf) {
-				return fmt.Errorf("truncated document, expect %d bytes", len(buf)-idx)
 			}
+			idx += sz + ln + 1
 
 		case tag == typeARRAY, tag == typeHASH:
 			_, sz, err := varintdecode(buf[idx+1:])
@@ -351,6 +349,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 		}
 	}
 
+	if idx > len(buf) {
+		return ErrTruncated
+	}
+
 	for idx := range doc.trackTable {
 		doc.trackIdxs = append(doc.trackIdxs, idx)
 	}
@@ -368,7 +370,7 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	if err != nil {
 		return err
 	}
-	if expElements < 0 || expElements > math.MaxUint32 {
+	if expElements < 0 || expElements > len(dbuf) {
 		return fmt.Errorf("bad amount of expected elements: %d", expElements)
 	}
 
@@ -379,8 +381,8 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	// - verify document consistency
 	// if a value put on stack has the highest significant bit on,
 	// it means that hash keys/values are processed
-	stack := make([]uint32, 0, 16) // preallocate 16 nested levels
-	stack = append(stack, uint32(expElements))
+	stack := make([]uint64, 0, 16) // preallocate 16 nested levels
+	stack = append(stack, uint64(expElements))
 
 LOOP:
 	for didx < len(dbuf) {
@@ -405,7 +407,12 @@ LOOP:
 		// The trick with stack[level] % 2 == 0 works because stack[level] for hashes is always even at
 		// the beggining (for each item in hash we expect key and value). In practise it means,
 		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
-		dedupString := m.DedupeStrings || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
+		isKey := (stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0
+		dedupString := m.DedupeStrings || isKey
+
+		if isKey && !isShallowStringish(tag) && tag != typeCOPY && tag != typePAD {
+			return fmt.Errorf("expected stringish but found %d (0x%x)", int(tag), int(tag))
+		}
 
 		//fmt.Printf("0x%x (0x%x) at didx: %d (rlt: %d) len(dbuf): %d\n", tag, dbuf[didx], didx, didx-doc.bodyOffset, len(dbuf))
 		//fmt.Printf("level: %d, value: %d len: %d\n", level, stack[level], len(stack))
@@ -512,7 +519,8 @@ LOOP:
 				return err
 
 			}
-			if ln < 0 {
+			if ln < 0 || ln > len(dbuf) {
+				// every element takes at least one byte
 				return errors.New("bad array or hash length")
 			}
 
@@ -520,9 +528,9 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeHASH {
-				stack = append(stack, uint32(ln*2)|hashKeysValuesFlag)
+				stack = append(stack, uint64(ln*2)|hashKeysValuesFlag)
 			} else {
-				stack = append(stack, uint32(ln))
+				stack = append(stack, uint64(ln))
 			}
 
 		case (tag >= typeARRAYREF_0 && tag < typeARRAYREF_0+16) || (tag >= typeHASHREF_0 && tag < typeHASHREF_0+16):
@@ -531,9 +539,9 @@ LOOP:
 
 			// for hash read 2*ln items
 			if tag >= typeHASHREF_0 {
-				stack = append(stack, uint32(tag&0xF*2)|hashKeysValuesFlag)
+				stack = append(stack, uint64(tag&0xF*2)|hashKeysValuesFlag)
 			} else {
-				stack = append(stack, uint32(tag&0xF))
+				stack = append(stack, uint64(tag&0xF))
 			}
 
 		case tag == typeREGEXP:
@@ -596,6 +604,12 @@ LOOP:
 		}
 	}
 
+	for _, left := range stack {
+		if left&^hashKeysValuesFlag != 0 {
+			return ErrTruncated
+		}
+	}
+
 	m.length += expElements
 	m.buf = mbuf
 	return nil
@@ -634,6 +648,10 @@ func isShallowStringish(tag byte) bool {
 }
 
 func readString(buf []byte) (int, []byte, error) {
+	if len(buf) == 0 {
+		return 0, nil, ErrTruncated
+	}
+
 	tag := buf[0]
 	tag &^= trackFlag
 
-- 
2.43.0


From f1aafc0c89201585f3d59e48c032e101659b573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 30/43] fix: merge objects and regexps with any kind of strings

Class names given by COPY, padding, empty regexp parts, and class names
that OBJECTV refers to could not be merged, and references to an object
were redirected to its class name.
---
 Go/sereal/merge.go | 94 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 66 insertions(+), 28 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index b2b2f1a..35b53fe 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -20,6 +20,11 @@ const (
 
 const hashKeysValuesFlag = uint64(1 << 63)
 
+// marks stack values of regexps, whose parts must be strings and are not deduplicated
+const stringsFlag = uint64(1 << 62)
+
+const stackFlags = hashKeysValuesFlag | stringsFlag
+
 // Merger merges multiple sereal documents without reconstructing them
 type Merger struct {
 	buf        []byte
@@ -390,11 +395,16 @@ LOOP:
 		tag &^= trackFlag
 
 		docRelativeIdx := didx - doc.bodyOffset
+		for len(doc.trackIdxs) > 0 && doc.trackIdxs[0] < docRelativeIdx {
+			// not the offset of a tag that could be referred to
+			doc.trackIdxs = doc.trackIdxs[1:]
+		}
+
 		mrgRelativeIdx := len(mbuf) - m.bodyOffset
 		trackme := len(doc.trackIdxs) > 0 && doc.trackIdxs[0] == docRelativeIdx
 
 		level := len(stack) - 1
-		for stack[level]&^hashKeysValuesFlag == 0 {
+		for stack[level]&^stackFlags == 0 {
 			stack = stack[:level]
 			level--
 
@@ -408,9 +418,10 @@ LOOP:
 		// the beggining (for each item in hash we expect key and value). In practise it means,
 		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
 		isKey := (stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0
-		dedupString := m.DedupeStrings || isKey
+		isRegexp := (stack[level] & stringsFlag) == stringsFlag
+		dedupString := (m.DedupeStrings && !isRegexp) || isKey
 
-		if isKey && !isShallowStringish(tag) && tag != typeCOPY && tag != typePAD {
+		if (isKey || isRegexp) && !isShallowStringish(tag) && tag != typeCOPY && tag != typePAD {
 			return fmt.Errorf("expected stringish but found %d (0x%x)", int(tag), int(tag))
 		}
 
@@ -545,29 +556,48 @@ LOOP:
 			}
 
 		case tag == typeREGEXP:
-			offset, str, err := readString(dbuf[didx+1:])
-			if err != nil {
-				return err
-			}
-
-			sizeToCopy := offset + len(str) + 1
-			offset, str, err = readString(dbuf[didx+sizeToCopy:])
-			if err != nil {
-				return err
-			}
+			mbuf = append(mbuf, dbuf[didx])
+			didx++
 
-			sizeToCopy += offset + len(str)
-			mbuf = append(mbuf, dbuf[didx:didx+sizeToCopy]...)
-			didx += sizeToCopy
+			// pattern and modifiers follow
+			stack = append(stack, 2|stringsFlag)
 
 		case tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			// skip main tag for a second, and parse <STR-TAG>
-			offset, str, err := readString(dbuf[didx+1:])
-			if err != nil {
-				return err
+			classIdx := didx + 1
+			for classIdx < len(dbuf) && dbuf[classIdx]&^trackFlag == typePAD {
+				classIdx++
+			}
+
+			// in the merged document, the class name is part of this item, unless it is a copy
+			classOffset := mrgRelativeIdx + 1
+
+			var str []byte
+			var length int
+			isCopy := classIdx < len(dbuf) && dbuf[classIdx]&^trackFlag == typeCOPY
+			if isCopy {
+				offset, sz, err := varintdecode(dbuf[classIdx+1:])
+				if err != nil {
+					return err
+				}
+				targetOffset, ok := doc.trackTable[offset]
+				if !ok || targetOffset < 0 {
+					return errors.New("bad target offset at COPY tag")
+				}
+				if _, str, err = readString(dbuf[offset+doc.bodyOffset:]); err != nil {
+					return err
+				}
+				classOffset = targetOffset
+				length = sz + 1
+			} else {
+				offset, s, err := readString(dbuf[classIdx:])
+				if err != nil {
+					return err
+				}
+				str = s
+				length = offset + len(str)
 			}
 
-			length := offset + len(str) + 1 // respect typeOBJECT tag
 			if savedOffset, ok := m.objTable[string(str)]; ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
@@ -575,17 +605,25 @@ LOOP:
 					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(savedOffset))
 				}
 
-				mrgRelativeIdx = savedOffset
+				classOffset = savedOffset
 			} else {
-				// +1 because we should refer to string tag, not object tag
-				mrgRelativeIdx++
-				m.objTable[string(str)] = mrgRelativeIdx
-				mbuf = append(mbuf, dbuf[didx:didx+length]...)
+				m.objTable[string(str)] = classOffset
+				mbuf = append(mbuf, dbuf[didx])
+				if isCopy {
+					mbuf = appendTagVarint(mbuf, typeCOPY, uint(classOffset))
+				} else {
+					mbuf = append(mbuf, dbuf[classIdx:classIdx+length]...)
+				}
+			}
+
+			// the document may refer to the class name
+			if _, ok := doc.trackTable[classIdx-doc.bodyOffset]; ok {
+				doc.trackTable[classIdx-doc.bodyOffset] = classOffset
 			}
 
 			// parse <ITEM-TAG>
 			stack = append(stack, 1)
-			didx += length
+			didx = classIdx + length
 
 		case tag == typePACKET_START:
 			return errors.New("unexpected start of new document")
@@ -605,7 +643,7 @@ LOOP:
 	}
 
 	for _, left := range stack {
-		if left&^hashKeysValuesFlag != 0 {
+		if left&^stackFlags != 0 {
 			return ErrTruncated
 		}
 	}
@@ -660,7 +698,7 @@ func readString(buf []byte) (int, []byte, error) {
 	}
 
 	var ln, offset int
-	if tag > typeSHORT_BINARY_0 {
+	if tag >= typeSHORT_BINARY_0 {
 		ln = int(tag & 0x1F) // get length from tag
 	} else {
 		var err error
-- 
2.43.0


From 103175a4c1fb77c8ab8519746e97b752dfd2334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 31/43] fix: forget the strings of a document that failed to
 merge

The tables of known strings and class names kept offsets of data that had
been removed again, so that later documents were damaged.
---
 Go/sereal/merge.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 35b53fe..0360a25 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -72,6 +72,10 @@ type mergerDoc struct {
 	version    int
 	startIdx   int // 0-based
 	bodyOffset int // what to add to an offset to get an index in buf
+
+	// table entries to remove when merging fails
+	newStrings []string
+	newClasses []string
 }
 
 // NewMerger returns a merger using the latest sereal version
@@ -208,6 +212,12 @@ func (m *Merger) Append(b []byte) (int, error) {
 	// second pass: do the work
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
+		for _, s := range doc.newStrings {
+			delete(m.strTable, s)
+		}
+		for _, s := range doc.newClasses {
+			delete(m.objTable, s)
+		}
 		return 0, err
 	}
 
@@ -493,7 +503,9 @@ LOOP:
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 					mrgRelativeIdx = savedOffset
 				} else {
-					m.strTable[string(val)] = mrgRelativeIdx
+					s := string(val)
+					m.strTable[s] = mrgRelativeIdx
+					doc.newStrings = append(doc.newStrings, s)
 					mbuf = append(mbuf, dbuf[didx:didx+length]...)
 				}
 			} else {
@@ -607,7 +619,9 @@ LOOP:
 
 				classOffset = savedOffset
 			} else {
-				m.objTable[string(str)] = classOffset
+				s := string(str)
+				m.objTable[s] = classOffset
+				doc.newClasses = append(doc.newClasses, s)
 				mbuf = append(mbuf, dbuf[didx])
 				if isCopy {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(classOffset))
-- 
2.43.0


From ac6dfa8adbde2528cd8dbc7bd8dd73a4062460cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 32/43] fix: finish merging with incompressible data or a bad
 compressor

Compressed data larger than the original was cut off or made Finish
panic, and a failing Finish left the merger with a damaged document that
was returned by the next call.
---
 Go/sereal/merge.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 0360a25..426c6a6 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -231,18 +231,10 @@ func (m *Merger) Finish() ([]byte, error) {
 	}
 
 	if !m.finished {
-		m.finished = true
 		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))
 
 		if m.Compression != nil && (m.CompressionThreshold == 0 || len(m.buf) >= m.CompressionThreshold) {
-			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
-			if err != nil {
-				return m.buf, err
-			}
-
-			// TODO think about some optimizations here
-			copy(m.buf[m.bodyOffset+1:], compressed)
-			m.buf = m.buf[:len(compressed)+m.bodyOffset+1]
+			var doctype documentType
 
 			// verify compressor, there was little point in veryfing compressor in initMerger()
 			// because use can change it meanwhile
@@ -252,19 +244,30 @@ func (m *Merger) Finish() ([]byte, error) {
 					return nil, errors.New("non-incremental snappy compression is not supported")
 				}
 
-				m.buf[4] |= byte(serealSnappyIncremental) << 4
+				doctype = serealSnappyIncremental
 
 			case ZlibCompressor:
 				if m.version < 3 {
 					return nil, errors.New("zlib compression only valid for v3 documents and up")
 				}
 
-				m.buf[4] |= byte(serealZlib) << 4
+				doctype = serealZlib
 
 			default:
 				return nil, errors.New("unknown compressor")
 			}
+
+			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
+			if err != nil {
+				return nil, err
+			}
+
+			// TODO think about some optimizations here
+			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
+			m.buf[4] |= byte(doctype) << 4
 		}
+
+		m.finished = true
 	}
 
 	return m.buf, nil
-- 
2.43.0


From 4e00e94622fd18ff0355801fbc96c5a0faeb0468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 33/43] fix: deduplicate only what may be replaced when merging

A binary was replaced by a text with the same bytes and vice versa, and a
string inside of an item that is the target of a COPY became a COPY
itself, which no decoder accepts.
---
 Go/sereal/merge.go | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 426c6a6..1e3abec 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -28,7 +28,8 @@ const stackFlags = hashKeysValuesFlag | stringsFlag
 // Merger merges multiple sereal documents without reconstructing them
 type Merger struct {
 	buf        []byte
-	strTable   map[string]int
+	strTable   map[string]int // binary strings
+	utf8Table  map[string]int // UTF-8 strings
 	objTable   map[string]int
 	version    int
 	length     int
@@ -73,8 +74,12 @@ type mergerDoc struct {
 	startIdx   int // 0-based
 	bodyOffset int // what to add to an offset to get an index in buf
 
+	// a COPY refers to something other than a string
+	copies bool
+
 	// table entries to remove when merging fails
 	newStrings []string
+	newUTF8    []string
 	newClasses []string
 }
 
@@ -111,6 +116,7 @@ func (m *Merger) initMerger() error {
 
 	// initialize internal fields
 	m.strTable = make(map[string]int)
+	m.utf8Table = make(map[string]int)
 	m.objTable = make(map[string]int)
 
 	if m.ExpectedSize > 0 {
@@ -215,6 +221,9 @@ func (m *Merger) Append(b []byte) (int, error) {
 		for _, s := range doc.newStrings {
 			delete(m.strTable, s)
 		}
+		for _, s := range doc.newUTF8 {
+			delete(m.utf8Table, s)
+		}
 		for _, s := range doc.newClasses {
 			delete(m.objTable, s)
 		}
@@ -346,6 +355,17 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
+			target := offset + doc.bodyOffset
+			if target < 0 {
+				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
+			}
+			if (tag == typeREFP || tag == typeALIAS) && buf[target]&trackFlag == 0 {
+				return fmt.Errorf("tag %d refers to untracked offset: %d", tag, offset)
+			}
+			if tag == typeCOPY && !isShallowStringish(buf[target]&^trackFlag) {
+				doc.copies = true
+			}
+
 			doc.trackTable[offset] = -1
 			idx += sz + 1
 
@@ -432,7 +452,9 @@ LOOP:
 		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
 		isKey := (stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0
 		isRegexp := (stack[level] & stringsFlag) == stringsFlag
-		dedupString := (m.DedupeStrings && !isRegexp) || isKey
+		// A string value may not become a COPY where it is part of something that is copied itself,
+		// or where it is referred to by REFP or ALIAS.
+		dedupString := (m.DedupeStrings && !isRegexp && !doc.copies && dbuf[didx]&trackFlag == 0) || isKey
 
 		if (isKey || isRegexp) && !isShallowStringish(tag) && tag != typeCOPY && tag != typePAD {
 			return fmt.Errorf("expected stringish but found %d (0x%x)", int(tag), int(tag))
@@ -502,13 +524,22 @@ LOOP:
 
 			if dedupString {
 				val := dbuf[didx+sz+1 : didx+length]
-				if savedOffset, ok := m.strTable[string(val)]; ok {
+				strTable := m.strTable
+				if tag == typeSTR_UTF8 {
+					strTable = m.utf8Table
+				}
+
+				if savedOffset, ok := strTable[string(val)]; ok {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 					mrgRelativeIdx = savedOffset
 				} else {
 					s := string(val)
-					m.strTable[s] = mrgRelativeIdx
-					doc.newStrings = append(doc.newStrings, s)
+					strTable[s] = mrgRelativeIdx
+					if tag == typeSTR_UTF8 {
+						doc.newUTF8 = append(doc.newUTF8, s)
+					} else {
+						doc.newStrings = append(doc.newStrings, s)
+					}
 					mbuf = append(mbuf, dbuf[didx:didx+length]...)
 				}
 			} else {
-- 
2.43.0


From 0d4d6fb2d64573bcbd2925f4f52d892cf23b05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 34/43] fix: recognize pointers, slices and strings that were
 encoded before

---
 Go/sereal/decode.go |  4 ++++
 Go/sereal/encode.go | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index d9591f4..5563e80 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -639,6 +639,10 @@ func (d *Decoder) decodeBinary(by []byte, idx int, ln int, makeCopy bool) ([]byt
 	}
 
 	if makeCopy {
+		if ln == 0 {
+			// with memory of its own, see getPointer
+			return make([]byte, 0, 1), idx, nil
+		}
 		res := make([]byte, ln)
 		copy(res, by[idx:idx+ln])
 		return res, idx + ln, nil
diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 3bc88bc..e3c7d8c 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -10,6 +10,7 @@ import (
 	"reflect"
 	"runtime"
 	"strconv"
+	"unsafe"
 )
 
 // An Encoder encodes Go data structures into Sereal byte streams
@@ -658,6 +659,8 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		if !rv.IsNil() {
 			// refer to the thing pointed to, which starts one after the current pointer
 			state.ptrTable[rvptr] = lenbOrig + 1
+			// and to the pointer as such, see getPointer
+			state.ptrTable[ptrKey{rv.Pointer(), rv.Type(), -1}] = lenbOrig
 		}
 
 		var err error
@@ -685,7 +688,7 @@ func varint(by []byte, n uint) []uint8 {
 	return append(by, byte(n))
 }
 
-// getPointer returns the identity of the container rv, or the zero ptrKey if it has none
+// getPointer returns the identity of the data of rv, or the zero ptrKey if it has none
 func getPointer(rv reflect.Value) ptrKey {
 	switch rv.Kind() {
 	case reflect.Map:
@@ -693,12 +696,23 @@ func getPointer(rv reflect.Value) ptrKey {
 			return ptrKey{rv.Pointer(), rv.Type(), 0}
 		}
 	case reflect.Slice:
-		if rv.Len() > 0 {
+		// without memory of their own, all slices look the same
+		if rv.Cap() > 0 {
 			return ptrKey{rv.Pointer(), rv.Type(), rv.Len()}
 		}
 	case reflect.Interface:
 		// FIXME: still needed?
 		return getPointer(rv.Elem())
+	case reflect.Ptr:
+		// a pointer as such, as opposed to what it points to
+		if !rv.IsNil() {
+			return ptrKey{rv.Pointer(), rv.Type(), -1}
+		}
+	case reflect.String:
+		if s := rv.String(); len(s) > 0 {
+			ps := (*reflect.StringHeader)(unsafe.Pointer(&s))
+			return ptrKey{ps.Data, rv.Type(), len(s)}
+		}
 	}
 
 	return ptrKey{}
-- 
2.43.0


From 651e2e875acef4336fb164e33664ccccf46f475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 35/43] fix: give version 1 documents with incremental snappy
 their type

---
 Go/sereal/encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index e3c7d8c..d259422 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -176,10 +176,10 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 			if e.version > 1 && !c.Incremental {
 				return nil, errors.New("non-incremental snappy compression only valid for v1 documents")
 			}
-			if e.version == 1 {
-				doctype = serealSnappy
-			} else {
+			if c.Incremental {
 				doctype = serealSnappyIncremental
+			} else {
+				doctype = serealSnappy
 			}
 		case ZlibCompressor:
 			if e.version < 3 {
-- 
2.43.0


From 41f9c791a661a9e02d7306115dfd0e642ef19d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 36/43] fix: decode into maps that already have the key

---
 Go/sereal/decode.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 5563e80..9254dd5 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1029,23 +1029,19 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 			if keyType := ptr.Type().Key(); keyType.Kind() == reflect.String {
 				keyValue = keyValue.Convert(keyType)
 			}
+			// if strkey exists in map, replace its content but respect structure,
+			// otherwise create a new one; an element can't be set while in the map
+			riface := reflect.New(ptr.Type().Elem())
 			if value := ptr.MapIndex(keyValue); value.IsValid() {
-				// strkey exists in map, replace its content but respect structure
-				idx, err = d.decodeViaReflection(by, idx, value)
-			} else {
-				// there is no strkey in map, crete a new one
-				riface := reflect.New(ptr.Type().Elem())
-				idx, err = d.decodeViaReflection(by, idx, riface.Elem())
-				if err != nil {
-					return 0, err
-				}
-
-				ptr.SetMapIndex(keyValue, riface.Elem())
+				riface.Elem().Set(value)
 			}
 
+			idx, err = d.decodeViaReflection(by, idx, riface.Elem())
 			if err != nil {
 				return 0, err
 			}
+
+			ptr.SetMapIndex(keyValue, riface.Elem())
 		}
 
 	case reflect.Ptr:
-- 
2.43.0


From 1603a766f42eb5328c64ba238b2021f27e9a92a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 37/43] fix: decode into interfaces that are not nil

---
 Go/sereal/decode.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 9254dd5..35bcf5d 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -758,15 +758,23 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 
 	ptrKind := ptr.Kind()
 
-	// at this point structure of decoding document is uknown, make a shortcut
-	if ptrKind == reflect.Interface && ptr.IsNil() {
-		var iface interface{}
-		var err error
-		idx, err = d.decode(by, idx, &iface)
-		if iface != nil {
-			ptr.Set(reflect.ValueOf(iface))
+	// at this point structure of decoding document is uknown, make a shortcut;
+	// what an interface holds can't be set, only an unmarshaler may be used
+	if ptrKind == reflect.Interface {
+		if _, ok := ptr.Interface().(encoding.BinaryUnmarshaler); !ok {
+			var iface interface{}
+			var err error
+			idx, err = d.decode(by, idx, &iface)
+			if err != nil {
+				return 0, err
+			}
+			if iface != nil {
+				ptr.Set(reflect.ValueOf(iface))
+			} else {
+				ptr.Set(reflect.Zero(ptr.Type()))
+			}
+			return idx, nil
 		}
-		return idx, err
 	}
 
 	tag := by[idx]
-- 
2.43.0


From d8849be55a5ed150691a083b33e0f9a6f890a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 38/43] fix: let merger size hints be smaller than a header

An ExpectedSize of 1 to 4 made every Append and Finish panic.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 1e3abec..1058add 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -119,7 +119,7 @@ func (m *Merger) initMerger() error {
 	m.utf8Table = make(map[string]int)
 	m.objTable = make(map[string]int)
 
-	if m.ExpectedSize > 0 {
+	if m.ExpectedSize > headerSize {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
 	} else {
 		m.buf = make([]byte, headerSize)
-- 
2.43.0


From b1234c3f6e201312b7b14cc7b449f037fbf262c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 39/43] fix: keep class names of both kinds and copied ones
 apart when merging

---
 Go/sereal/merge.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 1058add..e30f233 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -30,7 +30,7 @@ type Merger struct {
 	buf        []byte
 	strTable   map[string]int // binary strings
 	utf8Table  map[string]int // UTF-8 strings
-	objTable   map[string]int
+	objTable   map[className]int
 	version    int
 	length     int
 	lenOffset  int
@@ -66,10 +66,17 @@ type Merger struct {
 	finished bool
 }
 
+// class names are strings of either kind
+type className struct {
+	name string
+	utf8 bool
+}
+
 type mergerDoc struct {
 	buf        []byte
 	trackIdxs  []int
 	trackTable map[int]int
+	classTable map[int]int // like trackTable, for class names
 	version    int
 	startIdx   int // 0-based
 	bodyOffset int // what to add to an offset to get an index in buf
@@ -80,7 +87,7 @@ type mergerDoc struct {
 	// table entries to remove when merging fails
 	newStrings []string
 	newUTF8    []string
-	newClasses []string
+	newClasses []className
 }
 
 // NewMerger returns a merger using the latest sereal version
@@ -117,7 +124,7 @@ func (m *Merger) initMerger() error {
 	// initialize internal fields
 	m.strTable = make(map[string]int)
 	m.utf8Table = make(map[string]int)
-	m.objTable = make(map[string]int)
+	m.objTable = make(map[className]int)
 
 	if m.ExpectedSize > headerSize {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
@@ -224,8 +231,8 @@ func (m *Merger) Append(b []byte) (int, error) {
 		for _, s := range doc.newUTF8 {
 			delete(m.utf8Table, s)
 		}
-		for _, s := range doc.newClasses {
-			delete(m.objTable, s)
+		for _, class := range doc.newClasses {
+			delete(m.objTable, class)
 		}
 		return 0, err
 	}
@@ -290,6 +297,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 	}
 
 	doc.trackTable = make(map[int]int)
+	doc.classTable = make(map[int]int)
 	doc.trackIdxs = make([]int, 0)
 
 	for idx < len(buf) {
@@ -556,6 +564,11 @@ LOOP:
 				return err
 			}
 			targetOffset, ok := doc.trackTable[offset]
+			if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
+				if classOffset, isClass := doc.classTable[offset]; isClass {
+					targetOffset, ok = classOffset, true
+				}
+			}
 
 			if !ok || targetOffset < 0 {
 				return errors.New("bad target offset at COPY, ALIAS or REFP tag")
@@ -620,6 +633,7 @@ LOOP:
 
 			var str []byte
 			var length int
+			strIdx := classIdx
 			isCopy := classIdx < len(dbuf) && dbuf[classIdx]&^trackFlag == typeCOPY
 			if isCopy {
 				offset, sz, err := varintdecode(dbuf[classIdx+1:])
@@ -630,7 +644,8 @@ LOOP:
 				if !ok || targetOffset < 0 {
 					return errors.New("bad target offset at COPY tag")
 				}
-				if _, str, err = readString(dbuf[offset+doc.bodyOffset:]); err != nil {
+				strIdx = offset + doc.bodyOffset
+				if _, str, err = readString(dbuf[strIdx:]); err != nil {
 					return err
 				}
 				classOffset = targetOffset
@@ -644,7 +659,8 @@ LOOP:
 				length = offset + len(str)
 			}
 
-			if savedOffset, ok := m.objTable[string(str)]; ok {
+			isUTF8 := strIdx < len(dbuf) && dbuf[strIdx]&^trackFlag == typeSTR_UTF8
+			if savedOffset, ok := m.objTable[className{string(str), isUTF8}]; ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
 				} else {
@@ -653,9 +669,9 @@ LOOP:
 
 				classOffset = savedOffset
 			} else {
-				s := string(str)
-				m.objTable[s] = classOffset
-				doc.newClasses = append(doc.newClasses, s)
+				class := className{string(str), isUTF8}
+				m.objTable[class] = classOffset
+				doc.newClasses = append(doc.newClasses, class)
 				mbuf = append(mbuf, dbuf[didx])
 				if isCopy {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(classOffset))
@@ -665,6 +681,7 @@ LOOP:
 			}
 
 			// the document may refer to the class name
+			doc.classTable[strIdx-doc.bodyOffset] = classOffset
 			if _, ok := doc.trackTable[classIdx-doc.bodyOffset]; ok {
 				doc.trackTable[classIdx-doc.bodyOffset] = classOffset
 			}
-- 
2.43.0


From 899afc7d2ca1de7352de77f51d0bf694c5f7df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 40/43] fix: refuse to merge hash keys and regexps that copy
 other items

---
 Go/sereal/merge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index e30f233..da1b604 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -573,6 +573,9 @@ LOOP:
 			if !ok || targetOffset < 0 {
 				return errors.New("bad target offset at COPY, ALIAS or REFP tag")
 			}
+			if (isKey || isRegexp) && !isShallowStringish(dbuf[offset+doc.bodyOffset]&^trackFlag) {
+				return errors.New("expected a copy of a string")
+			}
 
 			mbuf = appendTagVarint(mbuf, dbuf[didx], uint(targetOffset))
 			didx += sz + 1
-- 
2.43.0


From c29a680159c882537ae3a9dd67d595abcdc68d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 41/43] fix: merge documents with a reference to itself

---
 Go/sereal/merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index da1b604..a8d62c8 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -359,7 +359,9 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx-doc.bodyOffset {
+			// a reference may refer to itself
+			self := tag == typeREFP && offset == idx-doc.bodyOffset
+			if offset < 0 || (offset >= idx-doc.bodyOffset && !self) {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
@@ -564,6 +566,9 @@ LOOP:
 				return err
 			}
 			targetOffset, ok := doc.trackTable[offset]
+			if tag == typeREFP && offset == docRelativeIdx {
+				targetOffset = mrgRelativeIdx
+			}
 			if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				if classOffset, isClass := doc.classTable[offset]; isClass {
 					targetOffset, ok = classOffset, true
-- 
2.43.0


From caab737d681b7b73775cea0610562f2f58d32266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 42/43] fix: a failed Append left track flags on merged
 documents

---
 Go/sereal/merge.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index a8d62c8..c68e069 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -88,6 +88,9 @@ type mergerDoc struct {
 	newStrings []string
 	newUTF8    []string
 	newClasses []className
+
+	// tags given the track flag, to be reset when merging fails
+	newTracked []int
 }
 
 // NewMerger returns a merger using the latest sereal version
@@ -234,6 +237,11 @@ func (m *Merger) Append(b []byte) (int, error) {
 		for _, class := range doc.newClasses {
 			delete(m.objTable, class)
 		}
+		for _, idx := range doc.newTracked {
+			if idx < len(m.buf) {
+				m.buf[idx] &^= trackFlag
+			}
+		}
 		return 0, err
 	}
 
@@ -586,7 +594,10 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[m.bodyOffset+targetOffset] |= trackFlag
+				if target := m.bodyOffset + targetOffset; mbuf[target]&trackFlag == 0 {
+					mbuf[target] |= trackFlag
+					doc.newTracked = append(doc.newTracked, target)
+				}
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
-- 
2.43.0


From ae0cc3d0201749ab848ec198bec739b9820bb9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 43/43] fix: a nil *interface{} as destination made Unmarshal
 panic

---
 Go/sereal/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 35bcf5d..7a9bc39 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -227,7 +227,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		defer func() { d.tracked, d.undef = nil, nil }()
 
 		headerValue := reflect.ValueOf(vheader)
-		if headerValue.Kind() != reflect.Ptr {
+		if headerValue.Kind() != reflect.Ptr || headerValue.IsNil() {
 			return ErrHeaderPointer
 		}
 
@@ -262,7 +262,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		defer func() { d.tracked, d.undef = nil, nil }()
 
 		bodyValue := reflect.ValueOf(vbody)
-		if bodyValue.Kind() != reflect.Ptr {
+		if bodyValue.Kind() != reflect.Ptr || bodyValue.IsNil() {
 			return ErrBodyPointer
 		}
 
-- 
2.43.0

