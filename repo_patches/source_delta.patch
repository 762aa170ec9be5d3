From e2a944298904af9b8cc3e6d5a3981d9398443be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 01/85] fix: decode non-negative ZIGZAG integers

The decoder took every ZIGZAG varint as negative, so even values (which
encode zero and the positive integers) came out wrong.
---
 Go/sereal/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fb9c6e6..5e7bce7 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -479,7 +479,7 @@ func (d *Decoder) decodeVarint(by []byte, idx int) (int, int, error) {
 
 func (d *Decoder) decodeZigzag(by []byte, idx int) (int, int, error) {
 	i, sz, err := varintdecode(by[idx:])
-	return int(-(1 + (uint64(i) >> 1))), idx + sz, err
+	return int(uint64(i)>>1) ^ -(i & 1), idx + sz, err
 }
 
 func (d *Decoder) decodeFloat(by []byte, idx int) (float32, int, error) {
-- 
2.43.0


From 095ed809a61f71f5b56bfc4d40f6e1df7f5ea3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 02/85] fix: reject invalid header suffix lengths

A negative length, or a zero length written with redundant continuation
bytes, made the decoder read its header flags outside of the suffix and
panic with an index out of range.
---
 Go/sereal/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 5e7bce7..733cdf4 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -56,6 +56,10 @@ func readHeader(b []byte) (serealHeader, error) {
 		return serealHeader{}, err
 	}
 
+	if ln < 0 {
+		return serealHeader{}, ErrCorrupt{errBadOffset}
+	}
+
 	h.suffixSize = ln + sz
 	h.suffixStart = headerSize + sz
 
@@ -201,7 +205,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	if vheader != nil && header.suffixSize != 1 {
+	if vheader != nil && bodyStart > header.suffixStart {
 		d.tracked = make(map[int]reflect.Value)
 		defer func() { d.tracked = nil }()
 
-- 
2.43.0


From 604c797857d2a943cd22f65c3f7d530fc1d6811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 03/85] fix: resolve offsets in header metadata relative to the
 metadata

Encoders (this one and the Perl one) write them that way, but the decoder
took them as offsets into the whole document: headers with repeated keys
or references failed to decode.
---
 Go/sereal/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 733cdf4..3b4982f 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -216,10 +216,12 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 
 		header.suffixFlags = b[header.suffixStart]
 		if header.suffixFlags&1 == 1 {
+			// offsets are 1-based and relative to the user metadata
+			suffix := b[header.suffixStart:bodyStart]
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
-				_, err = d.decode(b[:bodyStart], header.suffixStart+1, ptr)
+				_, err = d.decode(suffix, 1, ptr)
 			} else {
-				_, err = d.decodeViaReflection(b[:bodyStart], header.suffixStart+1, headerValue.Elem())
+				_, err = d.decodeViaReflection(suffix, 1, headerValue.Elem())
 			}
 		}
 	}
-- 
2.43.0


From 961eddb54cdbb6493279fd34a76f8e9c33a36b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 04/85] fix: decode references to a shared undef

A REFP whose target is UNDEF failed with a reflect error in the default
mode, where undef is a nil interface.
---
 Go/sereal/decode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 3b4982f..a6e570f 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1057,7 +1057,13 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 
 		if isREFP {
 			rvData := rv.Elem().Elem()
-			if d.DisableReferentialIntegrity {
+			if !rvData.IsValid() {
+				// reference to undef
+				res = rv
+				if d.DisableReferentialIntegrity {
+					res = rv.Elem()
+				}
+			} else if d.DisableReferentialIntegrity {
 				res = rvData
 			} else {
 				res = reflect.New(rvData.Type())
-- 
2.43.0


From 9d527de8c5255ae8ad32d7276b643b7ed6c6e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 05/85] fix: decode COPY of items that use COPY for keys or
 class names

The specification allows exactly that exception to the rule against nested
COPY tags, and the Perl encoder makes use of it.
---
 Go/sereal/decode.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index a6e570f..e9a74aa 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -597,6 +597,10 @@ func (d *Decoder) decodeBinary(by []byte, idx int, ln int, makeCopy bool) ([]byt
 
 // decodeStringish() return slice of by, i.e. not a copy
 func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
+	return d.decodeStringishOrCopy(by, idx, true)
+}
+
+func (d *Decoder) decodeStringishOrCopy(by []byte, idx int, allowCopy bool) ([]byte, int, error) {
 	if idx < 0 || idx >= len(by) {
 		return nil, 0, ErrTruncated
 	}
@@ -646,7 +650,9 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		idx += ln
 
 	case tag == typeCOPY:
-		if d.copyDepth > 0 {
+		// A COPY must not refer to another COPY. But a value which
+		// is itself being copied may use COPY for its keys and class names.
+		if !allowCopy {
 			return nil, 0, ErrCorrupt{errNestedCOPY}
 		}
 
@@ -659,9 +665,7 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		}
 		idx += sz
 
-		d.copyDepth++
-		res, _, err = d.decodeStringish(by, offs)
-		d.copyDepth--
+		res, _, err = d.decodeStringishOrCopy(by, offs, false)
 		if err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From 9cdec49ef17776082603ddbb4d0006428ab4cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 06/85] fix: reset the COPY depth of a reused decoder

When decoding a copied item panicked (say, on a mismatch with the type of
the target), the decoder refused COPY tags in all later documents.
---
 Go/sereal/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index e9a74aa..ab2922c 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -189,6 +189,8 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
+	d.copyDepth = 0 // a panic may have left it behind
+
 	header, err := checkHeader(b)
 	if err != nil {
 		return err
-- 
2.43.0


From 2aa2ea503d8a9cbd8d78e5c4fcd10f38c2f69451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 07/85] fix: decode frozen objects in PerlCompat mode

The array holding the frozen data was decoded as a pointer in this mode
and then rejected, so no OBJECT_FREEZE document could be decoded.
---
 Go/sereal/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index ab2922c..3f1859d 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1156,8 +1156,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		return 0, ErrCorrupt{errFreezeNotRefnArray}
 	}
 
+	// decode the array itself: in PerlCompat mode REFN would yield a pointer to it
 	var iface interface{}
-	if idx, err = d.decode(by, idx, &iface); err != nil {
+	if idx, err = d.decode(by, idx+1, &iface); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 5affaf64aa3f685128305d4f8adf3577c7fbad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 08/85] fix: do not let decoded regexps share memory with the
 input

PerlRegexp values were slices of the caller's buffer and changed when the
caller reused it.
---
 Go/sereal/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 3f1859d..5a60abd 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -692,8 +692,11 @@ func (d *Decoder) decodeRegexp(by []byte, idx int) (*PerlRegexp, int, error) {
 		return nil, 0, err
 	}
 
-	// TODO perhaps, copy values
-	return &PerlRegexp{pattern, modifiers}, idx, nil
+	// decodeStringish() returns slices of by, don't keep them
+	return &PerlRegexp{
+		Pattern:   append([]byte{}, pattern...),
+		Modifiers: append([]byte{}, modifiers...),
+	}, idx, nil
 }
 
 /********************************************************************
-- 
2.43.0


From 165ce650a9a73439c24b8476edd7371ca1c227ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 09/85] fix: DecompressDocument with an empty decompressed body

hasSameBuffer indexed into a slice without capacity and panicked.
---
 Go/sereal/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 5a60abd..34ab859 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1393,6 +1393,10 @@ func DecompressDocument(dst, b []byte) (r []byte, err error) {
 // hasSameBuffer returns true if the two slices share the same array (it only works for slices with capacity > 0)
 func hasSameBuffer(a, b []byte) bool {
 	aCap, bCap := cap(a), cap(b)
+	if aCap == 0 || bCap == 0 {
+		return false
+	}
+
 	aExt, bExt := a[:aCap], b[:bCap]
 
 	return &aExt[aCap-1] == &bExt[bCap-1]
-- 
2.43.0


From c3af85a42d594f035ff75602f79c60f9b4a79603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 10/85] fix: check the claimed uncompressed length of zlib
 documents

It was used unchecked as the size of an allocation: a corrupt document of
a few bytes could panic (makeslice: cap out of range) or exhaust memory.
---
 Go/sereal/zlib.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/zlib.go b/Go/sereal/zlib.go
index 989dc27..7ada72c 100644
--- a/Go/sereal/zlib.go
+++ b/Go/sereal/zlib.go
@@ -63,6 +63,12 @@ func (c ZlibCompressor) decompress(d, buf []byte) ([]byte, error) {
 
 	buf = buf[csz : csz+cln]
 
+	// A corrupt document may claim any length. Deflate can't compress by
+	// more than a factor of 1032.
+	if uln < 0 || uln/1032 > len(buf) {
+		return nil, ErrCorrupt{errBadOffset}
+	}
+
 	// XXX Perhaps check if len(buf) == cln
 
 	return zlibDecode(uln, buf)
-- 
2.43.0


From a2b753fb5f8731910d4dc751ba7308343d7726e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 11/85] fix: check the claimed uncompressed length of snappy
 documents

snappy.Decode allocates the claimed length, up to 4 GB, before looking at
the data: a corrupt document of a few bytes could exhaust memory.
---
 Go/sereal/snappy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Go/sereal/snappy.go b/Go/sereal/snappy.go
index 8562ad1..e48cb30 100644
--- a/Go/sereal/snappy.go
+++ b/Go/sereal/snappy.go
@@ -48,6 +48,14 @@ func (c SnappyCompressor) decompress(d, b []byte) ([]byte, error) {
 		b = b[sz : sz+ln]
 	}
 
+	// A corrupt document may claim any length, and snappy.Decode allocates it
+	// beforehand. The format can't compress by more than a factor of 64/3.
+	if ln, err := snappy.DecodedLen(b); err != nil {
+		return nil, err
+	} else if ln/22 > len(b) {
+		return nil, ErrCorrupt{errBadOffset}
+	}
+
 	decompressed, err := snappy.Decode(d, b)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 05aa76f74cf32f5f5f44dbba3182b72e3e2f7073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 12/85] fix: limit the nesting depth of decoded documents

A document of a few megabytes of nested references or arrays overflowed
the goroutine stack, which terminates the whole program. Deeper nesting
than 100000 levels is now reported as ErrMaxRecursionLimit.
---
 Go/sereal/decode.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 34ab859..6e5b801 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -83,6 +83,7 @@ type Decoder struct {
 	umcache   map[string]reflect.Type
 	tcache    tagsCache
 	copyDepth int
+	depth     int // nesting depth of the item being decoded
 
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
@@ -90,6 +91,10 @@ type Decoder struct {
 	DisableReferentialIntegrity bool
 }
 
+// maxDecodeDepth limits the nesting depth of documents: Go can't recover from
+// a stack overflow, so a small malicious document could terminate the program
+const maxDecodeDepth = 100000
+
 type decompressor interface {
 	decompress(d, b []byte) ([]byte, error)
 }
@@ -190,6 +195,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 	}()
 
 	d.copyDepth = 0 // a panic may have left it behind
+	d.depth = 0
 
 	header, err := checkHeader(b)
 	if err != nil {
@@ -278,6 +284,12 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		return 0, ErrTruncated
 	}
 
+	// errors abort the decoding, so depth is decremented only on success
+	d.depth++
+	if d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	tag := by[idx]
 
 	// skip over any padding bytes
@@ -470,6 +482,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 	}
 
 	//fmt.Printf("stop decode: tag %d (0x%x)\n", int(tag), int(tag))
+	d.depth--
 	return idx, err
 }
 
@@ -720,6 +733,11 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		return idx, err
 	}
 
+	d.depth++
+	if d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	tag := by[idx]
 	for tag == typePAD || tag == typePAD|trackFlag {
 		idx++
@@ -898,6 +916,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		return 0, fmt.Errorf("unknown tag byte: %d (0x%x)", int(tag), int(tag))
 	}
 
+	d.depth--
 	return idx, err
 }
 
-- 
2.43.0


From 40aa5478a0b98546ed86a49c7930c5de1a6bb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 13/85] fix: bound memory allocated for nested containers by
 the document size

Each array or hash header was checked on its own against the rest of the
document, so nested headers claiming the same bytes over and over made
the decoder allocate memory quadratic in the size of a corrupt document.
---
 Go/sereal/decode.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 6e5b801..184a14e 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -84,6 +84,7 @@ type Decoder struct {
 	tcache    tagsCache
 	copyDepth int
 	depth     int // nesting depth of the item being decoded
+	pending   int // number of items that enclosing containers still have to contain
 
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
@@ -196,6 +197,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 
 	d.copyDepth = 0 // a panic may have left it behind
 	d.depth = 0
+	d.pending = 0
 
 	header, err := checkHeader(b)
 	if err != nil {
@@ -428,9 +430,12 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0
 		d.copyDepth++
 		_, err = d.decode(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		if d.PerlCompat {
@@ -526,9 +531,10 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 		return 0, ErrCorrupt{errBadHashSize}
 	}
 
-	if idx+2*ln > len(by) {
+	if idx+2*ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
+	d.pending += 2 * ln
 
 	hash := make(map[string]interface{}, ln)
 
@@ -540,6 +546,7 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 
 	var err error
 	for i := 0; i < ln; i++ {
+		d.pending -= 2
 		var key []byte
 		key, idx, err = d.decodeStringish(by, idx)
 		if err != nil {
@@ -563,9 +570,10 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
+	if idx+ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
+	d.pending += ln
 
 	var slice []interface{}
 
@@ -584,6 +592,7 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 
 	var err error
 	for i := 0; i < ln; i++ {
+		d.pending--
 		idx, err = d.decode(by, idx, &slice[i])
 		if err != nil {
 			return 0, err
@@ -875,9 +884,12 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0
 		d.copyDepth++
 		_, err = d.decodeViaReflection(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		idx, err = d.decodeViaReflection(by, idx, ptr)
@@ -925,9 +937,10 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
+	if idx+ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
+	d.pending += ln
 
 	switch ptr.Kind() {
 	case reflect.Slice:
@@ -946,6 +959,7 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 	ptrLen := ptr.Len()
 
 	for i := 0; i < ln; i++ {
+		d.pending--
 		if i < ptrLen {
 			idx, err = d.decodeViaReflection(by, idx, ptr.Index(i))
 		} else {
@@ -967,7 +981,7 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 		return 0, ErrCorrupt{errBadHashSize}
 	}
 
-	if idx+2*ln > len(by) {
+	if idx+2*ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
 
@@ -978,7 +992,9 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 		}
 
 		var err error
+		d.pending += 2 * ln
 		for i := 0; i < ln; i++ {
+			d.pending -= 2
 			var key []byte
 			key, idx, err = d.decodeStringish(by, idx)
 			if err != nil {
@@ -1015,7 +1031,9 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 	case reflect.Struct:
 		tags := d.tcache.Get(ptr)
 		var err error
+		d.pending += 2 * ln
 		for i := 0; i < ln; i++ {
+			d.pending -= 2
 			var key []byte
 			key, idx, err = d.decodeStringish(by, idx)
 			if err != nil {
-- 
2.43.0


From 353d90bf0d7ad061b7376022326af4ff405005b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 14/85] fix: decompress zstd frames which claim to be empty

The zstd binding panics with an index out of range when it is given
neither a buffer nor a content size above zero.
---
 Go/sereal/zstd_cgo.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/zstd_cgo.go b/Go/sereal/zstd_cgo.go
index bc6a245..f92bb16 100644
--- a/Go/sereal/zstd_cgo.go
+++ b/Go/sereal/zstd_cgo.go
@@ -12,6 +12,12 @@ func zstdEncode(buf []byte, level int) ([]byte, error) {
 }
 
 func zstdDecode(d, buf []byte) ([]byte, error) {
+	if cap(d) == 0 {
+		// zstd.Decompress indexes into the buffer, even
+		// if the frame claims to be empty
+		d = make([]byte, 0, 1)
+	}
+
 	dst, err := zstd.Decompress(d, buf)
 	return dst, err
 }
-- 
2.43.0


From b8831a0cc47b21523fb1df6b4028c870434b56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 15/85] fix: make Marshal safe for concurrent use

The package-level function shares the tag cache of the default encoder,
an unprotected map: concurrent calls on structs crashed the program with
"concurrent map writes".
---
 Go/sereal/tagscache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/tagscache.go b/Go/sereal/tagscache.go
index 907b39f..1757bd2 100644
--- a/Go/sereal/tagscache.go
+++ b/Go/sereal/tagscache.go
@@ -1,8 +1,13 @@
 package sereal
 
-import "reflect"
+import (
+	"reflect"
+	"sync"
+)
 
+// tagsCache is used concurrently through the default encoder
 type tagsCache struct {
+	mu   sync.Mutex
 	cmap map[reflect.Type]map[string]int
 }
 
@@ -11,6 +16,9 @@ func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 		return nil
 	}
 
+	tc.mu.Lock()
+	defer tc.mu.Unlock()
+
 	if tc.cmap == nil {
 		tc.cmap = make(map[reflect.Type]map[string]int)
 	}
-- 
2.43.0


From 7acc70973e4fe3768cd94465d39e628664635463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 16/85] fix: encode values of named integer types

Named unsigned types failed with a reflect error, and negative values of
named int8 to int64 types (time.Duration, say) were encoded as huge
positive numbers.
---
 Go/sereal/encode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 57b4a39..7b67174 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -498,9 +498,11 @@ func (e *Encoder) encodeViaReflection(b []byte, rv reflect.Value, isKeyOrClass b
 			b = append(b, typeFALSE)
 		}
 
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		b = e.encodeInt(b, rk, rv.Int())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		b = e.encodeInt(b, reflect.Int, rv.Int())
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		b = e.encodeInt(b, reflect.Uint, int64(rv.Uint()))
 
 	case reflect.Float32:
 		b = e.encodeFloat(b, float32(rv.Float()))
-- 
2.43.0


From 872be8ebff24daac1a993bba18b064c9068db410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 17/85] fix: document type of incremental snappy in v1
 documents

They were marked as non-incremental snappy and could not be decoded.
---
 Go/sereal/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 7b67174..2fdc812 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -168,7 +168,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 			if e.version > 1 && !c.Incremental {
 				return nil, errors.New("non-incremental snappy compression only valid for v1 documents")
 			}
-			if e.version == 1 {
+			if !c.Incremental {
 				doctype = serealSnappy
 			} else {
 				doctype = serealSnappyIncremental
-- 
2.43.0


From b9fa0cf202f5cef0967c20ff5f10ecaa1fde5445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 18/85] fix: encode map keys as strings or not at all

Keys of other kinds produced documents that can't be decoded or, in
PerlCompat mode, keys like "<int Value>". Now they are an error; keys of
string types with methods of their own are plain strings like the rest.
---
 Go/sereal/encode.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 2fdc812..e5488e0 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -558,24 +558,20 @@ func (e *Encoder) encodeMap(by []byte, m reflect.Value, isRefNext bool, state *m
 	by = append(by, typeHASH)
 	by = varint(by, uint(len(keys)))
 
-	if e.PerlCompat {
-		var err error
-		for _, k := range keys {
-			by = e.encodeString(by, k.String(), true, state.strTable)
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+	var err error
+	for _, k := range keys {
+		value := m.MapIndex(k)
+
+		if k.Kind() == reflect.Interface {
+			k = k.Elem()
+		}
+		if k.Kind() != reflect.String {
+			return nil, fmt.Errorf("no support for map keys of type '%s'", m.Type().Key())
 		}
-	} else {
-		var err error
-		for _, k := range keys {
-			if by, err = e.encode(by, k, true, false, state, remainingDepth); err != nil {
-				return by, err
-			}
 
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+		by = e.encodeString(by, k.String(), true, state.strTable)
+		if by, err = e.encode(by, value, false, false, state, remainingDepth); err != nil {
+			return by, err
 		}
 	}
 
-- 
2.43.0


From 3f4572ca6d7919c0cfca9ab4a47098f67e319572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 19/85] fix: identity of pointers in encoded documents

Pointers were identified by address alone, also via the data of the
strings and slices they point to, and so pointers to a struct and to its
first field, or to a slice and a part of it, were encoded as references
to the same item; pointers to interfaces holding strings failed. Repeated
pointers referred to the reference tag instead of the item it refers to,
which is one level of references too many outside of the default decoding
mode, and slices and maps were not known while encoding themselves.
---
 Go/sereal/decode.go |  3 +-
 Go/sereal/encode.go | 68 ++++++++++++++++++++++++++-------------------
 2 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 184a14e..b628480 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -611,7 +611,8 @@ func (d *Decoder) decodeBinary(by []byte, idx int, ln int, makeCopy bool) ([]byt
 	}
 
 	if makeCopy {
-		res := make([]byte, ln)
+		// let an empty slice have an address of its own, too
+		res := make([]byte, ln, ln+1)
 		copy(res, by[idx:idx+ln])
 		return res, idx + ln, nil
 	}
diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index e5488e0..0c32346 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -28,7 +28,15 @@ type Encoder struct {
 
 type marshalState struct {
 	strTable map[string]int
-	ptrTable map[uintptr]int
+	ptrTable map[ptrKey]int
+}
+
+// ptrKey identifies what a pointer refers to. Its address is not enough: a struct
+// shares it with its first field and a slice with its sub-slices.
+type ptrKey struct {
+	ptr uintptr
+	len int
+	typ reflect.Type
 }
 
 type compressor interface {
@@ -110,7 +118,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	if header != nil && e.version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
-			ptrTable: make(map[uintptr]int),
+			ptrTable: make(map[ptrKey]int),
 		}
 
 		// this is both the flag byte (== "there is user data") and also a hack to make 1-based offsets work
@@ -131,7 +139,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	remainingDepth := remainingRecursion(e.MaxRecursionDepth)
 	state := marshalState{
 		strTable: make(map[string]int),
-		ptrTable: make(map[uintptr]int),
+		ptrTable: make(map[ptrKey]int),
 	}
 
 	encBody := make([]byte, 0, e.ExpectedSize)
@@ -630,16 +638,13 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		}
 	}
 
-	rvptr := rv.Pointer()
-	rvptr2 := getPointer(rv.Elem())
+	key := ptrKey{ptr: rv.Pointer(), typ: rv.Type().Elem()}
+	key2 := getPointer(rv.Elem())
 
-	offs, ok := state.ptrTable[rvptr]
+	offs, ok := state.ptrTable[key]
 
-	if !ok && rvptr2 != 0 {
-		offs, ok = state.ptrTable[rvptr2]
-		if ok {
-			rvptr = rvptr2
-		}
+	if !ok && key2.ptr != 0 {
+		offs, ok = state.ptrTable[key2]
 	}
 
 	if ok { // seen this before
@@ -647,12 +652,16 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		by = varint(by, uint(offs))
 		by[offs] |= trackFlag // original offset now tracked
 	} else {
-		lenbOrig := len(by)
-
 		by = append(by, typeREFN)
 
-		if rvptr != 0 {
-			state.ptrTable[rvptr] = lenbOrig
+		// The thing this points to starts one after the current pointer.
+		// Remember it beforehand, because it may refer to itself.
+		if key.ptr != 0 {
+			state.ptrTable[key] = len(by)
+		}
+
+		if key2.ptr != 0 {
+			state.ptrTable[key2] = len(by)
 		}
 
 		var err error
@@ -660,11 +669,6 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		if err != nil {
 			return nil, err
 		}
-
-		if rvptr2 != 0 {
-			// The thing this this points to starts one after the current pointer
-			state.ptrTable[rvptr2] = lenbOrig + 1
-		}
 	}
 
 	return by, nil
@@ -680,23 +684,29 @@ func varint(by []byte, n uint) []uint8 {
 	return append(by, byte(n))
 }
 
-func getPointer(rv reflect.Value) uintptr {
-	var rvptr uintptr
-
+// getPointer identifies a value by the memory it refers to, if any
+func getPointer(rv reflect.Value) ptrKey {
 	switch rv.Kind() {
-	case reflect.Map, reflect.Slice:
-		rvptr = rv.Pointer()
+	case reflect.Map:
+		return ptrKey{ptr: rv.Pointer(), typ: rv.Type()}
+	case reflect.Slice:
+		// all slices without capacity may have the same address
+		if rv.Cap() > 0 {
+			return ptrKey{ptr: rv.Pointer(), len: rv.Len(), typ: rv.Type()}
+		}
 	case reflect.Interface:
 		// FIXME: still needed?
 		return getPointer(rv.Elem())
 	case reflect.Ptr:
-		rvptr = rv.Pointer()
+		// len tells it from the pointer's own key
+		return ptrKey{ptr: rv.Pointer(), len: -1, typ: rv.Type()}
 	case reflect.String:
-		ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
-		rvptr = ps.Data
+		s := rv.String()
+		ps := (*reflect.StringHeader)(unsafe.Pointer(&s))
+		return ptrKey{ptr: ps.Data, len: len(s), typ: rv.Type()}
 	}
 
-	return rvptr
+	return ptrKey{}
 }
 
 func concreteName(value reflect.Value) string {
-- 
2.43.0


From 7605dbb71aacf2f6e03dbe40cc2533895a2d5018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 20/85] fix: validate the headers of merged documents

Append panicked if the header suffix was longer than the document, took
documents of unknown versions, and merged the compressed bytes of
documents of unknown types as if they were Sereal tags.
---
 Go/sereal/merge.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index eca2046..18a1f0f 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -157,19 +157,27 @@ func (m *Merger) Append(b []byte) (int, error) {
 		return 0, errors.New("finished document")
 	}
 
-	docHeader, err := readHeader(b)
+	docHeader, err := checkHeader(b)
 	if err != nil {
 		return 0, err
 	}
 
+	bodyStart := headerSize + docHeader.suffixSize
+	if bodyStart > len(b) || bodyStart < 0 {
+		return 0, ErrCorrupt{errBadOffset}
+	}
+
 	doc := mergerDoc{
-		buf:        b[headerSize+docHeader.suffixSize:],
+		buf:        b[bodyStart:],
 		version:    int(docHeader.version),
 		startIdx:   0,
 		bodyOffset: -1, // 1-based offsets
 	}
 
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
+	if err != nil {
+		return 0, err
+	}
 
 	if decomp != nil {
 		if doc.buf, err = decomp.decompress(nil, doc.buf); err != nil {
-- 
2.43.0


From 2e61476989d92cc0a7cb95b1bbe1666392fb1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 21/85] fix: resolve offsets in merged documents

Offsets in v1 documents are relative to the start of the document rather
than its body, and an offset may refer to the byte just before the tag.
---
 Go/sereal/merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 18a1f0f..c89b9fc 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -174,6 +174,11 @@ func (m *Merger) Append(b []byte) (int, error) {
 		bodyOffset: -1, // 1-based offsets
 	}
 
+	if docHeader.version == 1 {
+		// offsets are relative to the start of the document
+		doc.bodyOffset = -bodyStart
+	}
+
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
 	if err != nil {
 		return 0, err
@@ -326,7 +331,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx {
+			if offset < 0 || offset >= idx-doc.bodyOffset {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
-- 
2.43.0


From b67c232cfc97864e6625ebe764d561008a3b988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 22/85] fix: report truncated documents in Append instead of
 panicking

Documents ending within a number, a short string, or right after an
object tag, and one-byte documents in KeepFlat mode, caused panics with
an index or slice bounds out of range.
---
 Go/sereal/merge.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index c89b9fc..8cb03e3 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -356,6 +356,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 		}
 	}
 
+	if idx > len(buf) {
+		return ErrTruncated
+	}
+
 	for idx := range doc.trackTable {
 		doc.trackIdxs = append(doc.trackIdxs, idx)
 	}
@@ -607,7 +611,7 @@ LOOP:
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat {
+	if m.KeepFlat && len(b) > 1 {
 		tag0 := b[0] &^ trackFlag
 		tag1 := b[1] &^ trackFlag
 
@@ -636,6 +640,10 @@ func isShallowStringish(tag byte) bool {
 }
 
 func readString(buf []byte) (int, []byte, error) {
+	if len(buf) == 0 {
+		return 0, nil, ErrTruncated
+	}
+
 	tag := buf[0]
 	tag &^= trackFlag
 
-- 
2.43.0


From 52534f5c70de53dae4293ab5f689c8d4554537a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 23/85] fix: refuse to merge documents with missing elements

Truncated documents, and ones whose arrays or hashes claim more elements
than there are, were appended as they were. Everything appended after
them then became part of their unfinished containers.
---
 Go/sereal/merge.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 8cb03e3..490933b 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -377,7 +377,7 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	if err != nil {
 		return err
 	}
-	if expElements < 0 || expElements > math.MaxUint32 {
+	if expElements < 0 || expElements > len(dbuf) {
 		return fmt.Errorf("bad amount of expected elements: %d", expElements)
 	}
 
@@ -521,7 +521,7 @@ LOOP:
 				return err
 
 			}
-			if ln < 0 {
+			if ln < 0 || ln > len(dbuf)-didx {
 				return errors.New("bad array or hash length")
 			}
 
@@ -605,6 +605,13 @@ LOOP:
 		}
 	}
 
+	// all expected elements must have been there
+	for _, remaining := range stack {
+		if remaining&^hashKeysValuesFlag != 0 {
+			return ErrTruncated
+		}
+	}
+
 	m.length += expElements
 	m.buf = mbuf
 	return nil
-- 
2.43.0


From 1cc9c508d97af6c1c40f56ad23df23548be8af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 24/85] fix: set the track flag of the referenced item in
 merged documents

The offset is relative to the body, but the flag was set at that offset
of the whole buffer: a byte of some other item was modified.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 490933b..fc86c17 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -510,7 +510,7 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset] |= trackFlag
+				mbuf[m.bodyOffset+targetOffset] |= trackFlag
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
-- 
2.43.0


From e157b1437936d437976757b7744424e23c0f4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 25/85] fix: merge documents with OBJECTV tags and tracked
 objects

The offset of an OBJECT tag was recorded as the one of its class name, so
references to the object referred to the name, while references to the
name (OBJECTV) were never resolved. Neither were the offsets after one
that isn't a tag of the merged document, like that of a tracked top level
array in KeepFlat mode.
---
 Go/sereal/merge.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index fc86c17..da0bb66 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -398,6 +398,10 @@ LOOP:
 
 		docRelativeIdx := didx - doc.bodyOffset
 		mrgRelativeIdx := len(mbuf) - m.bodyOffset
+		for len(doc.trackIdxs) > 0 && doc.trackIdxs[0] < docRelativeIdx {
+			// nothing at this offset is kept
+			doc.trackIdxs = doc.trackIdxs[1:]
+		}
 		trackme := len(doc.trackIdxs) > 0 && doc.trackIdxs[0] == docRelativeIdx
 
 		level := len(stack) - 1
@@ -569,21 +573,26 @@ LOOP:
 			}
 
 			length := offset + len(str) + 1 // respect typeOBJECT tag
-			if savedOffset, ok := m.objTable[string(str)]; ok {
+			savedOffset, ok := m.objTable[string(str)]
+			if ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
 				} else {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(savedOffset))
 				}
 
-				mrgRelativeIdx = savedOffset
 			} else {
 				// +1 because we should refer to string tag, not object tag
-				mrgRelativeIdx++
-				m.objTable[string(str)] = mrgRelativeIdx
+				savedOffset = mrgRelativeIdx + 1
+				m.objTable[string(str)] = savedOffset
 				mbuf = append(mbuf, dbuf[didx:didx+length]...)
 			}
 
+			if _, ok := doc.trackTable[docRelativeIdx+1]; ok {
+				// an OBJECTV refers to this class name
+				doc.trackTable[docRelativeIdx+1] = savedOffset
+			}
+
 			// parse <ITEM-TAG>
 			stack = append(stack, 1)
 			didx += length
-- 
2.43.0


From 013e207ef61ca020ef538a8c365ccaecd88d8a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 26/85] fix: merge documents that use COPY for class names or
 regexps

Both are valid, and the Go encoder itself writes COPY for the second and
later objects of a class, but Append refused them.
---
 Go/sereal/merge.go | 64 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index da0bb66..47ce3ac 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -550,29 +550,36 @@ LOOP:
 			}
 
 		case tag == typeREGEXP:
-			offset, str, err := readString(dbuf[didx+1:])
-			if err != nil {
-				return err
-			}
+			mbuf = append(mbuf, dbuf[didx])
+			didx++
 
-			sizeToCopy := offset + len(str) + 1
-			offset, str, err = readString(dbuf[didx+sizeToCopy:])
-			if err != nil {
-				return err
-			}
+			// pattern and modifiers
+			for i := 0; i < 2; i++ {
+				offset, _, copyOffset, err := readStringOrCopy(doc, didx)
+				if err != nil {
+					return err
+				}
 
-			sizeToCopy += offset + len(str)
-			mbuf = append(mbuf, dbuf[didx:didx+sizeToCopy]...)
-			didx += sizeToCopy
+				if _, ok := doc.trackTable[didx-doc.bodyOffset]; ok {
+					doc.trackTable[didx-doc.bodyOffset] = len(mbuf) - m.bodyOffset
+				}
+
+				if copyOffset >= 0 {
+					mbuf = appendTagVarint(mbuf, typeCOPY, uint(copyOffset))
+				} else {
+					mbuf = append(mbuf, dbuf[didx:didx+offset]...)
+				}
+				didx += offset
+			}
 
 		case tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			// skip main tag for a second, and parse <STR-TAG>
-			offset, str, err := readString(dbuf[didx+1:])
+			offset, str, copyOffset, err := readStringOrCopy(doc, didx+1)
 			if err != nil {
 				return err
 			}
 
-			length := offset + len(str) + 1 // respect typeOBJECT tag
+			length := offset + 1 // respect typeOBJECT tag
 			savedOffset, ok := m.objTable[string(str)]
 			if ok {
 				if tag == typeOBJECT {
@@ -580,7 +587,11 @@ LOOP:
 				} else {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(savedOffset))
 				}
-
+			} else if copyOffset >= 0 {
+				savedOffset = copyOffset
+				m.objTable[string(str)] = savedOffset
+				mbuf = append(mbuf, dbuf[didx])
+				mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 			} else {
 				// +1 because we should refer to string tag, not object tag
 				savedOffset = mrgRelativeIdx + 1
@@ -655,6 +666,29 @@ func isShallowStringish(tag byte) bool {
 	return tag == typeBINARY || tag == typeSTR_UTF8 || (tag >= typeSHORT_BINARY_0 && tag < typeSHORT_BINARY_0+32)
 }
 
+// readStringOrCopy reads the string at idx of a document, or the one that a COPY
+// tag at idx refers to. It returns the number of bytes read, the string, and for
+// COPY tags the string's offset in the merged document (otherwise -1).
+func readStringOrCopy(doc *mergerDoc, idx int) (int, []byte, int, error) {
+	if idx >= len(doc.buf) || doc.buf[idx]&^trackFlag != typeCOPY {
+		offset, str, err := readString(doc.buf[idx:])
+		return offset + len(str), str, -1, err
+	}
+
+	target, sz, err := varintdecode(doc.buf[idx+1:])
+	if err != nil {
+		return 0, nil, 0, err
+	}
+
+	copyOffset, ok := doc.trackTable[target]
+	if !ok || copyOffset < 0 || target+doc.bodyOffset < 0 {
+		return 0, nil, 0, errors.New("bad target offset at COPY tag")
+	}
+
+	_, str, err := readString(doc.buf[target+doc.bodyOffset:])
+	return sz + 1, str, copyOffset, err
+}
+
 func readString(buf []byte) (int, []byte, error) {
 	if len(buf) == 0 {
 		return 0, nil, ErrTruncated
-- 
2.43.0


From 6ec7d5d2f21b58e002aaa87f8414168fc148587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 27/85] fix: forget the strings of documents that failed to
 merge

After a failed Append later documents could refer to strings and class
names of the failed one, which aren't in the merged document.
---
 Go/sereal/merge.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 47ce3ac..14ef2e6 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -208,12 +208,23 @@ func (m *Merger) Append(b []byte) (int, error) {
 	// second pass: do the work
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
+		forgetOffsets(m.strTable, lastElementOffset-m.bodyOffset)
+		forgetOffsets(m.objTable, lastElementOffset-m.bodyOffset)
 		return 0, err
 	}
 
 	return m.length - oldLength, nil
 }
 
+// forgetOffsets removes the strings at or after an offset
+func forgetOffsets(table map[string]int, offset int) {
+	for str, offs := range table {
+		if offs >= offset {
+			delete(table, str)
+		}
+	}
+}
+
 // Finish is called to terminate the merging process
 func (m *Merger) Finish() ([]byte, error) {
 	if err := m.initMerger(); err != nil {
-- 
2.43.0


From b1f78df9233e11401c35eeb094f11ac50e0ad5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 28/85] fix: finishing merged documents with compression

If the compressed body was longer than the uncompressed one, Finish
panicked or cut it off. If the compressor was refused, calling Finish
once more returned a corrupt document without an error.
---
 Go/sereal/merge.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 14ef2e6..ea339d4 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -232,18 +232,10 @@ func (m *Merger) Finish() ([]byte, error) {
 	}
 
 	if !m.finished {
-		m.finished = true
 		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))
 
 		if m.Compression != nil && (m.CompressionThreshold == 0 || len(m.buf) >= m.CompressionThreshold) {
-			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
-			if err != nil {
-				return m.buf, err
-			}
-
-			// TODO think about some optimizations here
-			copy(m.buf[m.bodyOffset+1:], compressed)
-			m.buf = m.buf[:len(compressed)+m.bodyOffset+1]
+			var doctype documentType
 
 			// verify compressor, there was little point in veryfing compressor in initMerger()
 			// because use can change it meanwhile
@@ -253,19 +245,30 @@ func (m *Merger) Finish() ([]byte, error) {
 					return nil, errors.New("non-incremental snappy compression is not supported")
 				}
 
-				m.buf[4] |= byte(serealSnappyIncremental) << 4
+				doctype = serealSnappyIncremental
 
 			case ZlibCompressor:
 				if m.version < 3 {
 					return nil, errors.New("zlib compression only valid for v3 documents and up")
 				}
 
-				m.buf[4] |= byte(serealZlib) << 4
+				doctype = serealZlib
 
 			default:
 				return nil, errors.New("unknown compressor")
 			}
+
+			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
+			if err != nil {
+				return m.buf, err
+			}
+
+			// TODO think about some optimizations here
+			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
+			m.buf[4] |= byte(doctype) << 4
 		}
+
+		m.finished = true
 	}
 
 	return m.buf, nil
-- 
2.43.0


From 7dae3d2acd7c9e03d7afd0bd5fc9974d3a482d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 29/85] fix: keep strings that are referred to in merged
 documents

Deduplication replaced them by COPY tags and redirected the references to
the first occurrence of the string, which may belong to another document
and is not tracked.
---
 Go/sereal/merge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index ea339d4..64e40b7 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -496,6 +496,11 @@ LOOP:
 				return fmt.Errorf("truncated document, expect %d bytes", len(dbuf)-didx-length)
 			}
 
+			if dbuf[didx]&trackFlag != 0 {
+				// there may be references to this very string
+				dedupString = false
+			}
+
 			if dedupString {
 				val := dbuf[didx+sz+1 : didx+length]
 				if savedOffset, ok := m.strTable[string(val)]; ok {
-- 
2.43.0


From a4e3b0e69652c7f9e7062f8639c6538e2eda1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 30/85] fix: don't deduplicate strings within copied items when
 merging

In DedupeStrings mode this put COPY tags into items which are themselves
referred to by COPY tags. The merged document could not be decoded.
---
 Go/sereal/merge.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 64e40b7..7464d02 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -64,6 +64,7 @@ type mergerDoc struct {
 	buf        []byte
 	trackIdxs  []int
 	trackTable map[int]int
+	copiesRefs bool // has COPY tags referring to other things than strings
 	version    int
 	startIdx   int // 0-based
 	bodyOffset int // 1-based
@@ -349,6 +350,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
+			if target := offset + doc.bodyOffset; tag == typeCOPY && target >= 0 && !isShallowStringish(buf[target]&^trackFlag) {
+				doc.copiesRefs = true
+			}
+
 			doc.trackTable[offset] = -1
 			idx += sz + 1
 
@@ -432,7 +437,9 @@ LOOP:
 		// The trick with stack[level] % 2 == 0 works because stack[level] for hashes is always even at
 		// the beggining (for each item in hash we expect key and value). In practise it means,
 		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
-		dedupString := m.DedupeStrings || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
+		// A COPY tag must not refer to something that contains COPY tags other than keys, so values have
+		// to remain if anything but strings is copied.
+		dedupString := (m.DedupeStrings && !doc.copiesRefs) || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
 
 		//fmt.Printf("0x%x (0x%x) at didx: %d (rlt: %d) len(dbuf): %d\n", tag, dbuf[didx], didx, didx-doc.bodyOffset, len(dbuf))
 		//fmt.Printf("level: %d, value: %d len: %d\n", level, stack[level], len(stack))
-- 
2.43.0


From 687e66132452e9b68636671e7fe152dd56308911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 31/85] fix: don't mix up binary and UTF-8 strings when merging

Strings of the same bytes were deduplicated even if only one of them is
STR_UTF8, which changed values from text to binary and vice versa, and
hash keys outside of ASCII to other ones.
---
 Go/sereal/merge.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 7464d02..562c3dc 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -23,7 +23,8 @@ const hashKeysValuesFlag = uint32(1 << 31)
 // Merger merges multiple sereal documents without reconstructing them
 type Merger struct {
 	buf        []byte
-	strTable   map[string]int
+	strTable   map[string]int // of strings without encoding
+	utfTable   map[string]int // of STR_UTF8 strings
 	objTable   map[string]int
 	version    int
 	length     int
@@ -103,6 +104,7 @@ func (m *Merger) initMerger() error {
 
 	// initialize internal fields
 	m.strTable = make(map[string]int)
+	m.utfTable = make(map[string]int)
 	m.objTable = make(map[string]int)
 
 	if m.ExpectedSize > 0 {
@@ -210,6 +212,7 @@ func (m *Merger) Append(b []byte) (int, error) {
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
 		forgetOffsets(m.strTable, lastElementOffset-m.bodyOffset)
+		forgetOffsets(m.utfTable, lastElementOffset-m.bodyOffset)
 		forgetOffsets(m.objTable, lastElementOffset-m.bodyOffset)
 		return 0, err
 	}
@@ -509,12 +512,17 @@ LOOP:
 			}
 
 			if dedupString {
+				strTable := m.strTable
+				if tag == typeSTR_UTF8 {
+					strTable = m.utfTable
+				}
+
 				val := dbuf[didx+sz+1 : didx+length]
-				if savedOffset, ok := m.strTable[string(val)]; ok {
+				if savedOffset, ok := strTable[string(val)]; ok {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 					mrgRelativeIdx = savedOffset
 				} else {
-					m.strTable[string(val)] = mrgRelativeIdx
+					strTable[string(val)] = mrgRelativeIdx
 					mbuf = append(mbuf, dbuf[didx:didx+length]...)
 				}
 			} else {
-- 
2.43.0


From 65b60fc91dbc80395b0da484d78bdf764e010f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 32/85] fix: don't mix up class names and hash keys when
 encoding

Class names are written as binary strings and hash keys as STR_UTF8, but
either could become a COPY of the other. Outside of ASCII these are
different strings: a hash key copied from a class name of the same bytes
is another key for other implementations.
---
 Go/sereal/encode.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 0c32346..fbc95cb 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -27,7 +27,8 @@ type Encoder struct {
 }
 
 type marshalState struct {
-	strTable map[string]int
+	strTable map[string]int // STR_UTF8
+	bytTable map[string]int // BINARY
 	ptrTable map[ptrKey]int
 }
 
@@ -118,6 +119,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	if header != nil && e.version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
+			bytTable: make(map[string]int),
 			ptrTable: make(map[ptrKey]int),
 		}
 
@@ -139,6 +141,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	remainingDepth := remainingRecursion(e.MaxRecursionDepth)
 	state := marshalState{
 		strTable: make(map[string]int),
+		bytTable: make(map[string]int),
 		ptrTable: make(map[ptrKey]int),
 	}
 
@@ -253,7 +256,7 @@ func (e *Encoder) encode(b []byte, v interface{}, isKeyOrClass bool, isRefNext b
 		b = e.encodeString(b, value, isKeyOrClass, state.strTable)
 
 	case []uint8:
-		b = e.encodeBytes(b, value, isKeyOrClass, state.strTable)
+		b = e.encodeBytes(b, value, isKeyOrClass, state.bytTable)
 
 	case []interface{}:
 		b, err = e.encodeIntfArray(b, value, isRefNext, state, remainingDepth)
@@ -278,13 +281,13 @@ func (e *Encoder) encode(b []byte, v interface{}, isKeyOrClass bool, isRefNext b
 
 	case PerlObject:
 		b = append(b, typeOBJECT)
-		b = e.encodeBytes(b, []byte(value.Class), true, state.strTable)
+		b = e.encodeBytes(b, []byte(value.Class), true, state.bytTable)
 		b, err = e.encode(b, value.Reference, false, false, state, remainingDepth)
 
 	case PerlRegexp:
 		b = append(b, typeREGEXP)
-		b = e.encodeBytes(b, value.Pattern, false, state.strTable)
-		b = e.encodeBytes(b, value.Modifiers, false, state.strTable)
+		b = e.encodeBytes(b, value.Pattern, false, state.bytTable)
+		b = e.encodeBytes(b, value.Modifiers, false, state.bytTable)
 
 	case PerlWeakRef:
 		b = append(b, typeWEAKEN)
@@ -595,7 +598,7 @@ func (e *Encoder) encodeStruct(by []byte, st reflect.Value, state *marshalState,
 	tags := e.tcache.Get(st)
 
 	by = append(by, typeOBJECT)
-	by = e.encodeBytes(by, []byte(st.Type().Name()), true, state.strTable)
+	by = e.encodeBytes(by, []byte(st.Type().Name()), true, state.bytTable)
 
 	if e.PerlCompat {
 		// must be a reference
-- 
2.43.0


From 65b6e3398bc5da3bd1fb2b40273afbe1d18838f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 33/85] fix: empty class names and patterns in merged documents

readString took the tag of an empty short string for one that is followed
by a length, so valid documents were refused or misread.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 562c3dc..1eeadd9 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -736,7 +736,7 @@ func readString(buf []byte) (int, []byte, error) {
 	}
 
 	var ln, offset int
-	if tag > typeSHORT_BINARY_0 {
+	if tag >= typeSHORT_BINARY_0 {
 		ln = int(tag & 0x1F) // get length from tag
 	} else {
 		var err error
-- 
2.43.0


From 2169adc12a80db5442cae76f343af2db8e69f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 34/85] fix: references to themselves in merged documents

A document with a REFP tag that refers to itself, as the encoder writes for
a pointer to itself, was refused.
---
 Go/sereal/merge.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 1eeadd9..79d3ec4 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -349,7 +349,8 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx-doc.bodyOffset {
+			// REFP may be a reference to itself
+			if docIdx := idx - doc.bodyOffset; offset < 0 || offset > docIdx || (offset == docIdx && tag != typeREFP) {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
@@ -539,6 +540,9 @@ LOOP:
 				return err
 			}
 			targetOffset, ok := doc.trackTable[offset]
+			if offset == docRelativeIdx {
+				targetOffset = mrgRelativeIdx
+			}
 
 			if !ok || targetOffset < 0 {
 				return errors.New("bad target offset at COPY, ALIAS or REFP tag")
-- 
2.43.0


From 1164246e75175aa1156d52a5cd9c2d9e5a92dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 35/85] fix: memory used by deeply nested references

Nested references were decoded to pointer types of as many levels. Such types
are never freed, and as their names contain an asterisk per level, a document
of 100 KB took gigabytes.
---
 Go/sereal/decode.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index b628480..f379717 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -96,6 +96,9 @@ type Decoder struct {
 // a stack overflow, so a small malicious document could terminate the program
 const maxDecodeDepth = 100000
 
+// maxTypedPointers limits the levels of pointers in types that are made for references
+const maxTypedPointers = 16
+
 type decompressor interface {
 	decompress(d, b []byte) ([]byte, error)
 }
@@ -442,7 +445,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 			var iface interface{}
 			*ptr = &iface
 
-			if idx, err = d.decode(by, idx, &iface); !trackme && err == nil {
+			if idx, err = d.decode(by, idx, &iface); !trackme && err == nil && !isDeepPointer(reflect.TypeOf(iface)) {
 				// if REFN is not tracked, build a pointer to concrete type
 				// otherwise let ptr be pointer to something (i.e. *interface{})
 				riface := reflect.ValueOf(iface)
@@ -1112,6 +1115,8 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 				}
 			} else if d.DisableReferentialIntegrity {
 				res = rvData
+			} else if isDeepPointer(rvData.Type()) {
+				res = rv
 			} else {
 				res = reflect.New(rvData.Type())
 				res.Elem().Set(rvData)
@@ -1129,6 +1134,20 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 	return res, idx, nil
 }
 
+// isDeepPointer tells whether there are so many levels of pointers that no type
+// for a further one should be made: such types are never freed, and the size of
+// their names grows with every level.
+func isDeepPointer(typ reflect.Type) bool {
+	for i := 0; typ != nil && typ.Kind() == reflect.Ptr; i++ {
+		if i == maxTypedPointers {
+			return true
+		}
+		typ = typ.Elem()
+	}
+
+	return false
+}
+
 func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Value, isObjectV bool) (int, error) {
 	var err error
 	var className []byte
-- 
2.43.0


From 44e4c623686ee3b62980925fdb7463e250a45643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 36/85] fix: keep empty array references flat when merging

---
 Go/sereal/merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 79d3ec4..c46b067 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -676,9 +676,8 @@ LOOP:
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat && len(b) > 1 {
+	if m.KeepFlat && len(b) > 0 {
 		tag0 := b[0] &^ trackFlag
-		tag1 := b[1] &^ trackFlag
 
 		switch m.TopLevelElement {
 		case TopLevelArray:
@@ -688,7 +687,7 @@ func (m *Merger) expectedElements(b []byte) (int, int, error) {
 			}
 
 		case TopLevelArrayRef:
-			if tag0 == typeREFN && tag1 == typeARRAY {
+			if tag0 == typeREFN && len(b) > 1 && b[1]&^trackFlag == typeARRAY {
 				ln, sz, err := varintdecode(b[2:])
 				return ln, sz + 2, err
 			} else if tag0 >= typeARRAYREF_0 && tag0 < typeARRAYREF_0+16 {
-- 
2.43.0


From 386c0d8fe122bfa4f90a49b36c36bc36bd3f8c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 37/85] fix: class names that are copied or UTF-8 in merged
 documents

---
 Go/sereal/merge.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index c46b067..401e30b 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -25,7 +25,8 @@ type Merger struct {
 	buf        []byte
 	strTable   map[string]int // of strings without encoding
 	utfTable   map[string]int // of STR_UTF8 strings
-	objTable   map[string]int
+	objTable   map[string]int // of class names without encoding
+	utfObjs    map[string]int // of STR_UTF8 class names
 	version    int
 	length     int
 	lenOffset  int
@@ -65,6 +66,7 @@ type mergerDoc struct {
 	buf        []byte
 	trackIdxs  []int
 	trackTable map[int]int
+	classTable map[int]int // what OBJECTV tags have to refer to
 	copiesRefs bool // has COPY tags referring to other things than strings
 	version    int
 	startIdx   int // 0-based
@@ -106,6 +108,7 @@ func (m *Merger) initMerger() error {
 	m.strTable = make(map[string]int)
 	m.utfTable = make(map[string]int)
 	m.objTable = make(map[string]int)
+	m.utfObjs = make(map[string]int)
 
 	if m.ExpectedSize > 0 {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
@@ -214,6 +217,7 @@ func (m *Merger) Append(b []byte) (int, error) {
 		forgetOffsets(m.strTable, lastElementOffset-m.bodyOffset)
 		forgetOffsets(m.utfTable, lastElementOffset-m.bodyOffset)
 		forgetOffsets(m.objTable, lastElementOffset-m.bodyOffset)
+		forgetOffsets(m.utfObjs, lastElementOffset-m.bodyOffset)
 		return 0, err
 	}
 
@@ -286,6 +290,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 	}
 
 	doc.trackTable = make(map[int]int)
+	doc.classTable = make(map[int]int)
 	doc.trackIdxs = make([]int, 0)
 
 	for idx < len(buf) {
@@ -543,6 +548,11 @@ LOOP:
 			if offset == docRelativeIdx {
 				targetOffset = mrgRelativeIdx
 			}
+			if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
+				if classOffset, isClass := doc.classTable[offset]; isClass {
+					targetOffset = classOffset
+				}
+			}
 
 			if !ok || targetOffset < 0 {
 				return errors.New("bad target offset at COPY, ALIAS or REFP tag")
@@ -618,7 +628,17 @@ LOOP:
 			}
 
 			length := offset + 1 // respect typeOBJECT tag
-			savedOffset, ok := m.objTable[string(str)]
+			strIdx := docRelativeIdx + 1
+			if copyOffset >= 0 {
+				strIdx, _, _ = varintdecode(dbuf[didx+2:])
+			}
+
+			objTable := m.objTable
+			if dbuf[strIdx+doc.bodyOffset]&^trackFlag == typeSTR_UTF8 {
+				objTable = m.utfObjs
+			}
+
+			savedOffset, ok := objTable[string(str)]
 			if ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
@@ -627,18 +647,19 @@ LOOP:
 				}
 			} else if copyOffset >= 0 {
 				savedOffset = copyOffset
-				m.objTable[string(str)] = savedOffset
+				objTable[string(str)] = savedOffset
 				mbuf = append(mbuf, dbuf[didx])
 				mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 			} else {
 				// +1 because we should refer to string tag, not object tag
 				savedOffset = mrgRelativeIdx + 1
-				m.objTable[string(str)] = savedOffset
+				objTable[string(str)] = savedOffset
 				mbuf = append(mbuf, dbuf[didx:didx+length]...)
 			}
 
+			doc.classTable[strIdx] = savedOffset
 			if _, ok := doc.trackTable[docRelativeIdx+1]; ok {
-				// an OBJECTV refers to this class name
+				// a COPY refers to this class name
 				doc.trackTable[docRelativeIdx+1] = savedOffset
 			}
 
-- 
2.43.0


From db29980fd0ed16880399265c4b6b77df85aa23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 38/85] fix: forget copied class names of documents that can't
 be merged

---
 Go/sereal/merge.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 401e30b..37a02f9 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -67,7 +67,8 @@ type mergerDoc struct {
 	trackIdxs  []int
 	trackTable map[int]int
 	classTable map[int]int // what OBJECTV tags have to refer to
-	copiesRefs bool // has COPY tags referring to other things than strings
+	newClasses []string    // class names whose OBJECT tag has a COPY tag
+	copiesRefs bool        // has COPY tags referring to other things than strings
 	version    int
 	startIdx   int // 0-based
 	bodyOffset int // 1-based
@@ -218,6 +219,10 @@ func (m *Merger) Append(b []byte) (int, error) {
 		forgetOffsets(m.utfTable, lastElementOffset-m.bodyOffset)
 		forgetOffsets(m.objTable, lastElementOffset-m.bodyOffset)
 		forgetOffsets(m.utfObjs, lastElementOffset-m.bodyOffset)
+		for _, class := range doc.newClasses {
+			delete(m.objTable, class)
+			delete(m.utfObjs, class)
+		}
 		return 0, err
 	}
 
@@ -648,6 +653,7 @@ LOOP:
 			} else if copyOffset >= 0 {
 				savedOffset = copyOffset
 				objTable[string(str)] = savedOffset
+				doc.newClasses = append(doc.newClasses, string(str))
 				mbuf = append(mbuf, dbuf[didx])
 				mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 			} else {
-- 
2.43.0


From e9dda74da1827ac6a446a26067f2e4fd0eb98638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 39/85] fix: integers that don't fit the variable are errors

---
 Go/sereal/decode.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index f379717..e3baef5 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -772,7 +772,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 	var err error
 	switch {
 	case tag < typeVARINT:
-		setInt(ptr, d.decodeInt(tag))
+		err = setInt(ptr, d.decodeInt(tag), false)
 
 	case tag == typeVARINT:
 		var val int
@@ -780,7 +780,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		if err != nil {
 			return 0, err
 		}
-		setInt(ptr, val)
+		err = setInt(ptr, val, true)
 
 	case tag == typeZIGZAG:
 		var val int
@@ -788,7 +788,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		if err != nil {
 			return 0, err
 		}
-		setInt(ptr, val)
+		err = setInt(ptr, val, false)
 
 	case tag == typeFLOAT:
 		var val float32
@@ -1282,17 +1282,33 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 	return idx, err
 }
 
-func setInt(ptr reflect.Value, i int) {
+// setInt stores an integer, i.e. the bits of a uint64 if isUnsigned is set
+func setInt(ptr reflect.Value, i int, isUnsigned bool) error {
 	switch ptr.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if (isUnsigned && i < 0) || ptr.OverflowInt(int64(i)) {
+			return errIntOverflow(ptr, i, isUnsigned)
+		}
 		ptr.SetInt(int64(i))
 
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if (!isUnsigned && i < 0) || ptr.OverflowUint(uint64(i)) {
+			return errIntOverflow(ptr, i, isUnsigned)
+		}
 		ptr.SetUint(uint64(i))
 
 	default:
 		panic(&reflect.ValueError{Method: "sereal.setInt", Kind: ptr.Kind()})
 	}
+
+	return nil
+}
+
+func errIntOverflow(ptr reflect.Value, i int, isUnsigned bool) error {
+	if isUnsigned {
+		return fmt.Errorf("integer %d does not fit into %s", uint64(i), ptr.Type())
+	}
+	return fmt.Errorf("integer %d does not fit into %s", i, ptr.Type())
 }
 
 func setBinary(ptr reflect.Value, val []byte) {
-- 
2.43.0


From a5bff9ab3882061e73586c1ed26814e5022dce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 40/85] fix: references to unfinished typed items, aliases of
 typed items

---
 Go/sereal/decode.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index e3baef5..afa0d96 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1127,8 +1127,16 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 	} else {
 		// rv contains original value
 		// i.e. it was saved in decodeViaReflection() path
-		res = reflect.New(rv.Type())
-		res.Elem().Set(rv)
+		if !isREFP {
+			iface := rv.Interface()
+			res = reflect.ValueOf(&iface).Elem()
+		} else if rv.CanAddr() {
+			// it may not be complete yet, so don't copy it
+			res = rv.Addr()
+		} else {
+			res = reflect.New(rv.Type())
+			res.Elem().Set(rv)
+		}
 	}
 
 	return res, idx, nil
-- 
2.43.0


From 76d452f167caa8bdb7b825f27ea0cf82b3e7069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 41/85] fix: frozen objects with further references to them are
 decoded

---
 Go/sereal/decode.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index afa0d96..c91fb45 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1220,13 +1220,16 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		return 0, ErrTruncated
 	}
 
-	if by[idx] != typeREFN || by[idx+1] != typeARRAY {
+	// the array is tracked if there are further references to the frozen object
+	arrayIdx := idx + 1
+	tracked := by[arrayIdx]&trackFlag == trackFlag
+	if by[idx] != typeREFN || by[arrayIdx]&^trackFlag != typeARRAY {
 		return 0, ErrCorrupt{errFreezeNotRefnArray}
 	}
 
 	// decode the array itself: in PerlCompat mode REFN would yield a pointer to it
 	var iface interface{}
-	if idx, err = d.decode(by, idx+1, &iface); err != nil {
+	if idx, err = d.decode(by, arrayIdx, &iface); err != nil {
 		return 0, err
 	}
 
@@ -1287,6 +1290,16 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		}
 	}
 
+	if tracked {
+		// such a reference is one to the object
+		d.tracked[arrayIdx] = ptr
+		if ptr.Kind() == reflect.Interface {
+			if obj := ptr.Elem(); obj.Kind() == reflect.Ptr && !obj.IsNil() {
+				d.tracked[arrayIdx] = obj.Elem()
+			}
+		}
+	}
+
 	return idx, err
 }
 
-- 
2.43.0


From 5bac3607c7c922f8b4bbf51bb96a3af7ad5b983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 42/85] fix: frozen objects with text as their data are decoded

---
 Go/sereal/decode.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index c91fb45..7c32858 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1243,7 +1243,12 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 	}
 
 	// Expecting a single item in the array ref
-	if classData, ok = wrapper[0].([]byte); !ok {
+	switch data := wrapper[0].(type) {
+	case []byte:
+		classData = data
+	case string:
+		classData = []byte(data)
+	default:
 		return 0, ErrCorrupt{errFreezeNotByteSlice}
 	}
 
-- 
2.43.0


From 2b5063e7f19b5b4d931d820cc8a94f95c24248ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 43/85] fix: Perl decoder forgets frozen objects of the
 previous document

---
 Perl/Decoder/srl_decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 92c26b4..a603f0a 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -545,6 +545,11 @@ srl_clear_decoder_body_state(pTHX_ srl_decoder_t *dec)
         PTABLE_clear(dec->ref_stashes);
         PTABLE_clear(dec->ref_bless_av);
     }
+    /* Its keys are addresses of SVs of the document, which may be reused for others */
+    if (dec->ref_thawhash)
+        PTABLE_clear(dec->ref_thawhash);
+    if (dec->thaw_av)
+        av_clear(dec->thaw_av);
 
     dec->recursion_depth = 0;
 }
-- 
2.43.0


From 1c8b770e97bacde355e00b3996e1818aa1963780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 44/85] fix: Perl decoder blesses objects that are copied with
 COPY

---
 Perl/Decoder/srl_decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index a603f0a..e068732 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1601,6 +1601,11 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
         SRL_RDR_ERROR_UNEXPECTED(dec->pbuf, tag, "a class name");
     }
 
+    /* Within a COPY this may be the object that introduced the class name. Replacing
+     * its av would lose the objects that wait in it for their blessing. */
+    if (expect_false( dec->save_pos && !class_stash && dec->ref_stashes ))
+        class_stash= (HV *) PTABLE_fetch(dec->ref_stashes, (void *)storepos);
+
     /* At this point we may or may not have a class stash. If they used a Copy there
      * is a decent chance we do. */
     SRL_ASSERT_REF_PTR_TABLES(dec);
-- 
2.43.0


From c27511102f457ba9c2f26e95eafa59c44b7c2c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 45/85] fix: Perl decoder does not take copies for the items
 they were made from

---
 Perl/Decoder/srl_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index e068732..38a5ed5 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1889,6 +1889,7 @@ SRL_STATIC_INLINE void
 srl_read_copy(pTHX_ srl_decoder_t *dec, SV* into)
 {
     UV item= srl_read_varint_uv_offset(aTHX_ dec->pbuf, " while reading COPY tag");
+    SV *tracked;
     if (expect_false( dec->save_pos )) {
         SRL_RDR_ERRORf1(dec->pbuf, "COPY(%d) called during parse", (int)item);
     }
@@ -1897,9 +1898,14 @@ srl_read_copy(pTHX_ srl_decoder_t *dec, SV* into)
     }
     dec->save_pos= dec->buf.pos;
     dec->buf.pos= dec->buf.body_pos + item;
+    tracked= (SV *)PTABLE_fetch(dec->ref_seenhash, (void *)item);
     srl_read_single_value(aTHX_ dec, into, NULL);
     dec->buf.pos= dec->save_pos;
     dec->save_pos= 0;
+
+    /* later REFP and ALIAS tags refer to the item itself, not to its copy */
+    if (tracked)
+        PTABLE_store(dec->ref_seenhash, (void *)item, (void *)tracked);
 }
 
 
-- 
2.43.0


From af40f7e3aab01a3636adbd10397f90edc71f05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 46/85] fix: doubles that do not fit a float32 variable are
 refused

---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 7c32858..50068a9 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -802,6 +802,9 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		if val, idx, err = d.decodeDouble(by, idx); err != nil {
 			return 0, err
 		}
+		if ptr.OverflowFloat(val) {
+			return 0, fmt.Errorf("number %g does not fit into %s", val, ptr.Type())
+		}
 		ptr.SetFloat(val)
 
 	case tag == typeTRUE, tag == typeFALSE:
-- 
2.43.0


From e47d90b67187218f0a1ef7e585c6c464cb93a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 47/85] fix: objects that contain only themselves exhaust the
 stack

---
 Go/sereal/encode.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index fbc95cb..98c6e2b 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -30,6 +30,7 @@ type marshalState struct {
 	strTable map[string]int // STR_UTF8
 	bytTable map[string]int // BINARY
 	ptrTable map[ptrKey]int
+	wrappers map[ptrKey]int // size of ptrTable when the PerlObject or PerlWeakRef was begun
 }
 
 // ptrKey identifies what a pointer refers to. Its address is not enough: a struct
@@ -121,6 +122,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 			strTable: make(map[string]int),
 			bytTable: make(map[string]int),
 			ptrTable: make(map[ptrKey]int),
+			wrappers: make(map[ptrKey]int),
 		}
 
 		// this is both the flag byte (== "there is user data") and also a hack to make 1-based offsets work
@@ -143,6 +145,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 		strTable: make(map[string]int),
 		bytTable: make(map[string]int),
 		ptrTable: make(map[ptrKey]int),
+		wrappers: make(map[ptrKey]int),
 	}
 
 	encBody := make([]byte, 0, e.ExpectedSize)
@@ -634,10 +637,23 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
 		case PerlUndef:
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
-		case PerlObject:
-			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
-		case PerlWeakRef:
-			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
+		case PerlObject, PerlWeakRef:
+			// No REFP refers to these. If no pointer has been added since the same one
+			// was begun, it contains nothing but itself, without end.
+			key := ptrKey{ptr: rv.Pointer(), typ: rv.Type()}
+			pointers, nested := state.wrappers[key]
+			if nested && pointers == len(state.ptrTable) {
+				return nil, ErrMaxRecursionLimit
+			}
+
+			state.wrappers[key] = len(state.ptrTable)
+			by, err := e.encode(by, rv.Elem(), false, false, state, remainingDepth)
+			if nested {
+				state.wrappers[key] = pointers
+			} else {
+				delete(state.wrappers, key)
+			}
+			return by, err
 		}
 	}
 
-- 
2.43.0


From d229a12159b70b2fd68cacd85784b3c03d3ddf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 48/85] fix: offsets may point outside of the document's body

---
 Go/sereal/decode.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 50068a9..c4f4eac 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -85,6 +85,7 @@ type Decoder struct {
 	copyDepth int
 	depth     int // nesting depth of the item being decoded
 	pending   int // number of items that enclosing containers still have to contain
+	start     int // offset of the first item, there is nothing to refer to before
 
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
@@ -231,6 +232,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		if header.suffixFlags&1 == 1 {
 			// offsets are 1-based and relative to the user metadata
 			suffix := b[header.suffixStart:bodyStart]
+			d.start = 1
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
 				_, err = d.decode(suffix, 1, ptr)
 			} else {
@@ -263,6 +265,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 
 		if header.version == 1 {
+			d.start = bodyStart
 			if ptr, ok := vbody.(*interface{}); ok && *ptr == nil {
 				_, err = d.decode(b, bodyStart, ptr)
 			} else {
@@ -270,6 +273,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 			}
 		} else {
 			// serealv2 documents have 1-based offsets :/
+			d.start = 1
 			if ptr, ok := vbody.(*interface{}); ok && *ptr == nil {
 				_, err = d.decode(b[bodyStart-1:], 1, ptr)
 			} else {
@@ -428,7 +432,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		if err != nil {
 			return 0, err
 		}
-		if offs < 0 || offs >= idx {
+		if offs < d.start || offs >= idx {
 			return 0, ErrCorrupt{errBadOffset}
 		}
 		idx += sz
@@ -688,7 +692,7 @@ func (d *Decoder) decodeStringishOrCopy(by []byte, idx int, allowCopy bool) ([]b
 		if err != nil {
 			return nil, 0, err
 		}
-		if offs < 0 || offs >= idx {
+		if offs < d.start || offs >= idx {
 			return nil, 0, ErrCorrupt{errBadOffset}
 		}
 		idx += sz
@@ -886,7 +890,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		if err != nil {
 			return 0, err
 		}
-		if offs < 0 || offs >= idx {
+		if offs < d.start || offs >= idx {
 			return 0, ErrCorrupt{errBadOffset}
 		}
 		idx += sz
@@ -1084,7 +1088,7 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 	}
 	idx += sz
 
-	if offs < 0 || offs >= idx {
+	if offs < d.start || offs >= idx {
 		var res reflect.Value
 		return res, 0, ErrCorrupt{errBadOffset}
 	}
@@ -1173,6 +1177,9 @@ func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Valu
 		if err != nil {
 			return 0, err
 		}
+		if offs < d.start || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 	}
@@ -1208,6 +1215,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		if err != nil {
 			return 0, err
 		}
+		if offs < d.start || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 		if err != nil {
-- 
2.43.0


From ab3834a2125049c3182fd67f4355effcb712bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 49/85] fix: varints with more than 64 bits lose the uppermost
 ones

---
 Go/sereal/decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index c4f4eac..23e60af 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1374,17 +1374,17 @@ func setBinary(ptr reflect.Value, val []byte) {
 func varintdecode(by []byte) (n int, sz int, err error) {
 	s := uint(0) // shift count
 	for i, b := range by {
+		if s == 63 && b > 1 {
+			// more than 64 bits
+			return 0, i + 1, ErrCorrupt{errBadVarint}
+		}
+
 		n |= int(b&0x7f) << s
 		s += 7
 
 		if (b & 0x80) == 0 {
 			return n, i + 1, nil
 		}
-
-		if s > 63 {
-			// too many continuation bits
-			return 0, i + 1, ErrCorrupt{errBadVarint}
-		}
 	}
 
 	// byte without continuation bit
-- 
2.43.0


From be3829408baf713c71ab453f1b010f972a7a84f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 50/85] fix: frozen objects with other forms of array
 references are refused

---
 Go/sereal/decode.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 23e60af..93a7e56 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1229,20 +1229,32 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		return 0, err
 	}
 
-	if idx+1 >= len(by) {
+	if idx = skipPadding(by, idx); idx >= len(by) {
 		return 0, ErrTruncated
 	}
 
-	// the array is tracked if there are further references to the frozen object
-	arrayIdx := idx + 1
-	tracked := by[arrayIdx]&trackFlag == trackFlag
-	if by[idx] != typeREFN || by[arrayIdx]&^trackFlag != typeARRAY {
+	var iface interface{}
+	var arrayIdx int
+	var tracked bool
+	if tag := by[idx] &^ trackFlag; tag >= typeARRAYREF_0 && tag < typeARRAYREF_0+16 {
+		idx, err = d.decodeArray(by, idx+1, int(tag&0x0f), &iface, false)
+	} else if tag == typeREFN {
+		if arrayIdx = skipPadding(by, idx+1); arrayIdx >= len(by) {
+			return 0, ErrTruncated
+		}
+
+		// the array is tracked if there are further references to the frozen object
+		tracked = by[arrayIdx]&trackFlag == trackFlag
+		if by[arrayIdx]&^trackFlag != typeARRAY {
+			return 0, ErrCorrupt{errFreezeNotRefnArray}
+		}
+
+		// decode the array itself: in PerlCompat mode REFN would yield a pointer to it
+		idx, err = d.decode(by, arrayIdx, &iface)
+	} else {
 		return 0, ErrCorrupt{errFreezeNotRefnArray}
 	}
-
-	// decode the array itself: in PerlCompat mode REFN would yield a pointer to it
-	var iface interface{}
-	if idx, err = d.decode(by, arrayIdx, &iface); err != nil {
+	if err != nil {
 		return 0, err
 	}
 
@@ -1321,6 +1333,15 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 	return idx, err
 }
 
+// skipPadding returns the offset of the next tag at or after idx that isn't padding
+func skipPadding(by []byte, idx int) int {
+	for idx < len(by) && by[idx]&^trackFlag == typePAD {
+		idx++
+	}
+
+	return idx
+}
+
 // setInt stores an integer, i.e. the bits of a uint64 if isUnsigned is set
 func setInt(ptr reflect.Value, i int, isUnsigned bool) error {
 	switch ptr.Kind() {
-- 
2.43.0


From 004618a20b5d6020c53c2a7c273e23d03eefa89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 51/85] fix: the merger accepts documents with undefined tags
 and keys that aren't strings

---
 Go/sereal/merge.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 37a02f9..81b37dd 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -312,7 +312,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 		case tag < typeVARINT,
 			tag == typePAD, tag == typeREFN, tag == typeWEAKEN,
 			tag == typeUNDEF, tag == typeCANONICAL_UNDEF,
-			tag == typeTRUE, tag == typeFALSE, tag == typeEXTEND,
+			tag == typeTRUE, tag == typeFALSE,
 			tag == typeREGEXP, tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			idx++
 
@@ -360,11 +360,11 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 				return err
 			}
 			// REFP may be a reference to itself
-			if docIdx := idx - doc.bodyOffset; offset < 0 || offset > docIdx || (offset == docIdx && tag != typeREFP) {
+			if docIdx := idx - doc.bodyOffset; offset < -doc.bodyOffset || offset > docIdx || (offset == docIdx && tag != typeREFP) {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
-			if target := offset + doc.bodyOffset; tag == typeCOPY && target >= 0 && !isShallowStringish(buf[target]&^trackFlag) {
+			if target := offset + doc.bodyOffset; tag == typeCOPY && !isShallowStringish(buf[target]&^trackFlag) {
 				doc.copiesRefs = true
 			}
 
@@ -447,13 +447,18 @@ LOOP:
 			}
 		}
 
+		// isKey relies on stack[level] for hashes being always even at the beggining (for each item in
+		// hash we expect key and value). In practise it means, that if stack[level] is even - a key is
+		// being processed, if stack[level] is odd - value is being processed
+		isKey := (stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0
+		if isKey && !isShallowStringish(tag) && tag != typeCOPY && tag != typePAD {
+			return fmt.Errorf("expected stringish but found %d (0x%x)", int(tag), int(tag))
+		}
+
 		// If m.DedupeStrings is true - dedup all strings, otherwise dedup only hash keys and class names.
-		// The trick with stack[level] % 2 == 0 works because stack[level] for hashes is always even at
-		// the beggining (for each item in hash we expect key and value). In practise it means,
-		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
 		// A COPY tag must not refer to something that contains COPY tags other than keys, so values have
 		// to remain if anything but strings is copied.
-		dedupString := (m.DedupeStrings && !doc.copiesRefs) || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
+		dedupString := (m.DedupeStrings && !doc.copiesRefs) || isKey
 
 		//fmt.Printf("0x%x (0x%x) at didx: %d (rlt: %d) len(dbuf): %d\n", tag, dbuf[didx], didx, didx-doc.bodyOffset, len(dbuf))
 		//fmt.Printf("level: %d, value: %d len: %d\n", level, stack[level], len(stack))
@@ -464,7 +469,7 @@ LOOP:
 			mbuf = append(mbuf, dbuf[didx])
 			didx++
 
-		case tag == typePAD, tag == typeREFN, tag == typeWEAKEN, tag == typeEXTEND:
+		case tag == typePAD, tag == typeREFN, tag == typeWEAKEN:
 			// this elemets are fake ones, so stack counter should not be decreased
 			// but, I don't want to create another if-branch, so fake it
 			stack[level]++
@@ -562,6 +567,9 @@ LOOP:
 			if !ok || targetOffset < 0 {
 				return errors.New("bad target offset at COPY, ALIAS or REFP tag")
 			}
+			if isKey && !isShallowStringish(dbuf[offset+doc.bodyOffset]&^trackFlag) {
+				return errors.New("COPY tag of a hash key refers to something else than a string")
+			}
 
 			mbuf = appendTagVarint(mbuf, dbuf[didx], uint(targetOffset))
 			didx += sz + 1
-- 
2.43.0


From 7c67af90b68b976c416e8f253ccb6c9396529a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:33 +0000
Subject: [PATCH 52/85] fix: decode into entries that a map has already

---
 Go/sereal/decode.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 93a7e56..2a38354 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1013,23 +1013,19 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 			}
 
 			keyValue := reflect.ValueOf(string(key))
+			riface := reflect.New(ptr.Type().Elem())
 			if value := ptr.MapIndex(keyValue); value.IsValid() {
 				// strkey exists in map, replace its content but respect structure
-				idx, err = d.decodeViaReflection(by, idx, value)
-			} else {
-				// there is no strkey in map, crete a new one
-				riface := reflect.New(ptr.Type().Elem())
-				idx, err = d.decodeViaReflection(by, idx, riface.Elem())
-				if err != nil {
-					return 0, err
-				}
-
-				ptr.SetMapIndex(keyValue, riface.Elem())
+				// (items of a map can't be set themselves)
+				riface.Elem().Set(value)
 			}
 
+			idx, err = d.decodeViaReflection(by, idx, riface.Elem())
 			if err != nil {
 				return 0, err
 			}
+
+			ptr.SetMapIndex(keyValue, riface.Elem())
 		}
 
 	case reflect.Ptr:
-- 
2.43.0


From 1b628b86349ef65b9fbdeeef3b863d0e54ace2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 53/85] fix: decode into byte slices that are empty but not nil

---
 Go/sereal/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 2a38354..3c64127 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1370,7 +1370,7 @@ func errIntOverflow(ptr reflect.Value, i int, isUnsigned bool) error {
 func setBinary(ptr reflect.Value, val []byte) {
 	switch ptr.Kind() {
 	case reflect.Slice:
-		if ptr.Type().Elem().Kind() == reflect.Uint8 && ptr.IsNil() {
+		if ptr.Type().Elem().Kind() == reflect.Uint8 && ptr.Len() == 0 {
 			slice := make([]byte, len(val))
 			ptr.Set(reflect.ValueOf(slice))
 		}
-- 
2.43.0


From 30f749c8da26963ee856abf9d5a881e01d5eab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:38 +0000
Subject: [PATCH 54/85] fix: Perl/Merger: find the body of version 1 documents

---
 Perl/Merger/srl_merger.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Perl/Merger/srl_merger.c b/Perl/Merger/srl_merger.c
index 8169320..c3dffe1 100644
--- a/Perl/Merger/srl_merger.c
+++ b/Perl/Merger/srl_merger.c
@@ -382,7 +382,6 @@ srl_merger_append(pTHX_ srl_merger_t *mrg, SV *src)
     mrg->obuf_last_successfull_offset = BODY_POS_OFS(&mrg->obuf);
 
     mrg->recursion_depth = 0;
-    mrg->ibuf.pos = mrg->ibuf.body_pos + 1;
     srl_merge_single_value(aTHX_ mrg);
 
     mrg->cnt_of_merged_elements++;
@@ -430,7 +429,6 @@ srl_merger_append_all(pTHX_ srl_merger_t *mrg, AV *src)
         mrg->obuf_last_successfull_offset = BODY_POS_OFS(&mrg->obuf);
 
         mrg->recursion_depth = 0;
-        mrg->ibuf.pos = mrg->ibuf.body_pos + 1;
         srl_merge_single_value(aTHX_ mrg);
 
         mrg->cnt_of_merged_elements++;
@@ -651,6 +649,7 @@ srl_build_track_table(pTHX_ srl_merger_t *mrg)
 {
     U8 tag;
     UV offset, length;
+    srl_reader_char_ptr body_start = mrg->ibuf.pos;
 
     DEBUG_ASSERT_RDR_SANE(mrg->pibuf);
 
@@ -738,6 +737,7 @@ srl_build_track_table(pTHX_ srl_merger_t *mrg)
         /*} */
     }
 
+    mrg->ibuf.pos = body_start; /* ready for merging */
     DEBUG_ASSERT_RDR_SANE(mrg->pibuf);
 }
 
-- 
2.43.0


From ae8627db922312937db5e2f37b8da0b44b87cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 55/85] fix: Perl/Merger: length and compression of merged
 documents

---
 Perl/Merger/srl_merger.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/Perl/Merger/srl_merger.c b/Perl/Merger/srl_merger.c
index c3dffe1..10e7e56 100644
--- a/Perl/Merger/srl_merger.c
+++ b/Perl/Merger/srl_merger.c
@@ -525,7 +525,7 @@ srl_merger_finish(pTHX_ srl_merger_t *mrg, SV *user_header_src)
                   (UV) (mrg->obuf.pos - mrg->obuf.start), body_offset);
         }
 
-        mrg->obuf.pos += end_offset;
+        mrg->obuf.pos = mrg->obuf.body_pos + end_offset;
     } else if (mrg->protocol_version > 1) {
         assert(SRL_PREALLOCATE_FOR_USER_HEADER > SRL_MINIMALISTIC_HEADER_SIZE);
 
@@ -540,20 +540,31 @@ srl_merger_finish(pTHX_ srl_merger_t *mrg, SV *user_header_src)
             croak("Bizare! Body pointer has different offset after writing Sereal header!");
         }
 
-        mrg->obuf.pos += end_offset;
+        mrg->obuf.pos = mrg->obuf.body_pos + end_offset;
     }
 
     DEBUG_ASSERT_BUF_SANE(&mrg->obuf);
 
     if (SRL_MRG_HAVE_OPTION(mrg, SRL_F_COMPRESS_SNAPPY_INCREMENTAL)) {
-        srl_compress_body(aTHX_ &mrg->obuf, body_offset, mrg->flags, 0, &mrg->snappy_workmem);
+        STRLEN header_len = mrg->protocol_version > 1
+                          ? body_offset + 1 - srl_start_offset
+                          : SRL_MINIMALISTIC_HEADER_SIZE;
+
+        /* srl_compress_body needs Sereal header at start of the buffer */
+        if (srl_start_offset) {
+            Move(mrg->obuf.start + srl_start_offset, mrg->obuf.start, BUF_POS_OFS(&mrg->obuf) - srl_start_offset, char);
+            mrg->obuf.pos -= srl_start_offset;
+            srl_start_offset = 0;
+        }
+
+        srl_compress_body(aTHX_ &mrg->obuf, header_len, mrg->flags, 0, &mrg->snappy_workmem);
         SRL_UPDATE_BODY_POS(&mrg->obuf, mrg->protocol_version);
     }
 
     assert(srl_start_offset <= (UV) BUF_POS_OFS(&mrg->obuf));
     DEBUG_ASSERT_BUF_SANE(&mrg->obuf);
 
-    return newSVpvn((char *) mrg->obuf.start + srl_start_offset, BUF_POS_OFS(&mrg->obuf) - srl_start_offset - 1);
+    return newSVpvn((char *) mrg->obuf.start + srl_start_offset, BUF_POS_OFS(&mrg->obuf) - srl_start_offset);
 }
 
 SRL_STATIC_INLINE srl_merger_t *
-- 
2.43.0


From 0272d6eada4c9a5e1e9089c9e5d3a44259ed80ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 56/85] fix: Perl/Merger: objects whose class name is a COPY

---
 Perl/Merger/srl_merger.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Perl/Merger/srl_merger.c b/Perl/Merger/srl_merger.c
index 10e7e56..b94a08c 100644
--- a/Perl/Merger/srl_merger.c
+++ b/Perl/Merger/srl_merger.c
@@ -1164,6 +1164,7 @@ srl_merge_object(pTHX_ srl_merger_t *mrg, const U8 objtag)
             SRL_RDR_ERROR_BAD_COPY(mrg->pibuf, newtag);
         }
 
+        srl_buf_cat_char(&mrg->obuf, objtag);
         srl_buf_cat_varint(aTHX_ &mrg->obuf, strtag, offset);
         /*otag_offset = offset; */
     } else {
-- 
2.43.0


From fe4407bb520fabf06491d9621f5c6ddb5715935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 57/85] fix: Perl/Merger: references and tracked PADs do not
 add to recursion depth

---
 Perl/Merger/srl_merger.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Perl/Merger/srl_merger.c b/Perl/Merger/srl_merger.c
index b94a08c..3edc1b7 100644
--- a/Perl/Merger/srl_merger.c
+++ b/Perl/Merger/srl_merger.c
@@ -758,7 +758,7 @@ srl_merge_single_value(pTHX_ srl_merger_t *mrg)
     U8 tag;
     UV length, offset;
     ptable_entry_ptr ptable_entry;
-
+    const UV recursion_depth = mrg->recursion_depth;
 
 read_again:
     assert(mrg->recursion_depth >= 0);
@@ -875,10 +875,9 @@ read_again:
                         goto read_again;
 
                     case SRL_HDR_PAD:
-                        while (SRL_RDR_NOT_DONE(mrg->pibuf) && *mrg->ibuf.pos == SRL_HDR_PAD) {
-                            srl_buf_cat_tag_nocheck(mrg, SRL_HDR_PAD);
-                        }
-
+                        /* one at a time as any of them might be tracked */
+                        srl_buf_cat_tag_nocheck(mrg, SRL_HDR_PAD);
+                        --mrg->recursion_depth;
                         goto read_again;
 
                      default:
@@ -888,7 +887,7 @@ read_again:
         }
     }
 
-    --mrg->recursion_depth;
+    mrg->recursion_depth = recursion_depth; /* might have passed read_again several times */
     DEBUG_ASSERT_RDR_SANE(mrg->pibuf);
     DEBUG_ASSERT_BUF_SANE(&mrg->obuf);
 }
-- 
2.43.0


From 9807db031e9136884f79539e64e796a888092d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 58/85] fix: Perl/Merger: references to themselves

---
 Perl/Merger/srl_merger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Perl/Merger/srl_merger.c b/Perl/Merger/srl_merger.c
index 3edc1b7..d79683a 100644
--- a/Perl/Merger/srl_merger.c
+++ b/Perl/Merger/srl_merger.c
@@ -1198,7 +1198,8 @@ srl_lookup_tracked_offset(pTHX_ srl_merger_t *mrg, UV offset)
 
     len = PTR2UV(res);
     SRL_MERGER_TRACE("srl_lookup_tracked_offset: %lu -> %lu", offset, len);
-    if (expect_false(mrg->obuf.body_pos + len >= mrg->obuf.pos)) {
+    /* tag that refers to itself is not yet in the output buffer */
+    if (expect_false(mrg->obuf.body_pos + len > mrg->obuf.pos)) {
         croak("Corrupted packet. Offset %lu points past current position %lu in packet with length of %lu bytes long",
               (unsigned long) offset, (unsigned long) BUF_POS_OFS(&mrg->obuf), (unsigned long) BUF_SIZE(&mrg->obuf));
     }
-- 
2.43.0


From 1c06efb27bf1cac2789cc85dde79267017748421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 59/85] fix: Perl/Merger: documents that end within an item

---
 Perl/Merger/srl_merger.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Perl/Merger/srl_merger.c b/Perl/Merger/srl_merger.c
index d79683a..5b42e3b 100644
--- a/Perl/Merger/srl_merger.c
+++ b/Perl/Merger/srl_merger.c
@@ -736,6 +736,9 @@ srl_build_track_table(pTHX_ srl_merger_t *mrg)
         }
     }
 
+    if (expect_false(mrg->ibuf.pos > mrg->ibuf.end))
+        SRL_RDR_ERROR(mrg->pibuf, "Unexpected termination of input buffer");
+
     if (mrg->tracked_offsets && !srl_stack_empty(mrg->tracked_offsets)) {
         srl_stack_rsort(aTHX_ mrg->tracked_offsets);
         srl_stack_dedupe(aTHX_ mrg->tracked_offsets);
-- 
2.43.0


From c3e665f4246c5c9ee8dc0db645469683abf77c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 60/85] fix: Perl: snappy data shorter than announced is
 refused

---
 Perl/shared/srl_reader_decompress.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Perl/shared/srl_reader_decompress.h b/Perl/shared/srl_reader_decompress.h
index e51ec49..8efc02d 100644
--- a/Perl/shared/srl_reader_decompress.h
+++ b/Perl/shared/srl_reader_decompress.h
@@ -143,6 +143,9 @@ srl_decompress_body_snappy(pTHX_ srl_reader_buffer_t *buf, U8 encoding_flags, SV
                         decompress_ok);
     }
 
+    if (expect_false( dest_len != (uint32_t)SRL_RDR_SPACE_LEFT(buf) ))
+        SRL_RDR_ERROR(buf, "Snappy-compressed Sereal packet is shorter than its header says");
+
     return bytes_consumed;
 }
 
-- 
2.43.0


From 9e221c22d22b948b3a7baf8096b84440fcb49f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 61/85] fix: Perl/Merger: strings that are referred to are not
 deduplicated

---
 Perl/Merger/srl_merger.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Perl/Merger/srl_merger.c b/Perl/Merger/srl_merger.c
index 5b42e3b..8ceeae4 100644
--- a/Perl/Merger/srl_merger.c
+++ b/Perl/Merger/srl_merger.c
@@ -1219,6 +1219,10 @@ srl_lookup_string(pTHX_ srl_merger_t *mrg, const unsigned char *src, STRLEN len,
     if (len <= 3 || len > STRTABLE_MAX_STR_SIZE || !SRL_MRG_HAVE_OPTION(mrg, SRL_F_DEDUPE_STRINGS))
         return NULL;
 
+    /* strings which REFP or ALIAS refer to have identity of their own */
+    if (expect_false(*src & SRL_HDR_TRACK_FLAG))
+        return NULL;
+
     ent = STRTABLE_insert(SRL_GET_STRING_DEDUPER_TBL(mrg), src, len, ok);
     assert(ent != NULL);
 
-- 
2.43.0


From 37d9eeb13a67a4b5d3ec16e0eb698f3ca85ef53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:36 +0000
Subject: [PATCH 62/85] fix: Perl: snappy data that ends within a copy is
 refused

---
 Perl/shared/snappy/csnappy_decompress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Perl/shared/snappy/csnappy_decompress.c b/Perl/shared/snappy/csnappy_decompress.c
index 4dd316c..7948331 100644
--- a/Perl/shared/snappy/csnappy_decompress.c
+++ b/Perl/shared/snappy/csnappy_decompress.c
@@ -347,6 +347,8 @@ csnappy_decompress_noheader(
 		if (opcode & 0x3) {
 			opword = char_table[opcode];
 			extra_bytes = opword >> 11;
+			if (unlikely(end_minus5 + 5 - src < (int32_t)extra_bytes))
+				return CSNAPPY_E_DATA_MALFORMED;
 			trailer = get_unaligned_le(src, extra_bytes);
 			length = opword & 0xff;
 			src += extra_bytes;
-- 
2.43.0


From a3100b7502bbfe56b225d16734e98ff731827d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 63/85] fix: Perl/Decoder: max_string_length concerns short
 strings too

---
 Perl/Decoder/srl_decoder.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 38a5ed5..bb91346 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1021,15 +1021,21 @@ srl_read_zigzag_into(pTHX_ srl_decoder_t *dec, SV* into, SV **container, const U
 }
 
 
+/* Limit the maximum size of the string that we accept to whatever was configured */
 SRL_STATIC_INLINE void
-srl_read_string(pTHX_ srl_decoder_t *dec, int is_utf8, SV* into)
+srl_check_string_length(pTHX_ srl_decoder_t *dec, UV len)
 {
-    UV len= srl_read_varint_uv_length(aTHX_ dec->pbuf, " while reading string");
-    /* Limit the maximum size of the string that we accept to whatever was configured */
     if (expect_false( dec->max_string_length != 0 && len > dec->max_string_length )) {
         SRL_RDR_ERRORf2(dec->pbuf, "Got input string with %u characters, but the configured maximum is just %u",
                 (int)len, (int)dec->max_string_length);
     }
+}
+
+SRL_STATIC_INLINE void
+srl_read_string(pTHX_ srl_decoder_t *dec, int is_utf8, SV* into)
+{
+    UV len= srl_read_varint_uv_length(aTHX_ dec->pbuf, " while reading string");
+    srl_check_string_length(aTHX_ dec, len);
     if (expect_false(is_utf8 && SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_VALIDATE_UTF8))) {
         /* checks for invalid byte sequences. */
         if (expect_false( !is_utf8_string((U8*)dec->buf.pos, len) )) {
@@ -1945,6 +1951,7 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
         CASE_SRL_HDR_SHORT_BINARY:
             len= (STRLEN)SRL_HDR_SHORT_BINARY_LEN_FROM_TAG(tag);
             SRL_RDR_ASSERT_SPACE(dec->pbuf, len, " while reading ascii string");
+            srl_check_string_length(aTHX_ dec, len);
             sv_setpvn(into,(char*)dec->buf.pos,len);
             dec->buf.pos += len;
             break;
-- 
2.43.0


From 03b1d231ad32555dbd7483477edf50ee76aa154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 64/85] fix: Perl/Decoder: validate_utf8 concerns hash keys and
 class names, and the empty string is valid

---
 Perl/Decoder/srl_decoder.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index bb91346..0772c41 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1031,17 +1031,25 @@ srl_check_string_length(pTHX_ srl_decoder_t *dec, UV len)
     }
 }
 
+/* checks for invalid byte sequences if we were asked to. */
+SRL_STATIC_INLINE void
+srl_validate_utf8(pTHX_ srl_decoder_t *dec, const U8 *from, STRLEN len)
+{
+    /* is_utf8_string() takes a length of 0 for "up to the next NUL" */
+    if (expect_false( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_VALIDATE_UTF8)
+                      && len && !is_utf8_string((U8*)from, len) ))
+    {
+        SRL_RDR_ERROR(dec->pbuf, "Invalid UTF8 byte sequence");
+    }
+}
+
 SRL_STATIC_INLINE void
 srl_read_string(pTHX_ srl_decoder_t *dec, int is_utf8, SV* into)
 {
     UV len= srl_read_varint_uv_length(aTHX_ dec->pbuf, " while reading string");
     srl_check_string_length(aTHX_ dec, len);
-    if (expect_false(is_utf8 && SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_VALIDATE_UTF8))) {
-        /* checks for invalid byte sequences. */
-        if (expect_false( !is_utf8_string((U8*)dec->buf.pos, len) )) {
-            SRL_RDR_ERROR(dec->pbuf, "Invalid UTF8 byte sequence");
-        }
-    }
+    if (is_utf8)
+        srl_validate_utf8(aTHX_ dec, dec->buf.pos, len);
     sv_setpvn(into,(char *)dec->buf.pos,len);
     if (is_utf8) {
         SvUTF8_on(into);
@@ -1241,6 +1249,7 @@ srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
             key_len= (KEYLENTYPE)srl_read_varint_uv_length(aTHX_ dec->pbuf, " while reading UTF8 key");
             SRL_RDR_ASSERT_SPACE(dec->pbuf,key_len," while reading string key");
             from= dec->buf.pos;
+            srl_validate_utf8(aTHX_ dec, from, key_len);
             dec->buf.pos += key_len;
 #ifdef OLDHASH
             key_len= -key_len;
@@ -1550,6 +1559,7 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
         flags = flags | SVf_UTF8;
         from= dec->buf.pos;
         SRL_RDR_ASSERT_SPACE(dec->pbuf,key_len," while reading utf8 string");
+        srl_validate_utf8(aTHX_ dec, from, key_len);
         dec->buf.pos += key_len;
     }
     else
-- 
2.43.0


From 5912d0898237f04d5fd3e2a3e7d28726a3c71f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 65/85] fix: Perl/Decoder: no_thaw_objects together with the
 readonly options

---
 Perl/Decoder/srl_decoder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 0772c41..22f9e5f 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -881,11 +881,19 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
                  * private to the Sereal project. */
                 char *classname = HvNAME(class_stash);
                 AV *av= (AV*)SvRV(sv);
+                int readonly= SvREADONLY(av) ? 1 : 0;
                 if (!debug_class) {
                     debug_class = gv_stashpvs("Sereal::Decoder::THAW_args",1);
                 }
+                /* with one of the readonly options it may be readonly by now */
+                if (expect_false( readonly ))
+                    SvREADONLY_off(av);
                 av_push(av,newSVpvn(classname, strlen(classname)));
+                if (expect_false( dec->flags_readonly ))
+                    SvREADONLY_on(*av_fetch(av, av_len(av), 0));
                 sv_bless(sv,debug_class);
+                if (expect_false( readonly ))
+                    SvREADONLY_on(av);
             } else {
                 /* thaw the first ref. */
                 srl_thaw_object(aTHX_ dec, class_stash, sv);
-- 
2.43.0


From 0d09cf4021c17136d9decab6d497dcb8a859ffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 66/85] fix: Perl/Decoder: set_readonly_scalars leaves
 references and containers alone

---
 Perl/Decoder/srl_decoder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 22f9e5f..a4040c1 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -2063,7 +2063,8 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
     if ( expect_false(dec->flags_readonly) )
     {
         if (
-             dec->flags_readonly == 1 || !is_ref
+             dec->flags_readonly == 1
+             || !(is_ref || SvROK(into) || SvTYPE(into) == SVt_PVAV || SvTYPE(into) == SVt_PVHV)
         ) {
             if (is_ref && !SvREADONLY(SvRV(into)) ) {
                 SvREADONLY_on(SvRV(into));
-- 
2.43.0


From 33735d27128553170ed6c95a8a1d052c6d49fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 67/85] fix: Perl/Decoder: documents in tied scalars and what
 substr() returns

---
 Perl/Decoder/Decoder.xs    | 3 ++-
 Perl/Decoder/srl_decoder.c | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Perl/Decoder/Decoder.xs b/Perl/Decoder/Decoder.xs
index ffec36b..c3a9bd3 100644
--- a/Perl/Decoder/Decoder.xs
+++ b/Perl/Decoder/Decoder.xs
@@ -145,9 +145,10 @@ THX_pp1_looks_like_sereal(pTHX)
     SV *data= TOPs;
     /* Should this be SvPOK()? Or better yet, check if it's *really* a string pointer: SvPOKp(data). After all
        the serialization format is a string and anything otherwise would not look sereal. */
+    SvGETMAGIC(data); /* e.g. a tied scalar or the result of substr() */
     if ( SvOK(data) ) {
         STRLEN len;
-        char *strdata= SvPV(data, len);
+        char *strdata= SvPV_nomg(data, len);
         IV ret= srl_validate_header_version_pv_len(aTHX_ strdata, len);
         if ( ret < 0 ) {
             SETs(&PL_sv_no);
diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index a4040c1..effb47f 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -578,6 +578,8 @@ srl_begin_decoding(pTHX_ srl_decoder_t *dec, SV *src, UV start_offset)
     /* Register our structure for destruction on scope exit */
     SAVEDESTRUCTOR_X(&srl_decoder_destructor_hook, (void *)dec);
 
+    SvGETMAGIC(src); /* sets the flags of e.g. a tied scalar or the result of substr() */
+
     if (SvUTF8(src)) {
         /* If we are being asked to decode a utf8-on string then we
          * make a mortal copy, and then try to downgrade the copy.
@@ -593,7 +595,7 @@ srl_begin_decoding(pTHX_ srl_decoder_t *dec, SV *src, UV start_offset)
         sv_utf8_downgrade(src, 0);
     }
 
-    tmp = (unsigned char*)SvPV(src, len);
+    tmp = (unsigned char*)SvPV_nomg(src, len);
     if (expect_false( start_offset > len )) {
         SRL_RDR_ERROR(dec->pbuf, "Start offset is beyond input string length");
     }
-- 
2.43.0


From 2eea1f1d9de7bb2e61d49627d3593af8682491bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 68/85] fix: Perl/Decoder: malformed objects do not crash the
 readonly options

---
 Perl/Decoder/srl_decoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index effb47f..48743f8 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -827,7 +827,7 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
                         /* was blessed early, don't rebless */
 #else
                         if (!nobless) {
-                            if ( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_READONLY_FLAGS) && SvREADONLY(SvRV(obj))) {
+                            if ( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_READONLY_FLAGS) && SvROK(obj) && SvREADONLY(SvRV(obj))) {
                                 /* the referenced scalar was readonly, temporary 
                                    set it rw to bless its reference */
                                 SvREADONLY_off(SvRV(obj));
@@ -2068,7 +2068,7 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
              dec->flags_readonly == 1
              || !(is_ref || SvROK(into) || SvTYPE(into) == SVt_PVAV || SvTYPE(into) == SVt_PVHV)
         ) {
-            if (is_ref && !SvREADONLY(SvRV(into)) ) {
+            if (is_ref && SvROK(into) && !SvREADONLY(SvRV(into)) ) {
                 SvREADONLY_on(SvRV(into));
             }
             if (!SvREADONLY(into)) {
-- 
2.43.0


From aa0e965cbda414406372e141900a27c0c906e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 69/85] fix: Perl/Decoder: frozen objects without an array are
 refused where they are read

---
 Perl/Decoder/srl_decoder.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 48743f8..318d3ad 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -871,6 +871,11 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
             HV *class_stash = (HV*)srl_fetch_register_frozen_object(aTHX_ dec, sv, 0);
             AV *additional_refs= NULL;
             IV fixups = 0;
+            if (expect_false( class_stash == NULL )) {
+                /* e.g. the only reference to its array was a weak one */
+                SvREFCNT_dec(sv);
+                SRL_RDR_ERROR(dec->pbuf, "Corrupted packet. The array of a frozen object is gone");
+            }
             if (SvTYPE(class_stash) == SVt_PVAV) {
                 additional_refs = (AV*)class_stash;
                 fixups = av_len(additional_refs); /* no +1 because we do it before the class_stash shift */
@@ -1705,7 +1710,9 @@ srl_read_frozen_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
     srl_read_single_value(aTHX_ dec, into, NULL);
 
     /* validate that we actually deparsed an AV */
-    assert(SvROK(into) && SvTYPE(SvRV(into)) == SVt_PVAV);
+    if (expect_false( !SvROK(into) || SvTYPE(SvRV(into)) != SVt_PVAV ))
+        SRL_RDR_ERROR(dec->pbuf, "Corrupted packet. OBJECT(V)_FREEZE used without "
+                  "being followed by an array reference");
 
     if (!dec->ref_thawhash)
         SAFE_PTABLE_NEW(dec->ref_thawhash);
-- 
2.43.0


From d8ba3cab7334a1550026a0d3a03df4d590eb95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 70/85] fix: Perl/Decoder: bytes_consumed after THAW methods
 that use the decoder

---
 Perl/Decoder/srl_decoder.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 318d3ad..d2728e9 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -436,19 +436,17 @@ SRL_STATIC_INLINE void
 srl_decode_into_internal(pTHX_ srl_decoder_t *origdec, SV *src, SV *header_into, SV *body_into, UV start_offset)
 {
     srl_decoder_t *dec;
+    UV bytes_consumed = 0;
 
     assert(origdec != NULL);
     dec = srl_begin_decoding(aTHX_ origdec, src, start_offset);
     srl_read_header(aTHX_ dec, header_into);
     if (expect_false( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DECOMPRESS_SNAPPY) )) {
-        dec->bytes_consumed = srl_decompress_body_snappy(aTHX_ dec->pbuf, dec->encoding_flags, NULL, dec->max_uncompressed_size);
-        origdec->bytes_consumed = dec->bytes_consumed;
+        bytes_consumed = srl_decompress_body_snappy(aTHX_ dec->pbuf, dec->encoding_flags, NULL, dec->max_uncompressed_size);
     } else if (expect_false( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DECOMPRESS_ZLIB) )) {
-        dec->bytes_consumed = srl_decompress_body_zlib(aTHX_ dec->pbuf, NULL, dec->max_uncompressed_size);
-        origdec->bytes_consumed = dec->bytes_consumed;
+        bytes_consumed = srl_decompress_body_zlib(aTHX_ dec->pbuf, NULL, dec->max_uncompressed_size);
     } else if (expect_false( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DECOMPRESS_ZSTD) )) {
-        dec->bytes_consumed = srl_decompress_body_zstd(aTHX_ dec->pbuf, NULL, dec->max_uncompressed_size);
-        origdec->bytes_consumed = dec->bytes_consumed;
+        bytes_consumed = srl_decompress_body_zstd(aTHX_ dec->pbuf, NULL, dec->max_uncompressed_size);
     }
 
     /* this function *MUST* be called right after srl_decompress* functions */
@@ -461,17 +459,18 @@ srl_decode_into_internal(pTHX_ srl_decoder_t *origdec, SV *src, SV *header_into,
     }
 
     /* If we aren't reading from a decompressed buffer we have to remember the number
-     * of bytes used for the user to query. */
-    if (dec->bytes_consumed == 0) {
-        dec->bytes_consumed = dec->buf.pos - dec->buf.start;
-        origdec->bytes_consumed = dec->bytes_consumed;
-    }
+     * of bytes used for the user to query. A THAW method that used this decoder
+     * has left the number of its own document there. */
+    if (bytes_consumed == 0)
+        bytes_consumed = dec->buf.pos - dec->buf.start;
+    dec->bytes_consumed = bytes_consumed;
+    origdec->bytes_consumed = bytes_consumed;
 
     if (SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DESTRUCTIVE_INCREMENTAL)) {
         STRLEN len;
         char *pv= SvPV(src,len);
         /* check the length here? do something different if the string is now exhausted? */
-        sv_chop(src, pv + dec->bytes_consumed);
+        sv_chop(src, pv + bytes_consumed);
     }
 
     srl_clear_decoder(aTHX_ dec);
-- 
2.43.0


From ecb93ec10d27c75b4518e73d6a4cad1ba3e569c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:04 +0000
Subject: [PATCH 71/85] fix: Perl/Decoder: readonly and alias options within
 THAW methods

---
 Perl/Decoder/srl_decoder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index d2728e9..7d300f0 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -378,6 +378,8 @@ srl_build_decoder_struct_alike(pTHX_ srl_decoder_t *proto)
         dec->alias_cache = proto->alias_cache;
         SvREFCNT_inc(dec->alias_cache);
     }
+    dec->alias_varint_under = proto->alias_varint_under;
+    dec->flags_readonly = proto->flags_readonly;
 
     SRL_RDR_CLEAR(&dec->buf);
     dec->pbuf = &dec->buf;
-- 
2.43.0


From df9b89e2a72f8c70c4813906f7eb7b5a3198d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 72/85] fix: Perl: huge offsets do not lead out of the document

---
 Perl/shared/srl_reader_varint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Perl/shared/srl_reader_varint.h b/Perl/shared/srl_reader_varint.h
index baea761..e3ec313 100644
--- a/Perl/shared/srl_reader_varint.h
+++ b/Perl/shared/srl_reader_varint.h
@@ -189,7 +189,7 @@ srl_read_varint_uv_offset(pTHX_ srl_reader_buffer_t *buf, const char * const err
     /* A "copy" reference can only refer to things that precede it
      * in the same body. This check asserts that it at least does not
      * refer to anything that is yet to be decoded. */
-    if (expect_false( buf->body_pos + offset >= buf->pos )) {
+    if (expect_false( offset >= (UV)SRL_RDR_BODY_POS_OFS(buf) )) {
         SRL_RDR_ERRORf4(buf, "Corrupted packet%s. Offset %"UVuf" points past current position %"UVuf" in packet with length of %"UVuf" bytes long",
                          errstr, offset, (UV)SRL_RDR_POS_OFS(buf), (UV)SRL_RDR_SIZE(buf));
     }
-- 
2.43.0


From c77b4d588f518d298427f118c9d289d779b884e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 73/85] fix: Perl: documents that end before a varint are
 refused

---
 Perl/shared/srl_reader_varint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Perl/shared/srl_reader_varint.h b/Perl/shared/srl_reader_varint.h
index e3ec313..4370445 100644
--- a/Perl/shared/srl_reader_varint.h
+++ b/Perl/shared/srl_reader_varint.h
@@ -170,7 +170,7 @@ srl_read_varint_uv(pTHX_ srl_reader_buffer_t *buf)
      * unrolled logic is guaranteed to terminate before over-reading
      * past the end of the buffer. */
     if (expect_true( buf->end - buf->pos >= SRL_MAX_VARINT_LENGTH )
-                     || !(*(buf->end - 1) & 0x80))
+                     || (buf->pos < buf->end && !(*(buf->end - 1) & 0x80)))
     {
         if (sizeof(UV) == sizeof(U32)) {
             return srl_read_varint_u32_nocheck(aTHX_ buf);
-- 
2.43.0


From 0e6bf83db2a8028e65b227194e11edd9d747a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 74/85] fix: Perl/Decoder: copied keys and class names do not
 end beyond the document

---
 Perl/Decoder/srl_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 7d300f0..c7a7ce3 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1280,6 +1280,8 @@ srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
              * and if they were a problem we would not be here to process them! */
             if (IS_SRL_HDR_SHORT_BINARY(tag)) {
                 key_len= (KEYLENTYPE)SRL_HDR_SHORT_BINARY_LEN_FROM_TAG(tag);
+                if (expect_false( (IV)key_len > (IV)(dec->buf.end - from) ))
+                    SRL_RDR_ERROR(dec->pbuf, "Corrupted packet. COPY of a string that ends beyond the packet");
             }
             else
             if (tag == SRL_HDR_BINARY) {
@@ -1606,6 +1608,8 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
              * and if they were a problem we would not be here to process them! */
             if (IS_SRL_HDR_SHORT_BINARY(tag)) {
                 key_len= SRL_HDR_SHORT_BINARY_LEN_FROM_TAG(tag);
+                if (expect_false( (IV)key_len > (IV)(dec->buf.end - from) ))
+                    SRL_RDR_ERROR(dec->pbuf, "Corrupted packet. COPY of a string that ends beyond the packet");
             }
             else
             if (tag == SRL_HDR_BINARY) {
-- 
2.43.0


From e4f976cbe86aa440d07c9b8197192200784b758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:21 +0000
Subject: [PATCH 75/85] fix: Perl: zlib data shorter than announced does not
 decode to whatever the buffer held

---
 Perl/shared/srl_reader_decompress.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Perl/shared/srl_reader_decompress.h b/Perl/shared/srl_reader_decompress.h
index 8efc02d..a942927 100644
--- a/Perl/shared/srl_reader_decompress.h
+++ b/Perl/shared/srl_reader_decompress.h
@@ -188,6 +188,9 @@ srl_decompress_body_zlib(pTHX_ srl_reader_buffer_t *buf, SV** buf_owner, size_t
         SRL_RDR_ERRORf1(buf, "ZLIB decompression of Sereal packet payload failed with error %i!", decompress_ok);
     }
 
+    /* what was announced beyond it is not there */
+    buf->end = buf->pos + tmp;
+
     return bytes_consumed;
 }
 
-- 
2.43.0


From f74a42737402f7293cd2c8e4681b191424516ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 76/85] fix: refuse zstd compression before protocol version 4,
 which introduced it

The Perl encoder let protocol_version => 3 have it, and wrote documents that
other implementations refuse.
---
 Perl/Encoder/srl_encoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index bb3929f..e62a1b6 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -532,8 +532,8 @@ srl_build_encoder_struct(pTHX_ HV *opt, sv_with_hash *options)
                 break;
             case 3:
                 SRL_ENC_SET_OPTION(enc, SRL_F_COMPRESS_ZSTD);
-                if (enc->protocol_version < 3)
-                    croak("zstd compression was introduced in protocol version 3 and you are asking for only version %i", (int)enc->protocol_version);
+                if (enc->protocol_version < 4)
+                    croak("zstd compression was introduced in protocol version 4 and you are asking for only version %i", (int)enc->protocol_version);
 
                 enc->compress_level = 3; /* default compression level */
                 my_hv_fetchs(he, val, opt, SRL_ENC_OPT_IDX_COMPRESS_LEVEL);
-- 
2.43.0


From 854429b67cf1661af1398669073f94f261a2421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 77/85] fix: keep the compression level when an encoder is used
 within FREEZE

The encoder that takes its place had all options but compress_level.
---
 Perl/Encoder/srl_encoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index e62a1b6..5813d54 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -660,6 +660,7 @@ srl_build_encoder_struct_alike(pTHX_ srl_encoder_t *proto)
     enc->flags = proto->flags;
     enc->max_recursion_depth = proto->max_recursion_depth;
     enc->compress_threshold = proto->compress_threshold;
+    enc->compress_level = proto->compress_level;
     if (expect_false(SRL_ENC_HAVE_OPTION(enc, SRL_F_ENABLE_FREEZE_SUPPORT))) {
         enc->sereal_string_sv = newSVpvs("Sereal");
     }
-- 
2.43.0


From 85fe545adc4f32fcd3f4ba158576a7a89f41922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 78/85] fix: sort hash keys by length, bytes and then utf8ness
 for sort_keys => 1

The documentation says that the utf8ness comes last, as it does for tied hashes.
---
 Perl/Encoder/srl_encoder.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index 5813d54..8752990 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -1342,19 +1342,22 @@ he_sv_islt_fast(const HE_SV *a, const HE_SV *b)
     char *b_ptr;
     int a_isutf8;
     int b_isutf8;
+    int cmp;
     const STRLEN a_len= a->key.sv ? SvCUR(a->key.sv) : HeKLEN(a->val.he);
     const STRLEN b_len= b->key.sv ? SvCUR(b->key.sv) : HeKLEN(b->val.he);
     if (a_len != b_len) {
         return a_len < b_len;
     }
-    a_isutf8= (a->key.sv ? SvUTF8(a->key.sv) : HeKUTF8(a->val.he)) ? 0 : 1;
-    b_isutf8= (b->key.sv ? SvUTF8(b->key.sv) : HeKUTF8(b->val.he)) ? 0 : 1;
-    if (a_isutf8 != b_isutf8) {
-        return a_isutf8 < b_isutf8;
-    }
     a_ptr= a->key.sv ? SvPVX(a->key.sv) : HeKEY(a->val.he);
     b_ptr= b->key.sv ? SvPVX(b->key.sv) : HeKEY(b->val.he);
-    return memcmp(a_ptr, b_ptr, a_len < b_len ? a_len : b_len ) < 0;
+    cmp= memcmp(a_ptr, b_ptr, a_len);
+    if (cmp) {
+        return cmp < 0;
+    }
+    /* the same bytes: non-utf8 goes first */
+    a_isutf8= (a->key.sv ? SvUTF8(a->key.sv) : HeKUTF8(a->val.he)) ? 1 : 0;
+    b_isutf8= (b->key.sv ? SvUTF8(b->key.sv) : HeKUTF8(b->val.he)) ? 1 : 0;
+    return a_isutf8 < b_isutf8;
 }
 
 #define ISLT_HE_SV(a,b)    he_sv_islt_fast( a, b )
-- 
2.43.0


From 74bc645e934f56c07992825f3fe1c1eb3bfc5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 79/85] fix: sort the keys of tied hashes that are no strings

The comparison takes their SvCUR and SvPVX, which an integer has not: it
crashed, or wrote keys that are not strings.
---
 Perl/Encoder/srl_encoder.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index 8752990..98b9440 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -1420,6 +1420,16 @@ srl_dump_hv_sorted_sv_slow(pTHX_ srl_encoder_t *enc, HV *src, const UV n, HE_SV
             if (expect_false( i == n ))
                 croak("Panic: cannot serialize a %s hash which changes its size!",is_tie ? "tied" : "untied");
             array[i].key.sv= hv_iterkeysv(he);
+            if (HeKLEN(he) == HEf_SVKEY) {
+                /* the keys of a tied hash may be anything, such as integers,
+                 * but we need strings to sort and dump */
+                STRLEN len;
+                const char *str= SvPV(array[i].key.sv, len);
+                SV *key= sv_2mortal(newSVpvn(str, len));
+                if (SvUTF8(array[i].key.sv))
+                    SvUTF8_on(key);
+                array[i].key.sv= key;
+            }
             array[i].val.sv= hv_iterval(src,he);
             i++;
         }
-- 
2.43.0


From 06999be4db44b9e16d025062decb07ed4dd34020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:43 +0000
Subject: [PATCH 80/85] fix: drop WEAKEN before an unsupported thing encoded as
 undef or a string

There is no reference left to weaken, and decoders refuse the document.
---
 Perl/Encoder/srl_encoder.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index 98b9440..3f0eadc 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -1650,6 +1650,23 @@ srl_hv_backreferences_p_safe(pTHX_ HV *hv) {
 }
 #endif
 
+/* Go back to where the reference refsv to the unsupported src started. */
+SRL_STATIC_INLINE void
+srl_forget_unsupported(pTHX_ srl_encoder_t *enc, SV *src, SV *refsv, const SSize_t ref_rewrite_pos)
+{
+    /* make sure we don't keep a reference to the thing that we do not
+     * want to serialize around for REFP and ALIAS output */
+    PTABLE_t *ref_seenhash= SRL_GET_REF_SEENHASH(enc);
+    PTABLE_delete(ref_seenhash, src);
+    enc->buf.pos= enc->buf.body_pos + ref_rewrite_pos;
+    if (SvWEAKREF(refsv)) {
+        /* there is no reference left to be weak: drop the WEAKEN before it */
+        PTABLE_delete(SRL_GET_WEAK_SEENHASH(enc), src);
+        enc->buf.pos--;
+        assert(*enc->buf.pos == SRL_HDR_WEAKEN);
+    }
+}
+
 /* Dumps generic SVs and delegates
  * to more specialized functions for RVs, etc. */
 /* TODO decide when to use the IV, when to use the PV, and when
@@ -1854,11 +1871,7 @@ redo_dump:
                              "by the Sereal encoding format; will encode as an "               \
                              "undefined value", (svt), sv_reftype((src),0),(src));             \
                     if (ref_rewrite_pos) {                                                     \
-                        /* make sure we don't keep a reference to the thing that we do not     \
-                         * want to serialize around for REFP and ALIAS output */               \
-                        PTABLE_t *ref_seenhash= SRL_GET_REF_SEENHASH(enc);                     \
-                        PTABLE_delete(ref_seenhash, src);                                      \
-                        enc->buf.pos= enc->buf.body_pos + ref_rewrite_pos;                     \
+                        srl_forget_unsupported(aTHX_ (enc), (src), (refsv), ref_rewrite_pos);  \
                     }                                                                          \
                     srl_buf_cat_char(&(enc)->buf, SRL_HDR_UNDEF);                              \
                 }                                                                              \
@@ -1882,11 +1895,7 @@ redo_dump:
                         }                                                                      \
                     }                                                                          \
                     if (ref_rewrite_pos) {                                                     \
-                        /* make sure we don't keep a reference to the thing that we do not     \
-                         * want to serialize around for REFP and ALIAS output */               \
-                        PTABLE_t *ref_seenhash= SRL_GET_REF_SEENHASH(enc);                     \
-                        PTABLE_delete(ref_seenhash, src);                                      \
-                        enc->buf.pos= enc->buf.body_pos + ref_rewrite_pos;                     \
+                        srl_forget_unsupported(aTHX_ (enc), (src), (refsv), ref_rewrite_pos);  \
                         str = SvPV((refsv), len);                                              \
                     } else                                                                     \
                         str = SvPV((src), len);                                                \
-- 
2.43.0


From b44f1e6df333d33d0825b0157810a2ba6baae1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:43 +0000
Subject: [PATCH 81/85] fix: accept COPY of a tracked string as hash key or
 class name

The encoder writes such documents when a string that is deduplicated is also
referred to: with dedupe_strings and sort_keys => 2, for example. The track
flag is no part of the tag.
---
 Perl/Decoder/srl_decoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index c7a7ce3..88cc6fd 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1275,7 +1275,7 @@ srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
         } else if (tag == SRL_HDR_COPY) {
             UV ofs= srl_read_varint_uv_offset(aTHX_ dec->pbuf, " while reading COPY tag");
             from= dec->buf.body_pos + ofs;
-            tag= *from++;
+            tag= *from++ & ~SRL_HDR_TRACK_FLAG; /* the item may be tracked: a REFP or ALIAS may point at it too */
             /* note we do NOT validate these items, as we have alread read them
              * and if they were a problem we would not be here to process them! */
             if (IS_SRL_HDR_SHORT_BINARY(tag)) {
@@ -1603,7 +1603,7 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
          * to deserialize the class name */
         if (!class_stash) {
             from= dec->buf.body_pos + ofs;
-            tag= *from++;
+            tag= *from++ & ~SRL_HDR_TRACK_FLAG; /* the item may be tracked: a REFP or ALIAS may point at it too */
             /* Note we do NOT validate these items, as we have already read them
              * and if they were a problem we would not be here to process them! */
             if (IS_SRL_HDR_SHORT_BINARY(tag)) {
-- 
2.43.0


From 19fb63096bfbf75c6b02be74301d20ba018b0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:01 +0000
Subject: [PATCH 82/85] fix: keep strings used as floating point numbers that
 read differently

A string such as "100000000000.0001" or "12345678901234567890123" that has
been used as a number was encoded as that number, which reads otherwise, as
was "1000000e1". The encoder compares the strings for integers already.
---
 Perl/Encoder/srl_encoder.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index 3f0eadc..b90bb37 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -269,7 +269,13 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
                 srl_dump_svpv(aTHX_ enc, src);                              \
             }                                                               \
             else {                                                          \
-                srl_dump_nv(aTHX_ enc, src);                                \
+                /* as above: is the number written like the string? */      \
+                sv_setnv(enc->scratch_sv,SvNV(src));                        \
+                if ( sv_cmp(enc->scratch_sv,src) ) {                        \
+                    srl_dump_svpv(aTHX_ enc, src);                          \
+                } else {                                                    \
+                    srl_dump_nv(aTHX_ enc, src);                            \
+                }                                                           \
             }                                                               \
         }                                                                   \
         else {                                                              \
-- 
2.43.0


From 9825fbb2676e1192b8036397b623eb7593987df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:51 +0000
Subject: [PATCH 83/85] fix: Perl: a weak reference that becomes a plain one
 can still be referred to

PAD replaces WEAKEN if nothing else refers to the same thing. If there is a
reference to the weak reference itself, it refers to that byte, which lost its
track flag: the decoder found an "unknown item".
---
 Perl/Encoder/srl_encoder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index b90bb37..e32f803 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -1140,9 +1140,10 @@ srl_fixup_weakrefs(pTHX_ srl_encoder_t *enc)
             const ptrdiff_t offset = (ptrdiff_t)ent->value;
             if ( offset ) {
                 srl_buffer_char *pos = enc->buf.body_pos + offset;
-                assert(*pos == SRL_HDR_WEAKEN);
+                assert((*pos & ~SRL_HDR_TRACK_FLAG) == SRL_HDR_WEAKEN);
                 if (DEBUGHACK) warn("setting byte at offset %"UVuf" to PAD", (UV)offset);
-                *pos = SRL_HDR_PAD;
+                /* there may be references to the reference itself */
+                *pos = SRL_HDR_PAD | (*pos & SRL_HDR_TRACK_FLAG);
             }
         }
 
-- 
2.43.0


From 8d0ee5264b7e3efda178d177f7aa74f41af3637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:47 +0000
Subject: [PATCH 84/85] fix: resolve REFP to tracked padding

The Perl encoder makes PAD of the WEAKEN of a reference that turns out to be
the only one to something. Other items may refer to that byte, as they refer
to the reference.
---
 Go/sereal/decode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 3c64127..4259f41 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -301,8 +301,12 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 
 	tag := by[idx]
 
-	// skip over any padding bytes
+	// skip over any padding bytes. The Perl encoder makes padding of the first
+	// byte of an item, which other items may refer to
 	for tag == typePAD || tag == typePAD|trackFlag {
+		if tag&trackFlag == trackFlag {
+			d.tracked[idx] = reflect.ValueOf(ptr)
+		}
 		idx++
 		if idx >= len(by) {
 			return 0, ErrTruncated
@@ -757,6 +761,9 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 
 	tag := by[idx]
 	for tag == typePAD || tag == typePAD|trackFlag {
+		if tag&trackFlag == trackFlag {
+			d.tracked[idx] = ptr
+		}
 		idx++
 		if idx >= len(by) {
 			return 0, ErrTruncated
-- 
2.43.0


From c9a533bd9d5efc5b30efef19c829ec3c6acb450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:36 +0000
Subject: [PATCH 85/85] fix: Perl: tracked padding before an item that is
 replaced refers to what replaces it

With alias_smallint, alias_varint_under or use_undef (and for ALIAS) the scalar
that was tracked for the padding is freed, and a REFP to the padding got a
freed scalar, or another one.
---
 Perl/Decoder/srl_decoder.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 88cc6fd..77fc42e 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1958,6 +1958,15 @@ srl_decode_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
     srl_read_single_value(aTHX_ dec, into, container);
 }
 
+/* tracks sv for the tracked padding from 'from' up to 'to' */
+static void
+srl_track_padding(pTHX_ srl_decoder_t *dec, const U8 *from, const U8 *to, SV *sv)
+{
+    for (; from < to; from++)
+        if (*from & SRL_HDR_TRACK_FLAG)
+            srl_track_sv(aTHX_ dec, from, sv);
+}
+
 SRL_STATIC_INLINE void
 srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
 {
@@ -1965,6 +1974,7 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
     U8 tag;
     int is_ref = 0;
     const U8 *track_it = NULL;
+    const U8 *track_from = NULL; /* may be before track_it: padding can be tracked, too */
 
   read_again:
     if (expect_false( SRL_RDR_DONE(dec->pbuf) ))
@@ -2051,6 +2061,8 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
             *container= alias;
             if (track_it)
                 srl_track_sv(aTHX_ dec, track_it, alias);
+            if (expect_false( track_from != track_it ))
+                srl_track_padding(aTHX_ dec, track_from, track_it, alias);
             return;
         }
         break;
@@ -2063,6 +2075,8 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
             if (tag & SRL_HDR_TRACK_FLAG) {
                 tag= tag & ~SRL_HDR_TRACK_FLAG;
                 track_it = dec->buf.pos-1;
+                if (!track_from)
+                    track_from = track_it;
                 srl_track_sv(aTHX_ dec, track_it, into);
                 goto read_tag;
             } else { 
@@ -2071,6 +2085,10 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
         break;
     }
 
+    /* into may have been replaced, and be freed */
+    if (expect_false( track_from != track_it && container && *container != into ))
+        srl_track_padding(aTHX_ dec, track_from, track_it, *container);
+
     /* they want us to set all SVs readonly, or only the non-ref */
 #define SUPPORT_READONLY 1
 #if SUPPORT_READONLY
-- 
2.43.0

