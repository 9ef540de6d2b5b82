From 4aefa637e6b80e14fa95ee09c2e93a90d459283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:59 +0000
Subject: [PATCH 01/11] fix: keep slice data visible to the garbage collector
 while decoding

The slice header used for the slice under construction held its data in an
uintptr, so a garbage collection in the middle of a decoding (during a Read
of the underlying reader for example) was free to recycle the elements
already decoded, and the final assignment had no write barrier.
---
 eface.go                    | 7 +++----
 link_reflect.go             | 4 ++--
 val_decoder_native_slice.go | 2 +-
 val_encoder_native_slice.go | 9 ++++-----
 4 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/eface.go b/eface.go
index 14ec593..e67e142 100644
--- a/eface.go
+++ b/eface.go
@@ -25,10 +25,10 @@ func rtypeOfType(typ reflect.Type) rtype {
 	return rtype(ef.data)
 }
 
-type stringHeader = reflect.StringHeader
-type sliceHeader = reflect.SliceHeader
+// The data must be held by an unsafe.Pointer and not by an uintptr like in
+// reflect.StringHeader and reflect.SliceHeader: the memory which is referenced
+// only by an uintptr can be freed by the garbage collector at any time.
 
-/*
 type stringHeader struct {
 	Data unsafe.Pointer
 	Len  int
@@ -39,4 +39,3 @@ type sliceHeader struct {
 	Len  int
 	Cap  int
 }
-*/
diff --git a/link_reflect.go b/link_reflect.go
index c55e2ca..8f9e47d 100644
--- a/link_reflect.go
+++ b/link_reflect.go
@@ -65,7 +65,7 @@ func mapiternext(it *hiter)
 
 func unsafeMakeSlice(elemRType rtype, length, cap int) unsafe.Pointer {
 	return unsafe.Pointer(&sliceHeader{
-		Data: uintptr(unsafe_NewArray(elemRType, cap)),
+		Data: unsafe_NewArray(elemRType, cap),
 		Len:  length,
 		Cap:  cap,
 	})
@@ -107,7 +107,7 @@ func unsafeGrowSlice(elemRType rtype, ptr unsafe.Pointer, newLength int) unsafe.
 
 func unsafeSliceChildPtr(ptr unsafe.Pointer, elemSize uintptr, index int) unsafe.Pointer {
 	sh := (*sliceHeader)(ptr)
-	return add(unsafe.Pointer(sh.Data), uintptr(index)*elemSize, "index < len")
+	return add(sh.Data, uintptr(index)*elemSize, "index < len")
 }
 
 //go:nosplit
diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index d282a79..b9c9e40 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -47,7 +47,7 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		sh := (*sliceHeader)(ptr)
 		sh.Len = 0
 		sh.Cap = 0
-		sh.Data = 0
+		sh.Data = nil
 		return nil
 	}
 	if c == '"' {
diff --git a/val_encoder_native_slice.go b/val_encoder_native_slice.go
index 44ec341..fad7aa6 100644
--- a/val_encoder_native_slice.go
+++ b/val_encoder_native_slice.go
@@ -27,7 +27,7 @@ type sliceEncoder struct {
 
 func (*sliceEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 	sh := (*sliceHeader)(ptr)
-	return sh.Data == 0 || sh.Len == 0
+	return sh.Data == nil || sh.Len == 0
 }
 
 // Disable new -d=checkptr behaviour for Go 1.14
@@ -41,7 +41,7 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	sh := (*sliceHeader)(ptr)
-	if sh.Data == 0 {
+	if sh.Data == nil {
 		s.Null()
 		return
 	}
@@ -50,13 +50,12 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	s.ArrayStart()
-	curPtr := sh.Data
 	for i := 0; i < sh.Len; i++ {
-		enc.elemEncoder.Encode(unsafe.Pointer(curPtr), s, nil)
+		curPtr := add(sh.Data, uintptr(i)*enc.elemSize, "i < len")
+		enc.elemEncoder.Encode(curPtr, s, nil)
 		if s.Error != nil {
 			return
 		}
-		curPtr += enc.elemSize
 	}
 	s.ArrayEnd()
 }
-- 
2.43.0


From fd45001823a708ff7b025fa73089fad3dbcdf578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:17 +0000
Subject: [PATCH 02/11] fix: process the data returned by the reader along with
 an error

A reader may return n > 0 together with a non EOF error, the n bytes must be
processed before the error is considered. They were dropped, so a value which
was completely delivered was lost.
---
 iterator.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/iterator.go b/iterator.go
index a2db9de..ffb734c 100644
--- a/iterator.go
+++ b/iterator.go
@@ -20,6 +20,9 @@ type iteratorEmbedded struct {
 	// the current index position
 	head int
 
+	// the error returned by the reader along with the last data
+	readErr error
+
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
@@ -143,6 +146,10 @@ func (it *Iterator) readMore() error {
 	if it.reader == nil {
 		return io.EOF
 	}
+	if err := it.readErr; err != nil {
+		it.readErr = nil
+		return err
+	}
 	var (
 		n   int
 		err error
@@ -166,15 +173,14 @@ func (it *Iterator) readMore() error {
 			it.head = 0
 			it.tail = n
 		}
-		if err != nil {
-			if err == io.EOF && n > 0 {
-				return nil
-			}
-			return err
-		}
 		if n > 0 {
+			// the data must be processed before the error, see io.Reader
+			it.readErr = err
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 		// n == 0 && err == nil
 		// the implementation of the reader is wrong
 		runtime.Gosched()
-- 
2.43.0


From 930532ce7f78b166965caa5a340eea31c421609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:24 +0000
Subject: [PATCH 03/11] fix: report the overflow of a four digit number read
 into an (u)int8

The reading stopped after the third digit, so the number 2555 of a stream was
returned as two values, 255 and 5.
---
 iterator_int8.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iterator_int8.go b/iterator_int8.go
index 5cd6d3a..202a2e2 100644
--- a/iterator_int8.go
+++ b/iterator_int8.go
@@ -63,6 +63,17 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 		return
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
+	if it.head == it.tail {
+		if err = it.readMore(); err != nil {
+			if err == io.EOF {
+				err = nil
+			}
+			return
+		}
+	}
+	if intDigits[it.buffer[it.head]] != invalidDigit { // fourth digit
+		err = IntOverflowError{}
+	}
 	return
 }
 
-- 
2.43.0


From 3e00448b22fd738d19cc6161b8b7446c6cae0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:12 +0000
Subject: [PATCH 04/11] fix: do not write the leftover of an encoding
 interrupted by a panic

When a marshaler panicked and the caller recovered, the partial output stayed
in the buffer of the encoder and was written in front of the next value.
---
 encoder.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/encoder.go b/encoder.go
index 2d5e5b5..98c3b5f 100644
--- a/encoder.go
+++ b/encoder.go
@@ -15,15 +15,13 @@ func (e *Encoder) Release() {
 }
 
 func encodeInternal(s *Streamer, v interface{}) error {
+	// a previous encoding may have been interrupted by a panic
+	s.Reset(s.writer)
 	if err := s.Value(v).Flush(); err != nil {
 		return err
 	}
 	_, err := s.writer.Write([]byte{'\n'})
-	if err != nil {
-		return err
-	}
-	s.Reset(s.writer)
-	return nil
+	return err
 }
 
 // Encode writes the JSON encoding of v to the stream,
-- 
2.43.0


From 941b9e89c4c1f85bac2bad3258a72d5d08a1a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:44 +0000
Subject: [PATCH 05/11] fix: allow to retry the reading into an interface{}
 after a reader error

When the reader failed before the value was reached, reading into the same
interface{} again at the same location was reported as eface looping.
---
 val_decoder_native_interface.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 4f7fe3f..8d62870 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -45,6 +45,8 @@ func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 	if ef.data == nil {
 		// the pointer is a nil pointer
 		// or the element is a nil typed pointer (kinda tricky here)
+		// no more nested eface from here
+		it.lastEfacePtr = 0
 		o, err := it.Read()
 		if err != nil {
 			return err
@@ -61,6 +63,8 @@ func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		 *   var o interface{} = 1
 		 *   Unmarshal(`"string"`, &o)
 		 */
+		// no more nested eface from here
+		it.lastEfacePtr = 0
 		o, err := it.Read()
 		if err != nil {
 			return err
@@ -71,6 +75,7 @@ func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 	// obj is pointer
 	c, err := it.nextToken()
 	if err != nil {
+		it.lastEfacePtr = 0
 		return err
 	}
 	ptrElemType := typ.Elem()
-- 
2.43.0


From 3735db87731e92ceac1a607bfcfddfea7ec5646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:09 +0000
Subject: [PATCH 06/11] fix: do not keep the consumed data in the buffer when
 every read is captured

A stream decoded only through captures (SkipRaw, json.RawMessage,
json.Unmarshaler, json.Number, base64) kept all its bytes in the buffer of the
iterator whenever no value ended exactly at the end of a read.
---
 iterator.go                 | 16 ++++++++++++++++
 iterator_number.go          |  9 +++++----
 iterator_raw.go             |  3 +--
 val_decoder_native_slice.go |  8 ++++----
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/iterator.go b/iterator.go
index ffb734c..146d8ca 100644
--- a/iterator.go
+++ b/iterator.go
@@ -187,6 +187,22 @@ func (it *Iterator) readMore() error {
 	}
 }
 
+// startCapture makes readMore keep the data of the buffer from the current head,
+// the previous capture state is returned
+func (it *Iterator) startCapture() (oldCapture bool) {
+	oldCapture = it.capture
+	if !oldCapture && it.reader != nil && it.head > it.tail-it.head {
+		// nothing before the head is needed anymore, without this the
+		// buffer would grow for ever when all the reads are captured
+		n := copy(it.buffer, it.buffer[it.head:it.tail])
+		it.offset += it.head
+		it.head = 0
+		it.tail = n
+	}
+	it.capture = true
+	return
+}
+
 // will NOT skip whitespaces
 // will NOT consume the character
 // will report error on EOF
diff --git a/iterator_number.go b/iterator_number.go
index 390412b..b9043ab 100644
--- a/iterator_number.go
+++ b/iterator_number.go
@@ -3,12 +3,13 @@ package jzon
 // it.head has already be forwarded before calling this
 func (it *Iterator) readNumberAsString(c byte) (n string, err error) {
 	// start capture
-	oldCapture := it.capture
-	it.capture = true
+	// going back is a safe operation because the c is still in the buffer
+	it.head--
+	oldCapture := it.startCapture()
 
 	// save current location
-	// this should be a safe operation because the c is still in the buffer
-	begin := it.head - 1
+	begin := it.head
+	it.head++
 	err = skipNumber(it, c)
 	if err == nil {
 		n = string(it.buffer[begin:it.head])
diff --git a/iterator_raw.go b/iterator_raw.go
index b874c8c..11f1848 100644
--- a/iterator_raw.go
+++ b/iterator_raw.go
@@ -8,8 +8,7 @@ func (it *Iterator) SkipRaw() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	oldCapture := it.capture
-	it.capture = true
+	oldCapture := it.startCapture()
 	begin := it.head
 	it.head++
 	err = skipFunctions[c](it, c)
diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index b9c9e40..c6066cc 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -56,13 +56,13 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		}
 		it.head++
 		// TODO: improve by checking only base64 characters
+		oldCapture := it.startCapture()
 		begin := it.head
-		oldCapture := it.capture
-		it.capture = true
-		if err := skipString(it, c); err != nil {
+		err := skipString(it, c)
+		it.capture = oldCapture
+		if err != nil {
 			return err
 		}
-		it.capture = oldCapture
 		buf := it.buffer[begin : it.head-1]
 		data, err := base64.StdEncoding.DecodeString(localByteToString(buf))
 		if err != nil {
-- 
2.43.0


From 7928f6006b626a274327cafcfc34176bfee81743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:44 +0000
Subject: [PATCH 07/11] fix: encode a nil json.RawMessage as null instead of
 writing nothing

---
 val_encoder_json_rawmessage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_json_rawmessage.go b/val_encoder_json_rawmessage.go
index 96b17eb..e771403 100644
--- a/val_encoder_json_rawmessage.go
+++ b/val_encoder_json_rawmessage.go
@@ -16,6 +16,10 @@ func (*jsonRawMessageEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncO
 		return
 	}
 	data := *(*[]byte)(ptr)
+	if data == nil {
+		s.Null()
+		return
+	}
 	// TODO: raw message validation?
 	s.Raw(data)
 }
-- 
2.43.0


From 73c58ce8748a728595926572aca2677c5588b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:46 +0000
Subject: [PATCH 08/11] fix: a captured read without data must not truncate the
 buffer

With an empty window (opening quote of a base64 string at the end of the
buffer) the buffer was left with a length of zero when the reader failed,
and the next read looped for ever.
---
 iterator.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/iterator.go b/iterator.go
index 146d8ca..a4a18c7 100644
--- a/iterator.go
+++ b/iterator.go
@@ -158,10 +158,12 @@ func (it *Iterator) readMore() error {
 		if it.capture {
 			var buf [bufferSize]byte
 			n, err = it.reader.Read(buf[:])
-			it.buffer = append(it.buffer[:it.tail], buf[:n]...)
-			it.tail += n
-			// save internal buffer for reuse
-			it.fixbuf = it.buffer
+			if n > 0 {
+				it.buffer = append(it.buffer[:it.tail], buf[:n]...)
+				it.tail += n
+				// save internal buffer for reuse
+				it.fixbuf = it.buffer
+			}
 		} else {
 			if jzonDebug {
 				if it.head != it.tail {
-- 
2.43.0


From 395b5578767930fc6ca285d564d4f23a00471f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:37 +0000
Subject: [PATCH 09/11] fix: detect interface loops that are entered from
 outside

When the first pointer met is not part of the loop (o1 = &o2, o2 = &o3,
o3 = &o2), it was never met again and the decoding recursed until the
stack overflowed.
---
 iterator.go                     |  2 ++
 val_decoder_native_interface.go | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/iterator.go b/iterator.go
index a4a18c7..4171d09 100644
--- a/iterator.go
+++ b/iterator.go
@@ -26,6 +26,8 @@ type iteratorEmbedded struct {
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
+	efaceSteps      uint // pointers met since the checkpoint
+	efaceLimit      uint // when to move the checkpoint
 
 	// TODO: 1. type of context?
 	// TODO: 2. should context be reset as well?
diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 8d62870..448b92c 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -21,11 +21,26 @@ func (dec *efaceDecoder) checkLoop(ptr unsafe.Pointer, it *Iterator) bool {
 		// - the iterator moved
 		it.lastEfacePtr = uptr
 		it.lastEfaceOffset = curOffset
+		it.efaceSteps = 0
+		it.efaceLimit = 1
 		return true
 	}
-	// the iterator didn't move, check the pointer we first met
+	// the iterator didn't move, check the pointer recorded
 	// at this location
-	return uptr != it.lastEfacePtr
+	if uptr == it.lastEfacePtr {
+		return false
+	}
+	// the recorded pointer may be outside of the loop:
+	//   o1 = &o2
+	//   o2 = &o3
+	//   o3 = &o2
+	// so it has to move from time to time (Brent's algorithm)
+	if it.efaceSteps++; it.efaceSteps == it.efaceLimit {
+		it.lastEfacePtr = uptr
+		it.efaceSteps = 0
+		it.efaceLimit *= 2
+	}
+	return true
 }
 
 func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
-- 
2.43.0


From b513938c435d3d7f2992cc7b10fc41be4b5c3c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:34 +0000
Subject: [PATCH 10/11] fix: a Decoder on a bytes.Buffer must consume it and
 see later writes

---
 decoder_config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder_config.go b/decoder_config.go
index 339e1d3..3d05412 100644
--- a/decoder_config.go
+++ b/decoder_config.go
@@ -1,6 +1,7 @@
 package jzon
 
 import (
+	"bytes"
 	"io"
 	"reflect"
 	"sync"
@@ -106,6 +107,11 @@ func (decCfg *DecoderConfig) getDecoderFromCache(rType rtype) ValDecoder {
 
 // NewDecoder returns a new decoder that reads from r.
 func (decCfg *DecoderConfig) NewDecoder(r io.Reader) *Decoder {
+	if buf, ok := r.(*bytes.Buffer); ok {
+		// the iterator works directly on the current content of a buffer,
+		// the decoder must consume it and see what is written to it later
+		r = struct{ io.Reader }{buf}
+	}
 	it := decCfg.NewIterator()
 	it.Reset(r)
 	return &Decoder{
-- 
2.43.0


From 4394165c3dce37c601d22339ed5de9cdc7758fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 11/11] fix: a failed read into an interface no longer makes
 the next read report a loop

---
 val_decoder_native_interface.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 448b92c..35f5b50 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -125,6 +125,9 @@ func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 	//   1. obj is pointer
 	//   2. obj != nil
 	if err := it.ReadVal(obj); err != nil {
+		// the iterator may not have moved, but a next read of the
+		// same location is not a loop
+		it.lastEfacePtr = 0
 		return err
 	}
 	*pObj = obj
-- 
2.43.0

