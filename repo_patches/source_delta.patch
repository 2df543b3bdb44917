From 4e3d54a565671167faf185ea21335af9490e7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 01/24] fix: Unmarshal into nil reports InvalidUnmarshalError
 instead of panicking

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8388124..b60e3dc 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -29,7 +29,7 @@ func Unmarshal(data []byte, v any) error {
 func unmarshal(data []byte, v any) error {
 	rv := reflect.ValueOf(v)
 
-	rt := rv.Type()
+	rt := reflect.TypeOf(v)
 
 	if err := validateValue(rv, rt); err != nil {
 		return err
-- 
2.43.0


From d32ef12af150d191fd354d3bff28d6bee8ff8571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 02/24] fix: reject non-scalar keys for maps with empty
 interface keys instead of panicking

---
 internal/decoder/compile.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 8460de8..df7f938 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -136,6 +136,13 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 	if typ.Kind() == reflect.String {
 		return newStringDecoder(structName, fieldName), nil
 	}
+	if typ.Kind() == reflect.Interface && typ.NumMethod() == 0 {
+		// arrays and objects decode to maps, which are not hashable
+		return newInterfaceMapKeyDecoder(
+			newIntDecoder(interfaceIntType, structName, fieldName),
+			newStringDecoder(structName, fieldName),
+		), nil
+	}
 	dec, err := compile(typ, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 279d11b4b0d3b356b87cdf439359fdb65a3a7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 03/24] fix: decode pointer map keys with the pointer decoder
 instead of panicking

---
 internal/decoder/compile.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index df7f938..c29791d 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -148,14 +148,15 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 		return nil, err
 	}
 
+	elemDec := dec
 	for {
-		switch t := dec.(type) {
+		switch t := elemDec.(type) {
 		case *stringDecoder, *interfaceDecoder:
 			return dec, nil
 		case *boolDecoder, *intDecoder, *uintDecoder:
 			return dec, nil
 		case *ptrDecoder:
-			dec = t.dec
+			elemDec = t.dec
 		default:
 			return newInvalidDecoder(typ, structName, fieldName), nil
 		}
-- 
2.43.0


From 52c587e096c867e39c658af07d2daa4b17d1b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 04/24] fix: return an error for array indexes no slice can
 hold instead of panicking

---
 internal/decoder/slice.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index d3a3cbb..4d770b4 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -26,6 +26,9 @@ type sliceHeader struct {
 	cap  int
 }
 
+// maxSliceBytes limits how far a sparse array index can grow a slice.
+const maxSliceBytes = 1 << 32
+
 func newSliceDecoder(dec Decoder, elemType reflect.Type, size uintptr, structName, fieldName string) *sliceDecoder {
 	return &sliceDecoder{
 		valueDecoder:      dec,
@@ -113,6 +116,9 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 				return 0, err
 			}
 
+			if uint64(currentIndex) >= maxSliceBytes/uint64(max(d.size, 1)) {
+				return 0, errors.ErrSyntax("php-serialize: array index too large", cursor)
+			}
 			cursor = end
 			if !hasByte(buf, cursor) {
 				return cursor, errors.ErrUnexpectedEnd("array value", cursor)
-- 
2.43.0


From 21ef547667fddb07b7aa26aadaccd2bd64ba929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 05/24] fix: bound slice and map preallocation by the remaining
 input

---
 internal/decoder/map.go   | 3 ++-
 internal/decoder/slice.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 203a84e..9a4982d 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,8 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(l)))
+		// every element takes more than one byte of input, don't trust a larger length
+		rv.Set(reflect.MakeMapWithSize(d.mapType, int(min(l, int64(len(buf))-cursor))))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index 4d770b4..6d59b2c 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -105,7 +105,8 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, arrLen)
+		// every element takes more than one byte of input, don't trust a larger length
+		slice := reflect.MakeSlice(d.stype, 0, min(arrLen, len(buf)-int(cursor)))
 
 		for {
 			if !hasByte(buf, cursor) {
-- 
2.43.0


From 0595ebe5f1324118c4428b8e7e672aebaf717885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 06/24] fix: cap decoded byte slices so that appending cannot
 overwrite other values

---
 internal/decoder/bytes.go         | 2 +-
 internal/decoder/interface.go     | 2 +-
 internal/decoder/unmarshal_php.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/bytes.go b/internal/decoder/bytes.go
index 3aa3b4e..b36e393 100644
--- a/internal/decoder/bytes.go
+++ b/internal/decoder/bytes.go
@@ -44,7 +44,7 @@ func (d *bytesDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return c, nil
 	}
 	cursor = c
-	rv.SetBytes(bytes)
+	rv.SetBytes(bytes[:len(bytes):len(bytes)])
 	return cursor, nil
 }
 
diff --git a/internal/decoder/interface.go b/internal/decoder/interface.go
index 61e21ed..e1cf67a 100644
--- a/internal/decoder/interface.go
+++ b/internal/decoder/interface.go
@@ -107,7 +107,7 @@ func decodePHPUnmarshaler(buf []byte, cursor, depth int64, unmarshaler Unmarshal
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if bytes.Equal(src, nullbytes) {
 		rv.SetZero()
 		return end, nil
diff --git a/internal/decoder/unmarshal_php.go b/internal/decoder/unmarshal_php.go
index f276c9a..89850ac 100644
--- a/internal/decoder/unmarshal_php.go
+++ b/internal/decoder/unmarshal_php.go
@@ -49,7 +49,7 @@ func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, r
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if len(src) > 0 {
 		switch src[0] {
 		case '[':
-- 
2.43.0


From c08d3641e428d8ddc9113cd893c7c0df627f5c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 07/24] fix: null resets byte slices like it resets every other
 slice

---
 internal/decoder/bytes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/decoder/bytes.go b/internal/decoder/bytes.go
index b36e393..2c7939f 100644
--- a/internal/decoder/bytes.go
+++ b/internal/decoder/bytes.go
@@ -41,6 +41,9 @@ func (d *bytesDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, err
 	}
 	if bytes == nil {
+		if ctx.Buf[cursor] == 'N' {
+			rv.SetZero()
+		}
 		return c, nil
 	}
 	cursor = c
-- 
2.43.0


From 287776cfec6ed20379922a2cc44974e4081f3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 08/24] fix: encode nil pointers and interfaces of custom
 marshalers as null instead of panicking

---
 internal/encoder/marshal_php.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 8fff89a..b929505 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -12,6 +12,9 @@ type Marshaler interface {
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+		if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
+			return appendNull(b), nil
+		}
 		raw, err := rv.Interface().(Marshaler).MarshalPHP()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 0e3146058d70bfb940f7e66feb1a11f9afb539fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 09/24] fix: use pointer receiver marshalers of pointer struct
 fields

---
 internal/encoder/struct.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 873da8b..a904405 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -141,15 +141,9 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				fieldEncoder, err = compileAsString(field.Type)
 			}
 		} else {
-			if field.Type.Kind() == reflect.Ptr {
-				fieldEncoder, err = compile(field.Type.Elem(), seen)
-				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
-					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
-					isPtrField = false
-				}
-			} else {
-				fieldEncoder, err = compile(field.Type, seen)
-			}
+			// the encoder of a pointer type handles nil and custom marshalers itself
+			fieldEncoder, err = compile(field.Type, seen)
+			isPtrField = false
 		}
 
 		if err != nil {
-- 
2.43.0


From 10162fd398bd1984a262061e1439515cf1f28a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 10/24] fix: use custom marshalers of struct fields with the
 string option

---
 internal/encoder/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index a904405..ef2ae50 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -134,7 +134,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 			}
 		}
 
-		if cfg.IsString {
+		if cfg.IsString && !field.Type.Implements(marshalerType) {
 			if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compileAsString(field.Type.Elem())
 			} else {
-- 
2.43.0


From 48875eb69db55c628e8c96348deac286cc5179f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 11/24] fix: use custom marshalers of every value stored in an
 interface

---
 internal/encoder/interface.go   | 14 ++++++++++++++
 internal/encoder/marshal_php.go | 22 ++++++++++++----------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 65c919f..bf934fa 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -21,12 +21,19 @@ LOOP:
 			if rv.IsNil() || rv.IsZero() {
 				return appendNull(b), nil
 			}
+			if rv.Type().Implements(marshalerType) {
+				return encodeMarshaler(ctx, b, rv)
+			}
 			rv = rv.Elem()
 		default:
 			break LOOP
 		}
 	}
 
+	if rv.Type().Implements(marshalerType) {
+		return encodeMarshaler(ctx, b, rv)
+	}
+
 	// simple type
 	switch rv.Type().Kind() {
 	case reflect.Bool:
@@ -80,12 +87,19 @@ LOOP:
 			if rv.IsNil() || rv.IsZero() {
 				return appendNull(b), nil
 			}
+			if rv.Type().Implements(marshalerType) {
+				return encodeMarshaler(ctx, b, rv)
+			}
 			rv = rv.Elem()
 		default:
 			break LOOP
 		}
 	}
 
+	if rv.Type().Implements(marshalerType) {
+		return encodeMarshaler(ctx, b, rv)
+	}
+
 	switch value := rv.Interface().(type) {
 	case bool:
 		return appendBoolAsString(b, value)
diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index b929505..aa8ff99 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -11,15 +11,17 @@ type Marshaler interface {
 }
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-		if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
-			return appendNull(b), nil
-		}
-		raw, err := rv.Interface().(Marshaler).MarshalPHP()
-		if err != nil {
-			return nil, err
-		}
+	return encodeMarshaler, nil
+}
+
+func encodeMarshaler(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
+		return appendNull(b), nil
+	}
+	raw, err := rv.Interface().(Marshaler).MarshalPHP()
+	if err != nil {
+		return nil, err
+	}
 
-		return append(b, raw...), nil
-	}, nil
+	return append(b, raw...), nil
 }
-- 
2.43.0


From 514efea4ccdd038b65581a9021d89ef759fd7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 12/24] fix: encode custom marshaler interfaces holding nil
 pointers as null instead of panicking

---
 internal/encoder/marshal_php.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index aa8ff99..7fda3a8 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -15,7 +15,10 @@ func compileMarshaler(rt reflect.Type) (encoder, error) {
 }
 
 func encodeMarshaler(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-	if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
+	if rv.Kind() == reflect.Interface {
+		rv = rv.Elem()
+	}
+	if !rv.IsValid() || (rv.Kind() == reflect.Ptr && rv.IsNil()) {
 		return appendNull(b), nil
 	}
 	raw, err := rv.Interface().(Marshaler).MarshalPHP()
-- 
2.43.0


From 79d113600b2b570540bd408838271e0a0b29c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 13/24] fix: encode arrays stored in interfaces

---
 internal/encoder/array.go     | 9 +++++++++
 internal/encoder/interface.go | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 32ca216..6883ad1 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -4,6 +4,15 @@ import (
 	"reflect"
 )
 
+func reflectArray(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	enc, err := compileWithCache(rv.Type())
+	if err != nil {
+		return nil, err
+	}
+
+	return enc(ctx, b, rv)
+}
+
 func compileArray(rt reflect.Type) (encoder, error) {
 	length := rt.Len()
 	i64 := int64(length)
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index bf934fa..3731e87 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -57,6 +57,8 @@ LOOP:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
 	case reflect.Struct:
 		return reflectStruct(ctx, b, rv)
+	case reflect.Array:
+		return reflectArray(ctx, b, rv)
 	}
 
 	return b, &UnsupportedInterfaceTypeError{rv.Type()}
-- 
2.43.0


From 2b92074c62effbd70b895549104ae4d16911dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 14/24] fix: reject anonymous struct pointers when encoding, as
 decoding does

---
 internal/encoder/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index ef2ae50..67c8d78 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -129,7 +129,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		}
 
 		if field.Anonymous {
-			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Kind() == reflect.Struct) {
+			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Elem().Kind() == reflect.Struct) {
 				return nil, fmt.Errorf("supported for Anonymous struct field has been removed: %s", field.Type.String())
 			}
 		}
-- 
2.43.0


From 4e9f18eafdafc469b51f08952d4c8d623ea4a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 15/24] fix: encode fields whose key is - followed by options,
 as decoding reads them

---
 internal/encoder/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 67c8d78..b0cfe8e 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -113,7 +113,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 	for i := 0; i < rt.NumField(); i++ {
 		field := rt.Field(i)
 		cfg := runtime.StructTagFromField(field)
-		if cfg.Key == "-" || !cfg.Field.IsExported() {
+		if runtime.IsIgnoredStructField(field) {
 			continue
 		}
 
-- 
2.43.0


From 5ccedd2a2c9837a5b835207a32e700bfb8a8e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 16/24] fix: don't report deeply nested slices stored in
 interfaces as recursive

---
 internal/encoder/interface.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 3731e87..3f064a6 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -52,6 +52,10 @@ LOOP:
 
 	switch rv.Kind() {
 	case reflect.Slice:
+		if rv.Type().Elem().Kind() != reflect.Interface {
+			// the compiled slice encoder tracks recursive values itself
+			return reflectConcreteSlice(ctx, b, rv)
+		}
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
-- 
2.43.0


From b905c368515cf9777c085ccacb6d8ddd79865386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 17/24] fix: don't report slices sharing an address with an
 enclosing slice as recursive

---
 internal/encoder/context.go   | 21 +++++++++++++++++++--
 internal/encoder/interface.go |  8 ++++----
 internal/encoder/ptr.go       | 16 ++++++++--------
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/internal/encoder/context.go b/internal/encoder/context.go
index 70f7717..1fc1b67 100644
--- a/internal/encoder/context.go
+++ b/internal/encoder/context.go
@@ -1,6 +1,7 @@
 package encoder
 
 import (
+	"reflect"
 	"sync"
 	"unsafe"
 )
@@ -10,17 +11,33 @@ var ctxPool = sync.Pool{
 		return &Ctx{
 			Buf:         make([]byte, 0, 1024),
 			smallBuffer: make([]byte, 0, 20),
-			Seen:        make(map[unsafe.Pointer]empty, 100),
+			Seen:        make(map[seenKey]empty, 100),
 		}
 	},
 }
 
 type empty struct{}
 
+// seenKey identifies a value being encoded. Different values may share an address:
+// a slice and its prefix, or a struct and its first field.
+type seenKey struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
+}
+
+func newSeenKey(rv reflect.Value) seenKey {
+	key := seenKey{typ: rv.Type(), ptr: rv.UnsafePointer()}
+	if rv.Kind() == reflect.Slice {
+		key.len = rv.Len()
+	}
+	return key
+}
+
 type Ctx struct {
 	smallBuffer []byte // a small buffer to encode float and time.Time as string
 	Buf         []byte
-	Seen        map[unsafe.Pointer]empty
+	Seen        map[seenKey]empty
 	StackDepth  uint
 }
 
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 3f064a6..9ed5a9a 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -69,13 +69,13 @@ LOOP:
 }
 
 func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
-	ptr := rv.UnsafePointer()
-	if _, seen := ctx.Seen[ptr]; seen {
+	key := newSeenKey(rv)
+	if _, seen := ctx.Seen[key]; seen {
 		return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 	}
-	ctx.Seen[ptr] = empty{}
+	ctx.Seen[key] = empty{}
 	b, err := enc(ctx, b, rv)
-	delete(ctx.Seen, ptr)
+	delete(ctx.Seen, key)
 	return b, err
 }
 
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index aed0db2..d6cf545 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -57,19 +57,19 @@ func checkStructRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		key := newSeenKey(rv)
 		if tracked {
-			_, seen := ctx.Seen[ptr]
+			_, seen := ctx.Seen[key]
 			if seen {
 				ctx.StackDepth--
 				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 			}
-			ctx.Seen[ptr] = empty{}
+			ctx.Seen[key] = empty{}
 		}
 
 		b, err := enc(ctx, b, rv.Elem())
 		if tracked {
-			delete(ctx.Seen, ptr)
+			delete(ctx.Seen, key)
 		}
 		ctx.StackDepth--
 
@@ -85,20 +85,20 @@ func checkRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		key := newSeenKey(rv)
 		if tracked {
-			_, seen := ctx.Seen[ptr]
+			_, seen := ctx.Seen[key]
 			if seen {
 				ctx.StackDepth--
 				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 			}
 
-			ctx.Seen[ptr] = empty{}
+			ctx.Seen[key] = empty{}
 		}
 
 		b, err := enc(ctx, b, rv)
 		if tracked {
-			delete(ctx.Seen, ptr)
+			delete(ctx.Seen, key)
 		}
 		ctx.StackDepth--
 
-- 
2.43.0


From bb13c5e0c2b3ba1614c0baeb5d29f7b3b326f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 18/24] fix: report pointers stored in interfaces that form a
 cycle as recursive

---
 internal/encoder/interface.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 9ed5a9a..90c4904 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -24,6 +24,10 @@ LOOP:
 			if rv.Type().Implements(marshalerType) {
 				return encodeMarshaler(ctx, b, rv)
 			}
+			if rv.Kind() == reflect.Ptr {
+				// pointers may form a cycle
+				return reflectRecursiveValue(ctx, b, rv, reflectPtr)
+			}
 			rv = rv.Elem()
 		default:
 			break LOOP
@@ -68,6 +72,14 @@ LOOP:
 	return b, &UnsupportedInterfaceTypeError{rv.Type()}
 }
 
+func reflectPtr(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	return reflectInterfaceValue(ctx, b, rv.Elem())
+}
+
+func reflectPtrAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	return reflectInterfaceValueAsString(ctx, b, rv.Elem())
+}
+
 func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
 	key := newSeenKey(rv)
 	if _, seen := ctx.Seen[key]; seen {
@@ -96,6 +108,10 @@ LOOP:
 			if rv.Type().Implements(marshalerType) {
 				return encodeMarshaler(ctx, b, rv)
 			}
+			if rv.Kind() == reflect.Ptr {
+				// pointers may form a cycle
+				return reflectRecursiveValue(ctx, b, rv, reflectPtrAsString)
+			}
 			rv = rv.Elem()
 		default:
 			break LOOP
-- 
2.43.0


From 497273e50072c704f0e3bcdea6e6d05dcd7fb694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 19/24] fix: report pointers to arrays that form a cycle as
 recursive

---
 internal/encoder/ptr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index d6cf545..c21138c 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -29,6 +29,9 @@ func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		enc, err := compileStruct(rt.Elem(), seen)
 		return checkStructRecursiveEncoder(enc), err
+	case reflect.Array:
+		enc, err := compile(rt.Elem(), seen)
+		return checkStructRecursiveEncoder(enc), err
 	}
 
 	enc, err := compile(rt.Elem(), seen)
-- 
2.43.0


From 0480b363583a421898187d6af73e7e1e9a7e96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 20/24] fix: encode types that are recursive through arrays
 instead of overflowing the stack

---
 internal/encoder/array.go   | 18 +++++++++++++-----
 internal/encoder/compile.go |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 6883ad1..51c21bf 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -13,25 +13,31 @@ func reflectArray(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 	return enc(ctx, b, rv)
 }
 
-func compileArray(rt reflect.Type) (encoder, error) {
+func compileArray(rt reflect.Type, seen compileSeenMap) (encoder, error) {
+	if recursiveEnc, exists := seen[rt]; exists {
+		return recursiveEnc.Encode, nil
+	}
+	recursiveEnc := &structRecEncoder{}
+	seen[rt] = recursiveEnc
+
 	length := rt.Len()
 	i64 := int64(length)
 	var enc encoder
 	var err error
 
 	if rt.Elem().Kind() == reflect.Map {
-		enc, err = compileWithCache(rt.Elem())
+		enc, err = compile(rt.Elem(), seen)
 		if err != nil {
 			return nil, err
 		}
 	} else {
-		enc, err = compileWithCache(rt.Elem())
+		enc, err = compile(rt.Elem(), seen)
 		if err != nil {
 			return nil, err
 		}
 	}
 
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	recursiveEnc.enc = func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		b = appendArrayBegin(b, i64)
 
 		var err error // create a new error value, so shadow compiler's error
@@ -44,5 +50,7 @@ func compileArray(rt reflect.Type) (encoder, error) {
 		}
 
 		return append(b, '}'), nil
-	}, nil
+	}
+
+	return recursiveEnc.Encode, nil
 }
diff --git a/internal/encoder/compile.go b/internal/encoder/compile.go
index 39f32d6..c5030c2 100644
--- a/internal/encoder/compile.go
+++ b/internal/encoder/compile.go
@@ -36,7 +36,7 @@ func compile(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		return compileStruct(rt, seen)
 	case reflect.Array:
-		return compileArray(rt)
+		return compileArray(rt, seen)
 	case reflect.Slice:
 		return compileSlice(rt, seen)
 	case reflect.Map:
-- 
2.43.0


From bd7141a8afca483d0ade65072bf645135caa7565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 21/24] fix: decode into types that are recursive through
 slices, maps and arrays instead of overflowing the stack

---
 internal/decoder/compile.go | 38 ++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index c29791d..13f908d 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"sync/atomic"
 
+	phperrors "github.com/trim21/go-phpserialize/internal/errors"
 	"github.com/trim21/go-phpserialize/internal/runtime"
 )
 
@@ -68,11 +69,11 @@ func compile(rt reflect.Type, structName, fieldName string, structTypeToDecoder
 		if elem.Kind() == reflect.Uint8 {
 			return compileBytes(elem, structName, fieldName)
 		}
-		return compileSlice(rt, structName, fieldName, structTypeToDecoder)
+		return compileRecursive(compileSlice, rt, structName, fieldName, structTypeToDecoder)
 	case reflect.Array:
-		return compileArray(rt, structName, fieldName, structTypeToDecoder)
+		return compileRecursive(compileArray, rt, structName, fieldName, structTypeToDecoder)
 	case reflect.Map:
-		return compileMap(rt, structName, fieldName, structTypeToDecoder)
+		return compileRecursive(compileMap, rt, structName, fieldName, structTypeToDecoder)
 	case reflect.Interface:
 		return compileInterface(rt, structName, fieldName)
 	case reflect.Uintptr:
@@ -163,7 +164,38 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 	}
 }
 
+// recursiveDecoder stands in for the decoder of a container type that is still being compiled.
+type recursiveDecoder struct {
+	dec Decoder
+}
+
+func (d *recursiveDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
+	return d.dec.Decode(ctx, cursor, depth, rv)
+}
+
+type compileFunc func(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error)
+
+func compileRecursive(compileContainer compileFunc, typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
+	recursiveDec := &recursiveDecoder{}
+	structTypeToDecoder[typ] = recursiveDec
+
+	dec, err := compileContainer(typ, structName, fieldName, structTypeToDecoder)
+	if err != nil {
+		return nil, err
+	}
+	recursiveDec.dec = dec
+	delete(structTypeToDecoder, typ)
+
+	return dec, nil
+}
+
 func compilePtr(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if typ.Elem().Kind() == reflect.Ptr {
+		return nil, &phperrors.UnsupportedTypeError{Type: typ}
+	}
 	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 19fc4c843f7dcb41cf96476db8df4c1727bc8a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 22/24] fix: accept the string option on string fields when
 decoding, as encoding does

---
 internal/decoder/wrapped_string.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/decoder/wrapped_string.go b/internal/decoder/wrapped_string.go
index b467272..a341475 100644
--- a/internal/decoder/wrapped_string.go
+++ b/internal/decoder/wrapped_string.go
@@ -31,6 +31,8 @@ func newWrappedStringDecoder(typ reflect.Type, dec Decoder, structName, fieldNam
 		innerDec = newStringUintDecoder(structName, fieldName, v)
 	case *intDecoder:
 		innerDec = newStringIntDecoder(structName, fieldName, v)
+	case *stringDecoder:
+		return dec, nil
 	case *ptrDecoder:
 		err := v.wrapString()
 		return dec, err
-- 
2.43.0


From 8447387aa3d07cf0dbed533247304d36758ff55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 23/24] fix: encode strings and named scalars stored in
 interfaces with the string option

---
 internal/encoder/interface.go | 40 ++++++++++++-----------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 90c4904..79e151a 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -122,33 +122,19 @@ LOOP:
 		return encodeMarshaler(ctx, b, rv)
 	}
 
-	switch value := rv.Interface().(type) {
-	case bool:
-		return appendBoolAsString(b, value)
-	case uint8:
-		return appendUintAsString(b, uint64(value))
-	case uint16:
-		return appendUintAsString(b, uint64(value))
-	case uint32:
-		return appendUintAsString(b, uint64(value))
-	case uint64:
-		return appendUintAsString(b, uint64(value))
-	case uint:
-		return appendUintAsString(b, uint64(value))
-	case int8:
-		return appendIntAsString(b, int64(value))
-	case int16:
-		return appendIntAsString(b, int64(value))
-	case int32:
-		return appendIntAsString(b, int64(value))
-	case int64:
-		return appendIntAsString(b, int64(value))
-	case int:
-		return appendIntAsString(b, int64(value))
-	case float32:
-		return appendFloat32AsString(ctx.smallBuffer[:0], b, value), nil
-	case float64:
-		return appendFloat64AsString(ctx.smallBuffer[:0], b, value), nil
+	switch rv.Kind() {
+	case reflect.Bool:
+		return appendBoolAsString(b, rv.Bool())
+	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
+		return appendUintAsString(b, rv.Uint())
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
+		return appendIntAsString(b, rv.Int())
+	case reflect.Float32:
+		return appendFloat32AsString(ctx.smallBuffer[:0], b, float32(rv.Float())), nil
+	case reflect.Float64:
+		return appendFloat64AsString(ctx.smallBuffer[:0], b, rv.Float()), nil
+	case reflect.String:
+		return encodeString(ctx, b, rv)
 	}
 
 	// slice, map and struct as interface are not supported yet.
-- 
2.43.0


From cf6fb5d3f7a19110496821ab8645a2110bd5fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 24/24] fix: encode named pointer types to a Marshaler with the
 Marshaler

---
 internal/encoder/marshal_php.go | 5 +++++
 internal/encoder/ptr.go         | 5 +++++
 internal/encoder/struct.go      | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 7fda3a8..6d62479 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -10,6 +10,11 @@ type Marshaler interface {
 	MarshalPHP() ([]byte, error)
 }
 
+// implementsMarshaler reports whether values of type rt, or what they point to, are encoded by [Marshaler].
+func implementsMarshaler(rt reflect.Type) bool {
+	return rt.Implements(marshalerType) || (rt.Kind() == reflect.Ptr && rt.Elem().Implements(marshalerType))
+}
+
 func compileMarshaler(rt reflect.Type) (encoder, error) {
 	return encodeMarshaler, nil
 }
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index c21138c..385037a 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -6,6 +6,11 @@ import (
 )
 
 func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
+	// a named pointer type doesn't have the methods of its base type
+	if rt.Elem().Implements(marshalerType) {
+		return deRefNilEncoder(encodeMarshaler), nil
+	}
+
 	switch rt.Elem().Kind() {
 	case reflect.Ptr:
 		return nil, fmt.Errorf("encoding nested ptr is not supported *%s", rt.Elem().String())
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index b0cfe8e..f928e7c 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -134,7 +134,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 			}
 		}
 
-		if cfg.IsString && !field.Type.Implements(marshalerType) {
+		if cfg.IsString && !implementsMarshaler(field.Type) {
 			if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compileAsString(field.Type.Elem())
 			} else {
-- 
2.43.0

