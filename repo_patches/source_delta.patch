From 141d6ebcf6dd8f765c376ad15c2763272a204795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 01/27] fix: escape the text returned by MarshalText

---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 7525b1f..8ec81b8 100644
--- a/encode.go
+++ b/encode.go
@@ -716,13 +716,13 @@ func encodeJSONMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type
 	return appendCompactJSON(dst, b, !opts.flags.has(noHTMLEscaping))
 }
 
-func encodeTextMarshaler(i interface{}, dst []byte, _ encOpts, t reflect.Type) ([]byte, error) {
+func encodeTextMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type) ([]byte, error) {
 	b, err := i.(encoding.TextMarshaler).MarshalText()
 	if err != nil {
 		return dst, &MarshalerError{t, err, marshalerText}
 	}
 	dst = append(dst, '"')
-	dst = append(dst, b...)
+	dst = appendEscapedBytes(dst, b, opts)
 	dst = append(dst, '"')
 
 	return dst, nil
-- 
2.43.0


From 7741d9c21145df042bf6d681464893e73d3ecae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 02/27] fix: treat every pointer-shaped type as stored directly
 in interfaces

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index b4aaab4..1e5eb58 100644
--- a/types.go
+++ b/types.go
@@ -70,8 +70,12 @@ func isInlined(t reflect.Type) bool {
 	switch t.Kind() {
 	case reflect.Ptr, reflect.Map:
 		return true
+	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
+		return true
 	case reflect.Struct:
 		return t.NumField() == 1 && isInlined(t.Field(0).Type)
+	case reflect.Array:
+		return t.Len() == 1 && isInlined(t.Elem())
 	default:
 		return false
 	}
-- 
2.43.0


From 854e779e0f9f7cb371d41ede81653dbe5f9b8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 03/27] fix: load the data word of pointer-shaped marshalers
 other than pointers

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 8ec81b8..18dca3e 100644
--- a/encode.go
+++ b/encode.go
@@ -671,7 +671,7 @@ func encodeMarshaler(
 			i = *(*interface{ M() })(p)
 		}
 	} else {
-		i = packEface(p, t, t.Kind() == reflect.Ptr && !canAddr)
+		i = packEface(p, t, !canAddr && isInlined(t))
 	}
 	return fn(i, dst, opts, t)
 }
-- 
2.43.0


From 087ac44470397126019e21c95e638ce48f355915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 04/27] fix: read interfaces with methods using their own
 layout

---
 encode.go      | 8 ++++++++
 instruction.go | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/encode.go b/encode.go
index 18dca3e..de41344 100644
--- a/encode.go
+++ b/encode.go
@@ -73,6 +73,14 @@ func encodeInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error)
 	return ins(unpackEface(v).word, dst, opts)
 }
 
+// encodeMethodInterface is similar to encodeInterface,
+// but operates on interfaces that have methods, which
+// have a different layout than the empty interface.
+func encodeMethodInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	var v interface{} = *(*interface{ M() })(p)
+	return encodeInterface(unsafe.Pointer(&v), dst, opts)
+}
+
 func encodeNumber(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	// Cast pointer to string directly to avoid
 	// a useless conversion.
diff --git a/instruction.go b/instruction.go
index 138d7d2..5077d86 100644
--- a/instruction.go
+++ b/instruction.go
@@ -99,6 +99,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	}
 	switch t.Kind() {
 	case reflect.Interface:
+		if t.NumMethod() != 0 {
+			return encodeMethodInterface
+		}
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
-- 
2.43.0


From ecfd6fef4a4dbd8b6e54a1c7674be858ae6d6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 05/27] fix: support recursive named slice, array, map and
 pointer types

---
 instruction.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/instruction.go b/instruction.go
index 5077d86..5393c6d 100644
--- a/instruction.go
+++ b/instruction.go
@@ -11,6 +11,7 @@ import (
 var (
 	instrCachePtr    unsafe.Pointer // *instrCache
 	structInstrCache sync.Map       // map[string]instruction
+	namedInstrCache  sync.Map       // map[string]instruction
 )
 
 // An instruction appends the JSON representation
@@ -97,6 +98,43 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	if ins := newBasicTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
+	// A named type can be recursive without passing
+	// through a struct (e.g. type T []T).
+	if t.Name() != "" {
+		switch t.Kind() {
+		case reflect.Map, reflect.Slice, reflect.Array, reflect.Ptr:
+			return newNamedInstr(t, canAddr, quoted)
+		}
+	}
+	return newCompositeInstr(t, canAddr, quoted)
+}
+
+// newNamedInstr returns an instruction to encode the
+// named composite type t. The real instruction is only
+// generated when it is first used, so that a recursive
+// type may refer to its own instruction.
+func newNamedInstr(t reflect.Type, canAddr, quoted bool) instruction {
+	id := fmt.Sprintf("%p-%t-%t", typeID(t), canAddr, quoted)
+
+	if instr, ok := namedInstrCache.Load(id); ok {
+		return instr.(instruction)
+	}
+	var (
+		once sync.Once
+		ins  instruction
+	)
+	i, _ := namedInstrCache.LoadOrStore(id,
+		instruction(func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+			once.Do(func() { ins = newCompositeInstr(t, canAddr, quoted) })
+			return ins(p, dst, opts)
+		}),
+	)
+	return i.(instruction)
+}
+
+// newCompositeInstr returns an instruction to encode
+// a type that is neither a marshaler nor a basic type.
+func newCompositeInstr(t reflect.Type, canAddr, quoted bool) instruction {
 	switch t.Kind() {
 	case reflect.Interface:
 		if t.NumMethod() != 0 {
-- 
2.43.0


From dbfa59e339c6f26f8dc009480860b892bade4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 06/27] fix: fields promoted through an embedded pointer are
 addressable

---
 instruction.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index 5393c6d..6d445e1 100644
--- a/instruction.go
+++ b/instruction.go
@@ -354,7 +354,13 @@ func newStructFieldsInstr(t reflect.Type, canAddr bool) instruction {
 		// Generate instruction and empty func of the field.
 		// Only strings, floats, integers, and booleans
 		// types can be quoted.
-		f.instr = newInstruction(ftyp, canAddr, f.quoted && isBasicType(etyp))
+		// A field reached through an embedded pointer is
+		// addressable even if the struct itself is not.
+		fieldAddr := canAddr
+		for _, s := range f.embedSeq {
+			fieldAddr = fieldAddr || s.indir
+		}
+		f.instr = newInstruction(ftyp, fieldAddr, f.quoted && isBasicType(etyp))
 		if f.omitEmpty {
 			f.empty = cachedEmptyFuncOf(ftyp)
 		}
-- 
2.43.0


From 56010d1cadbbcddd4fddb92b6f0c566b09d4570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 07/27] fix: do not share offset sequences between sibling
 embedded structs

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7d51a22..34080c1 100644
--- a/struct.go
+++ b/struct.go
@@ -304,7 +304,7 @@ func scanFields(f field, fields, next []field, cnt, ncnt typeCount) ([]field, []
 				typ:      typ,
 				name:     typ.Name(),
 				index:    index,
-				embedSeq: append(f.embedSeq, seq{sf.Offset, isPtr}),
+				embedSeq: append(f.embedSeq[:len(f.embedSeq):len(f.embedSeq)], seq{sf.Offset, isPtr}),
 			})
 		}
 	}
-- 
2.43.0


From 78c0febe769f67ec4c0fc942f8df2ad46c8b6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 08/27] fix: keep the object valid when omitnil drops the first
 null marshaler

---
 encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index de41344..2649112 100644
--- a/encode.go
+++ b/encode.go
@@ -245,7 +245,7 @@ fieldLoop:
 		if noHTMLEscape {
 			key = f.keyNonEsc
 		}
-		lastKeyOffset := len(dst)
+		lastKeyOffset, lastNxt := len(dst), nxt
 		dst = append(dst, nxt)
 		if nxt == '{' {
 			lastKeyOffset++
@@ -259,6 +259,10 @@ fieldLoop:
 		}
 		if f.omitNullMarshaler && len(dst) > 4 && bytes.Compare(dst[len(dst)-4:], []byte("null")) == 0 {
 			dst = dst[:lastKeyOffset]
+			// The omitted field was the first one.
+			if nxt = lastNxt; nxt == '{' {
+				dst = dst[:len(dst)-1]
+			}
 		}
 	}
 	if nxt == '{' {
-- 
2.43.0


From df26c8beb666e41569e844d114304b3b5ba17c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 09/27] fix: honor the string tag option for json.Number and
 time.Duration

---
 instruction.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/instruction.go b/instruction.go
index 6d445e1..eedf3f5 100644
--- a/instruction.go
+++ b/instruction.go
@@ -90,6 +90,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	// type implements the TextMarshaler interface, but we
 	// want to use a special instruction instead.
 	if ins := newGoTypeInstr(t); ins != nil {
+		if quoted && (t == jsonNumberType || t == timeDurationType) {
+			return wrapQuotedNumericInstr(t, ins)
+		}
 		return ins
 	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
@@ -469,6 +472,21 @@ func wrapQuotedInstr(ins instruction) instruction {
 	}
 }
 
+// wrapQuotedNumericInstr is similar to wrapQuotedInstr,
+// for instructions of the Go types json.Number, time.Time
+// and time.Duration, for which the options decide whether
+// they are already encoded as a JSON string.
+func wrapQuotedNumericInstr(t reflect.Type, ins instruction) instruction {
+	quotedIns := wrapQuotedInstr(ins)
+	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+		if (t == timeDurationType && opts.durationFmt == DurationString) ||
+			(t == timeTimeType && !opts.flags.has(unixTime)) {
+			return ins(p, dst, opts)
+		}
+		return quotedIns(p, dst, opts)
+	}
+}
+
 func wrapTextMarshalerNilCheck(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		if *(*unsafe.Pointer)(p) == nil {
-- 
2.43.0


From c0914329e69cc2043c577265373ac95fb2af0c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 10/27] fix: escape quoted strings twice so that they can be
 decoded

---
 encode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/encode.go b/encode.go
index 2649112..1e21732 100644
--- a/encode.go
+++ b/encode.go
@@ -43,6 +43,18 @@ func encodeString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 
 //nolint:unparam
 func encodeQuotedString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	if !opts.flags.has(noStringEscaping) {
+		// The JSON string is the content of another one,
+		// its own escape sequences must also be escaped.
+		b, err := encodeString(p, nil, opts)
+		if err != nil {
+			return dst, err
+		}
+		opts.flags.set(noHTMLEscaping) // already done
+		dst = append(dst, '"')
+		dst = appendEscapedBytes(dst, b, opts)
+		return append(dst, '"'), nil
+	}
 	dst = append(dst, `"\"`...)
 	dst = appendEscapedBytes(dst, sp2b(p), opts)
 	dst = append(dst, `\""`...)
-- 
2.43.0


From b5d24866e647f5c3ecfc9d241c40c17cc41f7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 11/27] fix: accept semicolons in field names like
 encoding/json

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 34080c1..3a6c16c 100644
--- a/struct.go
+++ b/struct.go
@@ -10,7 +10,7 @@ import (
 	"unicode"
 )
 
-const validChars = "!#$%&()*+-./:<=>?@[]^_{|}~ "
+const validChars = "!#$%&()*+-./:;<=>?@[]^_{|}~ "
 
 var fieldsCache sync.Map // map[reflect.Type][]field
 
-- 
2.43.0


From 003fda105d9202dc7aa4041423eb6b862afc7547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 12/27] fix: reject a json.RawMessage that is not valid JSON

---
 encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode.go b/encode.go
index 1e21732..813b313 100644
--- a/encode.go
+++ b/encode.go
@@ -119,6 +119,11 @@ func encodeRawMessage(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error
 	if opts.flags.has(noCompact) {
 		return append(dst, v...), nil
 	}
+	if !json.Valid(v) {
+		return dst, &MarshalerError{jsonRawMessageType, &SyntaxError{
+			msg: "json: invalid value",
+		}, marshalerJSON}
+	}
 	return appendCompactJSON(dst, v, !opts.flags.has(noHTMLEscaping))
 }
 
-- 
2.43.0


From bad0bd862563a54a9ae043ae130fadda7d729868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 13/27] fix: encode times of the year zero correctly

---
 encode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/encode.go b/encode.go
index 813b313..bd4646e 100644
--- a/encode.go
+++ b/encode.go
@@ -140,6 +140,10 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	if opts.flags.has(unixTime) {
 		return strconv.AppendInt(dst, t.Unix(), 10), nil
 	}
+	if y == 0 {
+		// The RFC3339 fast path counts days from year one.
+		return appendTimeLayout(dst, t, opts), nil
+	}
 	switch opts.timeLayout {
 	case time.RFC3339:
 		return appendRFC3339Time(t, dst, false), nil
@@ -153,6 +157,14 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	}
 }
 
+// appendTimeLayout appends t to dst as a JSON string
+// formatted according to the layout configured in opts.
+func appendTimeLayout(dst []byte, t time.Time, opts encOpts) []byte {
+	dst = append(dst, '"')
+	dst = t.AppendFormat(dst, opts.timeLayout)
+	return append(dst, '"')
+}
+
 // encodeDuration appends the time.Duration value pointed
 // by p to dst based on the format configured in opts.
 func encodeDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-- 
2.43.0


From a0400421e165d0b95e218b42da1bfe895cff3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 14/27] fix: escape times formatted with a custom layout

---
 encode.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/encode.go b/encode.go
index bd4646e..f0faabc 100644
--- a/encode.go
+++ b/encode.go
@@ -150,18 +150,17 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	case time.RFC3339Nano:
 		return appendRFC3339Time(t, dst, true), nil
 	default:
-		dst = append(dst, '"')
-		dst = t.AppendFormat(dst, opts.timeLayout)
-		dst = append(dst, '"')
-		return dst, nil
+		return appendTimeLayout(dst, t, opts), nil
 	}
 }
 
 // appendTimeLayout appends t to dst as a JSON string
 // formatted according to the layout configured in opts.
 func appendTimeLayout(dst []byte, t time.Time, opts encOpts) []byte {
+	// Neither the layout nor the zone name are
+	// guaranteed to be free of special characters.
 	dst = append(dst, '"')
-	dst = t.AppendFormat(dst, opts.timeLayout)
+	dst = appendEscapedBytes(dst, t.AppendFormat(nil, opts.timeLayout), opts)
 	return append(dst, '"')
 }
 
-- 
2.43.0


From c8acfe3b57d65c7422ed3a45b0f8bd1cc02f3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 15/27] fix: escape U+2028 and U+2029 when UTF-8 coercion is
 disabled

---
 encode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/encode.go b/encode.go
index f0faabc..3f3ffa0 100644
--- a/encode.go
+++ b/encode.go
@@ -926,6 +926,18 @@ func appendEscapedBytes(dst []byte, b []byte, opts encOpts) []byte {
 			i += size
 			continue
 		}
+		// The line and paragraph separators are valid
+		// UTF-8 and are escaped without coercion too.
+		if r == '\u2028' || r == '\u2029' {
+			if at < i {
+				dst = append(dst, b[at:i]...)
+			}
+			dst = append(dst, `\u202`...)
+			dst = append(dst, hex[r&0xF])
+			i += size
+			at = i
+			continue
+		}
 		i += size
 	}
 	if at < len(b) {
-- 
2.43.0


From cbfe4fcf1eac19d93ec30fd6b23de1c979bca1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 16/27] fix: encode sequences of byte-sized append marshalers
 by element

---
 instruction.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/instruction.go b/instruction.go
index eedf3f5..c64f551 100644
--- a/instruction.go
+++ b/instruction.go
@@ -388,7 +388,8 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 	// the encoder's options during marshaling.
 	if etyp.Kind() == reflect.Uint8 {
 		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
+		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) &&
+			!pe.Implements(appendMarshalerType) && !pe.Implements(appendMarshalerCtxType) {
 			isba = true
 		}
 	}
@@ -402,7 +403,8 @@ func newSliceInstr(t reflect.Type) instruction {
 
 	if etyp.Kind() == reflect.Uint8 {
 		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
+		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) &&
+			!pe.Implements(appendMarshalerType) && !pe.Implements(appendMarshalerCtxType) {
 			return encodeByteSlice
 		}
 	}
-- 
2.43.0


From 882e4634933904191049f79ce404bff3b684aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 17/27] fix: encode nil values of a sync.Map as null

---
 json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json.go b/json.go
index 337396f..88b4c85 100644
--- a/json.go
+++ b/json.go
@@ -183,6 +183,9 @@ func marshalJSON(v interface{}, opts encOpts) ([]byte, error) {
 }
 
 func appendJSON(dst []byte, v interface{}, opts encOpts) ([]byte, error) {
+	if v == nil {
+		return append(dst, "null"...), nil // nil value of a sync.Map
+	}
 	ins := cachedInstr(reflect.TypeOf(v))
 	var err error
 	dst, err = ins(unpackEface(v).word, dst, opts)
-- 
2.43.0


From c95b3acf6d2ffe870e46f044041534ce518334bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 18/27] fix: encode map keys as strings following the
 encoding/json precedence

---
 instruction.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/instruction.go b/instruction.go
index c64f551..a45cb74 100644
--- a/instruction.go
+++ b/instruction.go
@@ -434,21 +434,8 @@ func newMapInstr(t reflect.Type) instruction {
 	// The standard library has a strict precedence order
 	// for map key types, defined by the documentation of
 	// the json.Marshal function. That's why we bypass the
-	// newTypeInstr function if key type is string.
-	if isString(kt) {
-		ki = encodeString
-	} else {
-		ki = newInstruction(kt, false, false)
-	}
-	// Wrap the key instruction for types that
-	// do not encode with quotes by default.
-	if !isString(kt) && !kt.Implements(textMarshalerType) {
-		ki = wrapQuotedInstr(ki)
-	}
-	// See issue golang.org/issue/33675 for reference.
-	if kt.Implements(textMarshalerType) && kt.Kind() == reflect.Ptr {
-		ki = wrapTextMarshalerNilCheck(ki)
-	}
+	// newTypeInstr function for the key type.
+	ki = newMapKeyInstr(kt)
 	vi = newInstruction(et, false, false)
 
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
@@ -456,6 +443,28 @@ func newMapInstr(t reflect.Type) instruction {
 	}
 }
 
+// newMapKeyInstr returns an instruction to encode a map
+// key of type t as a JSON string. Strings are used as is,
+// then types that implement encoding.TextMarshaler, then
+// integers. Other marshaler methods do not apply to keys.
+func newMapKeyInstr(t reflect.Type) instruction {
+	switch {
+	case isString(t):
+		return encodeString
+	case t == timeTimeType || t == timeDurationType:
+		return wrapQuotedNumericInstr(t, newGoTypeInstr(t))
+	case t.Implements(textMarshalerType):
+		ins := newTextMarshalerInstr(t, false)
+		// See issue golang.org/issue/33675 for reference.
+		if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
+			ins = wrapTextMarshalerNilCheck(ins)
+		}
+		return ins
+	default:
+		return newBasicTypeInstr(t, true)
+	}
+}
+
 func wrapInlineInstr(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return ins(noescape(unsafe.Pointer(&p)), dst, opts)
-- 
2.43.0


From 84d263fd7283024d5a28ddd3efd0f8d2593fb12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 19/27] fix: encode the keys of a sync.Map like those of a Go
 map

---
 encode.go | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/encode.go b/encode.go
index 3f3ffa0..31512fa 100644
--- a/encode.go
+++ b/encode.go
@@ -641,31 +641,17 @@ func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error)
 	if !isStr && !isInt && !isTxt {
 		return dst, fmt.Errorf("unsupported key of type %s in sync.Map", kt)
 	}
-	var err error
-
-	// Quotes the key if the type is not
-	// encoded with quotes by default.
-	quoted := !isStr && !isTxt
-
-	// Ensure map key precedence for keys of type
-	// string by using the encodeString function
-	// directly instead of the generic appendJSON.
-	if isStr {
-		dst, err = encodeString(unpackEface(key).word, dst, opts)
-		runtime.KeepAlive(key)
-	} else {
-		if quoted {
-			dst = append(dst, '"')
-		}
-		dst, err = appendJSON(dst, key, opts)
+	// Ensure map key precedence by using the same
+	// instruction as the keys of a Go map instead
+	// of the generic appendJSON.
+	ins := newMapKeyInstr(kt)
+	if isInlined(kt) {
+		ins = wrapInlineInstr(ins)
 	}
-	if err != nil {
-		return dst, err
-	}
-	if quoted {
-		dst = append(dst, '"')
-	}
-	return dst, nil
+	dst, err := ins(unpackEface(key).word, dst, opts)
+	runtime.KeepAlive(key)
+
+	return dst, err
 }
 
 func encodeMarshaler(
-- 
2.43.0


From 92cceb4c71150e697cf949459c629a669b71f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 20/27] fix: sort map entries by key before escaping

---
 encode.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 31512fa..7142126 100644
--- a/encode.go
+++ b/encode.go
@@ -465,17 +465,26 @@ func encodeSortedMap(
 	} else {
 		mel = &mapElems{s: make([]kv, 0, ml)}
 	}
+	keyOpts := opts
+	keyOpts.flags.set(noStringEscaping)
+
 	for ; it.key != nil; mapiternext(it) {
 		kv := kv{}
 
 		// Encode the key and store the buffer
 		// portion to use during sort.
-		if buf.B, err = ki(it.key, buf.B, opts); err != nil {
+		if buf.B, err = ki(it.key, buf.B, keyOpts); err != nil {
 			break
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
 
+		// Keys are sorted before they are escaped.
+		off = len(buf.B)
+		buf.B = append(buf.B, '"')
+		buf.B = appendEscapedBytes(buf.B, kv.key, opts)
+		buf.B = append(buf.B, '"')
+
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
 
@@ -582,17 +591,26 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 	} else {
 		mel = &mapElems{s: make([]kv, 0)}
 	}
+	keyOpts := opts
+	keyOpts.flags.set(noStringEscaping)
+
 	sm.Range(func(key, value interface{}) bool {
 		kv := kv{}
 
 		// Encode the key and store the buffer
 		// portion to use during the later sort.
-		if buf.B, err = appendSyncMapKey(buf.B, key, opts); err != nil {
+		if buf.B, err = appendSyncMapKey(buf.B, key, keyOpts); err != nil {
 			return false
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
 
+		// Keys are sorted before they are escaped.
+		off = len(buf.B)
+		buf.B = append(buf.B, '"')
+		buf.B = appendEscapedBytes(buf.B, kv.key, opts)
+		buf.B = append(buf.B, '"')
+
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
 
-- 
2.43.0


From 2e4b258fd8c993ffc479771cd05142650e595ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 21/27] fix: return an error for values that contain themselves

---
 instruction.go | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 options.go     |  5 +++++
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/instruction.go b/instruction.go
index a45cb74..43a6838 100644
--- a/instruction.go
+++ b/instruction.go
@@ -147,13 +147,13 @@ func newCompositeInstr(t reflect.Type, canAddr, quoted bool) instruction {
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
 	case reflect.Map:
-		return newMapInstr(t)
+		return wrapCycleDetection(t, newMapInstr(t))
 	case reflect.Slice:
-		return newSliceInstr(t)
+		return wrapCycleDetection(t, newSliceInstr(t))
 	case reflect.Array:
 		return newArrayInstr(t, canAddr)
 	case reflect.Ptr:
-		return newPtrInstr(t, quoted)
+		return wrapCycleDetection(t, newPtrInstr(t, quoted))
 	}
 	return newUnsupportedTypeInstr(t)
 }
@@ -465,6 +465,47 @@ func newMapKeyInstr(t reflect.Type) instruction {
 	}
 }
 
+// startDetectCyclesAfter is the depth of pointers, maps
+// and slices after which they are checked for cycles.
+const startDetectCyclesAfter = 1000
+
+// ptrID identifies a pointer, a map or a slice.
+type ptrID struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
+}
+
+// wrapCycleDetection wraps the instruction of a pointer,
+// map or slice type to return an error, instead of never
+// ending, if a value refers to itself.
+func wrapCycleDetection(t reflect.Type, ins instruction) instruction {
+	isSlice := t.Kind() == reflect.Slice
+	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+		if opts.ptrLevel++; opts.ptrLevel <= startDetectCyclesAfter {
+			return ins(p, dst, opts)
+		}
+		if opts.ptrSeen == nil {
+			opts.ptrSeen = make(map[ptrID]struct{})
+		}
+		id := ptrID{typ: t, ptr: *(*unsafe.Pointer)(p)}
+		if isSlice {
+			id.len = (*sliceHeader)(p).Len
+		}
+		if _, ok := opts.ptrSeen[id]; ok {
+			return dst, &UnsupportedValueError{
+				reflect.NewAt(t, p).Elem(),
+				fmt.Sprintf("encountered a cycle via %s", t),
+			}
+		}
+		opts.ptrSeen[id] = struct{}{}
+		dst, err := ins(p, dst, opts)
+		delete(opts.ptrSeen, id)
+
+		return dst, err
+	}
+}
+
 func wrapInlineInstr(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return ins(noescape(unsafe.Pointer(&p)), dst, opts)
diff --git a/options.go b/options.go
index f9e69c7..0646741 100644
--- a/options.go
+++ b/options.go
@@ -46,6 +46,11 @@ type encOpts struct {
 	flags       bitmask
 	allowList   stringSet
 	denyList    stringSet
+
+	// Depth of pointers, maps and slices, and those
+	// currently being encoded below a certain depth.
+	ptrLevel int
+	ptrSeen  map[ptrID]struct{}
 }
 
 func defaultEncOpts() encOpts {
-- 
2.43.0


From 176183249b2f50710c2e204a0ae5365fe151aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 22/27] fix: benchparse: report a header without unit instead
 of panicking

---
 tools/benchparse/benchparse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/benchparse/benchparse.go b/tools/benchparse/benchparse.go
index 87f44b8..cf3c9f3 100644
--- a/tools/benchparse/benchparse.go
+++ b/tools/benchparse/benchparse.go
@@ -95,8 +95,11 @@ func parse(scanr *bufio.Scanner) (set, error) {
 			if len(r) != 2 {
 				return nil, fmt.Errorf("invalid header at line %d", i)
 			}
-			s := strings.Split(r[1], " ")[1]
-			unit = strings.Trim(s, "()")
+			s := strings.Split(r[1], " ")
+			if len(s) < 2 {
+				return nil, fmt.Errorf("invalid header at line %d: no unit", i)
+			}
+			unit = strings.Trim(s[1], "()")
 			nextIsHdr = false
 			continue
 		}
-- 
2.43.0


From 5bb3028a82b80288e6f5131fe06805187aef4dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 23/27] fix: benchparse: put values in the column of their unit

---
 tools/benchparse/benchparse.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/tools/benchparse/benchparse.go b/tools/benchparse/benchparse.go
index cf3c9f3..37e6f12 100644
--- a/tools/benchparse/benchparse.go
+++ b/tools/benchparse/benchparse.go
@@ -133,6 +133,25 @@ func parse(scanr *bufio.Scanner) (set, error) {
 	return stats, nil
 }
 
+// columnOf returns the index of the data-table column
+// that holds the values of the given unit.
+func columnOf(unit string) int {
+	col := 1 // ns/op
+	if unit != "MB/s" && unit != "B/op" && unit != "allocs/op" {
+		return col
+	}
+	if !*omitBandwidth {
+		col++
+	}
+	if unit != "MB/s" && !*omitMem {
+		col++
+	}
+	if unit == "allocs/op" && !*omitAllocs {
+		col++
+	}
+	return col
+}
+
 // transform converts a stats set to a 2D data-table
 // interpretable by the Google Charts API.
 func transform(stats set) gcDataTables {
@@ -159,7 +178,12 @@ func transform(stats set) gcDataTables {
 					continue L
 				}
 			}
-			values[s.Name] = append(values[s.Name], s.Value)
+			// Put the value in the column of its unit, the
+			// cells of the missing ones are left empty.
+			for len(values[s.Name]) <= columnOf(s.Unit) {
+				values[s.Name] = append(values[s.Name], nil)
+			}
+			values[s.Name][columnOf(s.Unit)] = s.Value
 		}
 		data[bname] = append(data[bname], []interface{}{"Name", "ns/op"})
 		if !*omitBandwidth {
@@ -172,6 +196,9 @@ func transform(stats set) gcDataTables {
 			data[bname][0] = append(data[bname][0], "allocs/op")
 		}
 		for _, v := range values {
+			for len(v) < len(data[bname][0]) {
+				v = append(v, nil)
+			}
 			data[bname] = append(data[bname], v)
 		}
 	}
-- 
2.43.0


From ea1c1869cb52fa35997b19e0e60ff17b7511b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 24/27] fix: benchparse: reject unknown units and duplicate
 runs

---
 tools/benchparse/benchparse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/benchparse/benchparse.go b/tools/benchparse/benchparse.go
index 37e6f12..5adf35c 100644
--- a/tools/benchparse/benchparse.go
+++ b/tools/benchparse/benchparse.go
@@ -100,6 +100,11 @@ func parse(scanr *bufio.Scanner) (set, error) {
 				return nil, fmt.Errorf("invalid header at line %d: no unit", i)
 			}
 			unit = strings.Trim(s[1], "()")
+			switch unit {
+			case "ns/op", "MB/s", "B/op", "allocs/op":
+			default:
+				return nil, fmt.Errorf("invalid header at line %d: unknown unit %q", i, unit)
+			}
 			nextIsHdr = false
 			continue
 		}
@@ -121,6 +126,11 @@ func parse(scanr *bufio.Scanner) (set, error) {
 		if err != nil {
 			return nil, fmt.Errorf("invalid float value at line %d: %s", i, err)
 		}
+		for _, s := range stats[bname] {
+			if s.Name == rname && s.Unit == unit {
+				return nil, fmt.Errorf("duplicate run name at line %d: %s", i, rname)
+			}
+		}
 		stats[bname] = append(stats[bname], benchStat{
 			Name:  rname,
 			Value: f,
-- 
2.43.0


From 6797c638195aac383b6762c87abcc8bfb8dfa592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 25/27] fix: apply the time options to pointers to time.Time

---
 instruction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instruction.go b/instruction.go
index 43a6838..d7b6644 100644
--- a/instruction.go
+++ b/instruction.go
@@ -95,6 +95,11 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 		}
 		return ins
 	}
+	// Likewise, a pointer to a time must not be handled
+	// as a marshaler, which would ignore the options.
+	if t.Kind() == reflect.Ptr && t.Elem() == timeTimeType {
+		return newCompositeInstr(t, canAddr, quoted)
+	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
 		return ins
 	}
-- 
2.43.0


From 31e934c32b5d243def4ff259994fde6c7a90ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 26/27] fix: validate the options of a nil value too

---
 json.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/json.go b/json.go
index 88b4c85..9046a06 100644
--- a/json.go
+++ b/json.go
@@ -128,9 +128,6 @@ func Append(dst []byte, v interface{}) ([]byte, error) {
 // MarshalOpts is similar to Marshal, but also accepts
 // a list of options to configure the encoding behavior.
 func MarshalOpts(v interface{}, opts ...Option) ([]byte, error) {
-	if v == nil {
-		return []byte("null"), nil
-	}
 	eo := defaultEncOpts()
 
 	if len(opts) != 0 {
@@ -139,15 +136,15 @@ func MarshalOpts(v interface{}, opts ...Option) ([]byte, error) {
 			return nil, &InvalidOptionError{err}
 		}
 	}
+	if v == nil {
+		return []byte("null"), nil
+	}
 	return marshalJSON(v, eo)
 }
 
 // AppendOpts is similar to Append, but also accepts
 // a list of options to configure the encoding behavior.
 func AppendOpts(dst []byte, v interface{}, opts ...Option) ([]byte, error) {
-	if v == nil {
-		return append(dst, "null"...), nil
-	}
 	eo := defaultEncOpts()
 
 	if len(opts) != 0 {
@@ -156,6 +153,9 @@ func AppendOpts(dst []byte, v interface{}, opts ...Option) ([]byte, error) {
 			return nil, &InvalidOptionError{err}
 		}
 	}
+	if v == nil {
+		return append(dst, "null"...), nil
+	}
 	return appendJSON(dst, v, eo)
 }
 
-- 
2.43.0


From bfea1ff85bf246a19fc299c4e474213698f42b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 27/27] fix: count interfaces in the depth that starts the
 cycle detection

A cycle that holds many struct values in interfaces for each of its
pointers overflowed the stack before the 1000th pointer was reached.
---
 encode.go      | 4 ++++
 instruction.go | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 7142126..e054f06 100644
--- a/encode.go
+++ b/encode.go
@@ -82,6 +82,10 @@ func encodeInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error)
 	typ := reflect.TypeOf(v)
 	ins := cachedInstr(typ)
 
+	// A cycle may consist of many values that are held
+	// by interfaces for each pointer that it contains.
+	opts.ptrLevel++
+
 	return ins(unpackEface(v).word, dst, opts)
 }
 
diff --git a/instruction.go b/instruction.go
index d7b6644..be156ec 100644
--- a/instruction.go
+++ b/instruction.go
@@ -470,8 +470,9 @@ func newMapKeyInstr(t reflect.Type) instruction {
 	}
 }
 
-// startDetectCyclesAfter is the depth of pointers, maps
-// and slices after which they are checked for cycles.
+// startDetectCyclesAfter is the depth of pointers, maps,
+// slices and interfaces after which the first three are
+// checked for cycles.
 const startDetectCyclesAfter = 1000
 
 // ptrID identifies a pointer, a map or a slice.
-- 
2.43.0

