From 9d3074d89395a9da3d08782030b6bbb4e23a0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 01/22] fix: escape the inner string of fields with the string
 tag option

The content of a quoted string field was escaped once, so that a value
with a quote, a backslash or a control character produced a document
that is invalid or decodes to a different string.
---
 encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 7525b1f..2683a6e 100644
--- a/encode.go
+++ b/encode.go
@@ -43,8 +43,12 @@ func encodeString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 
 //nolint:unparam
 func encodeQuotedString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	// The content is a JSON string within a JSON
+	// string, so it must be escaped twice.
+	b := appendEscapedBytes(nil, sp2b(p), opts)
+
 	dst = append(dst, `"\"`...)
-	dst = appendEscapedBytes(dst, sp2b(p), opts)
+	dst = appendEscapedBytes(dst, b, opts)
 	dst = append(dst, `\""`...)
 
 	return dst, nil
-- 
2.43.0


From 67dbe8164ea396765640e805c21f6ce3347c8563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 02/22] fix: honor the string tag option on json.Number and
 time.Duration fields

Both types are handled by a native instruction that is selected before
the basic ones, and which ignored the option.
---
 encode.go      | 10 ++++++++++
 instruction.go | 10 ++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 2683a6e..c402e6e 100644
--- a/encode.go
+++ b/encode.go
@@ -156,6 +156,16 @@ func encodeDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error)
 	}
 }
 
+// encodeQuotedDuration is similar to encodeDuration,
+// but encloses the formats that produces a number
+// with double-quote characters.
+func encodeQuotedDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	if opts.durationFmt == DurationString {
+		return encodeDuration(p, dst, opts)
+	}
+	return wrapQuotedInstr(encodeDuration)(p, dst, opts)
+}
+
 func appendFloat(dst []byte, f float64, bs int) ([]byte, error) {
 	if math.IsInf(f, 0) || math.IsNaN(f) {
 		return dst, &UnsupportedValueError{
diff --git a/instruction.go b/instruction.go
index 138d7d2..f0ecd82 100644
--- a/instruction.go
+++ b/instruction.go
@@ -88,7 +88,7 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	// be interpreted as a basic type. Also, the time.Time
 	// type implements the TextMarshaler interface, but we
 	// want to use a special instruction instead.
-	if ins := newGoTypeInstr(t); ins != nil {
+	if ins := newGoTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
@@ -114,15 +114,21 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	return newUnsupportedTypeInstr(t)
 }
 
-func newGoTypeInstr(t reflect.Type) instruction {
+func newGoTypeInstr(t reflect.Type, quoted bool) instruction {
 	switch t {
 	case syncMapType:
 		return encodeSyncMap
 	case timeTimeType:
 		return encodeTime
 	case timeDurationType:
+		if quoted {
+			return encodeQuotedDuration
+		}
 		return encodeDuration
 	case jsonNumberType:
+		if quoted {
+			return wrapQuotedInstr(encodeNumber)
+		}
 		return encodeNumber
 	case jsonRawMessageType:
 		return encodeRawMessage
-- 
2.43.0


From 86148695d54814dc99aa57dfd145a5210373cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 03/22] fix: escape the output of MarshalText

The text was copied verbatim between quotes, and produced invalid JSON
when it had a quote, a backslash or a control character.
---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index c402e6e..33878ff 100644
--- a/encode.go
+++ b/encode.go
@@ -730,13 +730,13 @@ func encodeJSONMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type
 	return appendCompactJSON(dst, b, !opts.flags.has(noHTMLEscaping))
 }
 
-func encodeTextMarshaler(i interface{}, dst []byte, _ encOpts, t reflect.Type) ([]byte, error) {
+func encodeTextMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type) ([]byte, error) {
 	b, err := i.(encoding.TextMarshaler).MarshalText()
 	if err != nil {
 		return dst, &MarshalerError{t, err, marshalerText}
 	}
 	dst = append(dst, '"')
-	dst = append(dst, b...)
+	dst = appendEscapedBytes(dst, b, opts)
 	dst = append(dst, '"')
 
 	return dst, nil
-- 
2.43.0


From f7078ad9df60611243b156d0530b1460aebcfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 04/22] fix: resolve map keys with the precedence of
 encoding/json

The instruction of the key type was used for all non-string keys, so
that a type with another marshaling method than MarshalText was encoded
with it, possibly as something else than a JSON string, or crashed. The
keys of type time.Time and time.Duration are now always quoted once,
whatever the options, and nil interface keys are encoded like nil
pointers.
---
 encode.go      |  9 ++++++++
 instruction.go | 57 +++++++++++++++++++++++++++++---------------------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/encode.go b/encode.go
index 33878ff..2056ab0 100644
--- a/encode.go
+++ b/encode.go
@@ -132,6 +132,15 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	}
 }
 
+// encodeTimeKey is similar to encodeTime, but encloses
+// the Unix timestamps with double-quote characters.
+func encodeTimeKey(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	if opts.flags.has(unixTime) {
+		return wrapQuotedInstr(encodeTime)(p, dst, opts)
+	}
+	return encodeTime(p, dst, opts)
+}
+
 // encodeDuration appends the time.Duration value pointed
 // by p to dst based on the format configured in opts.
 func encodeDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
diff --git a/instruction.go b/instruction.go
index f0ecd82..96f9475 100644
--- a/instruction.go
+++ b/instruction.go
@@ -375,41 +375,50 @@ func newSliceInstr(t reflect.Type) instruction {
 }
 
 func newMapInstr(t reflect.Type) instruction {
-	var (
-		ki instruction
-		vi instruction
-	)
 	kt := t.Key()
 	et := t.Elem()
 
-	if !isString(kt) && !isInteger(kt) && !kt.Implements(textMarshalerType) {
+	ki := newMapKeyInstr(kt)
+	if ki == nil {
 		return newUnsupportedTypeInstr(t)
 	}
-	// The standard library has a strict precedence order
-	// for map key types, defined by the documentation of
-	// the json.Marshal function. That's why we bypass the
-	// newTypeInstr function if key type is string.
-	if isString(kt) {
-		ki = encodeString
-	} else {
-		ki = newInstruction(kt, false, false)
-	}
-	// Wrap the key instruction for types that
-	// do not encode with quotes by default.
-	if !isString(kt) && !kt.Implements(textMarshalerType) {
-		ki = wrapQuotedInstr(ki)
-	}
-	// See issue golang.org/issue/33675 for reference.
-	if kt.Implements(textMarshalerType) && kt.Kind() == reflect.Ptr {
-		ki = wrapTextMarshalerNilCheck(ki)
-	}
-	vi = newInstruction(et, false, false)
+	vi := newInstruction(et, false, false)
 
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return encodeMap(p, dst, opts, t, ki, vi)
 	}
 }
 
+// newMapKeyInstr returns an instruction to encode
+// a map key of type t as a JSON string, or nil if
+// the type cannot be used as a key.
+func newMapKeyInstr(t reflect.Type) instruction {
+	// The standard library has a strict precedence order
+	// for map key types, defined by the documentation of
+	// the json.Marshal function. That's why we bypass the
+	// newInstruction function, which would give priority
+	// to the other marshalers that the type implements.
+	switch {
+	case isString(t):
+		return encodeString
+	case t == timeTimeType:
+		return encodeTimeKey
+	case t == timeDurationType:
+		return encodeQuotedDuration
+	case t.Implements(textMarshalerType):
+		ki := newTextMarshalerInstr(t, false)
+		// See issue golang.org/issue/33675 for reference.
+		if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
+			ki = wrapTextMarshalerNilCheck(ki)
+		}
+		return ki
+	case isInteger(t):
+		return newBasicTypeInstr(t, true)
+	default:
+		return nil
+	}
+}
+
 func wrapInlineInstr(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return ins(noescape(unsafe.Pointer(&p)), dst, opts)
-- 
2.43.0


From 8048e26ececc08b02aeb53d997b2ecf5630b25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 05/22] fix: sort map keys by their unescaped form

The keys were compared after they had been escaped, which gives another
order than encoding/json for keys that have characters to escape.
---
 encode.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/encode.go b/encode.go
index 2056ab0..5ce443e 100644
--- a/encode.go
+++ b/encode.go
@@ -452,12 +452,15 @@ func encodeSortedMap(
 		kv := kv{}
 
 		// Encode the key and store the buffer
-		// portion to use during sort.
-		if buf.B, err = ki(it.key, buf.B, opts); err != nil {
+		// portion to use during sort. Keys are
+		// sorted by their unescaped form.
+		if buf.B, err = ki(it.key, buf.B, rawKeyOpts(opts)); err != nil {
 			break
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		off = len(buf.B)
+		buf.B = appendQuotedKey(buf.B, kv.key, opts)
 
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
@@ -496,6 +499,23 @@ func encodeSortedMap(
 	return dst, err
 }
 
+// rawKeyOpts returns the options to use
+// to get the unescaped form of a map key.
+func rawKeyOpts(opts encOpts) encOpts {
+	opts.flags.set(noStringEscaping)
+	return opts
+}
+
+// appendQuotedKey appends the unescaped map
+// key to dst, as a JSON string.
+func appendQuotedKey(dst, key []byte, opts encOpts) []byte {
+	dst = append(dst, '"')
+	dst = appendEscapedBytes(dst, key, opts)
+	dst = append(dst, '"')
+
+	return dst
+}
+
 // encodeSyncMap appends the elements of a sync.Map pointed
 // to by p to dst and returns the extended buffer.
 // This function replicates the behavior of encoding Go maps,
@@ -570,11 +590,14 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 
 		// Encode the key and store the buffer
 		// portion to use during the later sort.
-		if buf.B, err = appendSyncMapKey(buf.B, key, opts); err != nil {
+		// Keys are sorted by their unescaped form.
+		if buf.B, err = appendSyncMapKey(buf.B, key, rawKeyOpts(opts)); err != nil {
 			return false
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		off = len(buf.B)
+		buf.B = appendQuotedKey(buf.B, kv.key, opts)
 
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
-- 
2.43.0


From 215b484d70eeb946351203d07d930e44dff31f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 06/22] fix: use pointer receiver marshalers of fields promoted
 through a pointer

The fields of an embedded struct pointer are addressable, even though
the outer struct is not.
---
 instruction.go |  4 +++-
 struct.go      | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index 96f9475..5164b4d 100644
--- a/instruction.go
+++ b/instruction.go
@@ -319,7 +319,9 @@ func newStructFieldsInstr(t reflect.Type, canAddr bool) instruction {
 		// Generate instruction and empty func of the field.
 		// Only strings, floats, integers, and booleans
 		// types can be quoted.
-		f.instr = newInstruction(ftyp, canAddr, f.quoted && isBasicType(etyp))
+		// A field reached through an embedded pointer
+		// is always addressable.
+		f.instr = newInstruction(ftyp, canAddr || f.isIndir(), f.quoted && isBasicType(etyp))
 		if f.omitEmpty {
 			f.empty = cachedEmptyFuncOf(ftyp)
 		}
diff --git a/struct.go b/struct.go
index 7d51a22..d605584 100644
--- a/struct.go
+++ b/struct.go
@@ -39,6 +39,17 @@ type field struct {
 	embedSeq []seq
 }
 
+// isIndir returns whether the field is reached
+// through at least one embedded pointer.
+func (f *field) isIndir() bool {
+	for _, s := range f.embedSeq {
+		if s.indir {
+			return true
+		}
+	}
+	return false
+}
+
 type typeCount map[reflect.Type]int
 
 // byIndex sorts a list of fields by index sequence.
-- 
2.43.0


From adc8c7094a98c9836a383d1893a913032253691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 07/22] fix: keep objects well formed when omitnil drops the
 first field

A comma was left before the next field when the first one was removed
because its marshaler returned null.
---
 encode.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/encode.go b/encode.go
index 5ce443e..b55a3e7 100644
--- a/encode.go
+++ b/encode.go
@@ -260,11 +260,8 @@ fieldLoop:
 		if noHTMLEscape {
 			key = f.keyNonEsc
 		}
-		lastKeyOffset := len(dst)
+		lastKeyOffset, lastNxt := len(dst), nxt
 		dst = append(dst, nxt)
-		if nxt == '{' {
-			lastKeyOffset++
-		}
 		nxt = ','
 		dst = append(dst, key...)
 
@@ -273,7 +270,7 @@ fieldLoop:
 			return dst, err
 		}
 		if f.omitNullMarshaler && len(dst) > 4 && bytes.Compare(dst[len(dst)-4:], []byte("null")) == 0 {
-			dst = dst[:lastKeyOffset]
+			dst, nxt = dst[:lastKeyOffset], lastNxt
 		}
 	}
 	if nxt == '{' {
-- 
2.43.0


From 4ee86f157a28cec2613567755be5e63acdcc4e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 08/22] fix: accept semicolons in the name of struct fields

This is a valid character of the key of a json tag for encoding/json.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index d605584..b0017a4 100644
--- a/struct.go
+++ b/struct.go
@@ -10,7 +10,7 @@ import (
 	"unicode"
 )
 
-const validChars = "!#$%&()*+-./:<=>?@[]^_{|}~ "
+const validChars = "!#$%&()*+-./:;<=>?@[]^_{|}~ "
 
 var fieldsCache sync.Map // map[reflect.Type][]field
 
-- 
2.43.0


From 56d7277041073c13c48f80b940abcb543d720c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 09/22] fix: do not share the offset sequences of sibling
 embedded structs

The sequences of siblings could share the same backing array, so that
the fields of one were read at the address of another.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index b0017a4..66a9007 100644
--- a/struct.go
+++ b/struct.go
@@ -315,7 +315,7 @@ func scanFields(f field, fields, next []field, cnt, ncnt typeCount) ([]field, []
 				typ:      typ,
 				name:     typ.Name(),
 				index:    index,
-				embedSeq: append(f.embedSeq, seq{sf.Offset, isPtr}),
+				embedSeq: append(f.embedSeq[:len(f.embedSeq):len(f.embedSeq)], seq{sf.Offset, isPtr}),
 			})
 		}
 	}
-- 
2.43.0


From 3d0ba8c99a56414a52aba6a8da66efd415cdee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 10/22] fix: reject invalid JSON in json.RawMessage values

The content was compacted and emitted without being validated, unlike
the output of other json.Marshaler types.
---
 encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode.go b/encode.go
index b55a3e7..6137104 100644
--- a/encode.go
+++ b/encode.go
@@ -103,6 +103,11 @@ func encodeRawMessage(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error
 	if opts.flags.has(noCompact) {
 		return append(dst, v...), nil
 	}
+	if !json.Valid(v) {
+		return dst, &MarshalerError{jsonRawMessageType, &SyntaxError{
+			msg: "json: invalid value",
+		}, marshalerJSON}
+	}
 	return appendCompactJSON(dst, v, !opts.flags.has(noHTMLEscaping))
 }
 
-- 
2.43.0


From 68c2b52649691a797096aa951f8c0b80419d292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 11/22] fix: encode times of the year zero

The number of days since the epoch is negative for that year, and was
converted to a very large unsigned number.
---
 time.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/time.go b/time.go
index 892ab6b..b752a7d 100644
--- a/time.go
+++ b/time.go
@@ -179,8 +179,11 @@ func appendRFC3339Time(t time.Time, dst []byte, nano bool) []byte {
 
 	// Year.
 	_, offset := t.Zone()
-	sec := t.Unix() + int64(offset) + epoch
+	// The calendar has a cycle of 400 years. Shift by
+	// one, because the year zero precedes the epoch.
+	sec := t.Unix() + int64(offset) + epoch + 146097*86400
 	y, m, d := rdnToYmd(uint32(sec / 86400))
+	y -= 400
 	for i := 4; i >= 1; i-- {
 		buf[i] = byte(y%10) + '0'
 		y /= 10
-- 
2.43.0


From e44e8b483db67525a1185ea819fad75351482669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 12/22] fix: escape U+2028 and U+2029 with the option
 NoUTF8Coercion

They are escaped unconditionally, the option only concerns the invalid
UTF-8 bytes.
---
 encode.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/encode.go b/encode.go
index 6137104..3599eb3 100644
--- a/encode.go
+++ b/encode.go
@@ -913,25 +913,23 @@ func appendEscapedBytes(dst []byte, b []byte, opts encOpts) []byte {
 				at = i
 				continue
 			}
-			// U+2028 is LINE SEPARATOR.
-			// U+2029 is PARAGRAPH SEPARATOR.
-			// They are both technically valid characters in
-			// JSON strings, but don't work in JSONP, which has
-			// to be evaluated as JavaScript, and can lead to
-			// security holes there. It is valid JSON to escape
-			// them, so we do so unconditionally.
-			// See http://timelessrepo.com/json-isnt-a-javascript-subset.
-			if r == '\u2028' || r == '\u2029' {
-				if at < i {
-					dst = append(dst, b[at:i]...)
-				}
-				dst = append(dst, `\u202`...)
-				dst = append(dst, hex[r&0xF])
-				i += size
-				at = i
-				continue
+		}
+		// U+2028 is LINE SEPARATOR.
+		// U+2029 is PARAGRAPH SEPARATOR.
+		// They are both technically valid characters in
+		// JSON strings, but don't work in JSONP, which has
+		// to be evaluated as JavaScript, and can lead to
+		// security holes there. It is valid JSON to escape
+		// them, so we do so unconditionally.
+		// See http://timelessrepo.com/json-isnt-a-javascript-subset.
+		if r == '\u2028' || r == '\u2029' {
+			if at < i {
+				dst = append(dst, b[at:i]...)
 			}
+			dst = append(dst, `\u202`...)
+			dst = append(dst, hex[r&0xF])
 			i += size
+			at = i
 			continue
 		}
 		i += size
-- 
2.43.0


From e5dcc89dbbaabdf92f258c51f771aa3106f76695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 13/22] fix: encode the content of interfaces that have methods

The first word of such interfaces isn't the type of the value, and was
used as is, which crashed the program.
---
 encode.go      | 9 +++++++++
 instruction.go | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/encode.go b/encode.go
index 3599eb3..c865e8c 100644
--- a/encode.go
+++ b/encode.go
@@ -77,6 +77,15 @@ func encodeInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error)
 	return ins(unpackEface(v).word, dst, opts)
 }
 
+// encodeNonEmptyInterface is similar to encodeInterface,
+// but for interfaces that have methods, which have a
+// different layout than the empty interface.
+func encodeNonEmptyInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	var v interface{} = *(*interface{ M() })(p)
+
+	return encodeInterface(unsafe.Pointer(&v), dst, opts)
+}
+
 func encodeNumber(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	// Cast pointer to string directly to avoid
 	// a useless conversion.
diff --git a/instruction.go b/instruction.go
index 5164b4d..0acb4b2 100644
--- a/instruction.go
+++ b/instruction.go
@@ -99,6 +99,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	}
 	switch t.Kind() {
 	case reflect.Interface:
+		if t.NumMethod() != 0 {
+			return encodeNonEmptyInterface
+		}
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
-- 
2.43.0


From e310e75ebf79c9d0f588e0757b7f960f85a1f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 14/22] fix: handle all types that are stored directly in
 interfaces

Arrays of one pointer-shaped element were not considered, and the
marshaling methods of maps, funcs, and other pointer-shaped types were
called with the address of the value instead of the value itself.
---
 encode.go | 2 +-
 types.go  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index c865e8c..9aedd62 100644
--- a/encode.go
+++ b/encode.go
@@ -728,7 +728,7 @@ func encodeMarshaler(
 			i = *(*interface{ M() })(p)
 		}
 	} else {
-		i = packEface(p, t, t.Kind() == reflect.Ptr && !canAddr)
+		i = packEface(p, t, isInlined(t) && !canAddr)
 	}
 	return fn(i, dst, opts, t)
 }
diff --git a/types.go b/types.go
index b4aaab4..d314068 100644
--- a/types.go
+++ b/types.go
@@ -68,8 +68,10 @@ func isInteger(t reflect.Type) bool {
 
 func isInlined(t reflect.Type) bool {
 	switch t.Kind() {
-	case reflect.Ptr, reflect.Map:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
+	case reflect.Array:
+		return t.Len() == 1 && isInlined(t.Elem())
 	case reflect.Struct:
 		return t.NumField() == 1 && isInlined(t.Field(0).Type)
 	default:
-- 
2.43.0


From a4b807d0d3cf2c9b67f748d8f1e0679b66406142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 15/22] fix: encode the keys and nil values of sync.Map like
 those of Go maps

A nil value crashed the program, and the keys were encoded with other
methods than MarshalText, or as null for nil pointers.
---
 encode.go | 42 ++++++++++++------------------------------
 json.go   |  3 +++
 2 files changed, 15 insertions(+), 30 deletions(-)

diff --git a/encode.go b/encode.go
index 9aedd62..081f595 100644
--- a/encode.go
+++ b/encode.go
@@ -650,39 +650,21 @@ func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error)
 		return dst, errors.New("unsupported nil key in sync.Map")
 	}
 	kt := reflect.TypeOf(key)
-	var (
-		isStr = isString(kt)
-		isInt = isInteger(kt)
-		isTxt = kt.Implements(textMarshalerType)
-	)
-	if !isStr && !isInt && !isTxt {
-		return dst, fmt.Errorf("unsupported key of type %s in sync.Map", kt)
-	}
-	var err error
-
-	// Quotes the key if the type is not
-	// encoded with quotes by default.
-	quoted := !isStr && !isTxt
 
-	// Ensure map key precedence for keys of type
-	// string by using the encodeString function
-	// directly instead of the generic appendJSON.
-	if isStr {
-		dst, err = encodeString(unpackEface(key).word, dst, opts)
-		runtime.KeepAlive(key)
-	} else {
-		if quoted {
-			dst = append(dst, '"')
-		}
-		dst, err = appendJSON(dst, key, opts)
-	}
-	if err != nil {
-		return dst, err
+	// Ensure map key precedence by using the same
+	// instructions as Go maps instead of the generic
+	// appendJSON.
+	ki := newMapKeyInstr(kt)
+	if ki == nil {
+		return dst, fmt.Errorf("unsupported key of type %s in sync.Map", kt)
 	}
-	if quoted {
-		dst = append(dst, '"')
+	if isInlined(kt) {
+		ki = wrapInlineInstr(ki)
 	}
-	return dst, nil
+	dst, err := ki(unpackEface(key).word, dst, opts)
+	runtime.KeepAlive(key)
+
+	return dst, err
 }
 
 func encodeMarshaler(
diff --git a/json.go b/json.go
index 337396f..df3513b 100644
--- a/json.go
+++ b/json.go
@@ -183,6 +183,9 @@ func marshalJSON(v interface{}, opts encOpts) ([]byte, error) {
 }
 
 func appendJSON(dst []byte, v interface{}, opts encOpts) ([]byte, error) {
+	if v == nil {
+		return append(dst, "null"...), nil
+	}
 	ins := cachedInstr(reflect.TypeOf(v))
 	var err error
 	dst, err = ins(unpackEface(v).word, dst, opts)
-- 
2.43.0


From 6aca2d02ac5168f0f1b5ba265a988052c64c0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 16/22] fix: support recursive types that are not structs

Building the instruction of named slices, maps, arrays or pointers that
refers to themselves without an intermediate struct never ended.
---
 instruction.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index 0acb4b2..8948e20 100644
--- a/instruction.go
+++ b/instruction.go
@@ -97,6 +97,20 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	if ins := newBasicTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
+	if t.Name() != "" {
+		switch t.Kind() {
+		case reflect.Map, reflect.Slice, reflect.Array, reflect.Ptr:
+			// Only named types can be recursive.
+			id := fmt.Sprintf("%p-%t-%t", typeID(t), canAddr, quoted)
+			return cachedRecursiveInstr(id, func() instruction {
+				return newCompositeInstr(t, canAddr, quoted)
+			})
+		}
+	}
+	return newCompositeInstr(t, canAddr, quoted)
+}
+
+func newCompositeInstr(t reflect.Type, canAddr, quoted bool) instruction {
 	switch t.Kind() {
 	case reflect.Interface:
 		if t.NumMethod() != 0 {
@@ -260,6 +274,15 @@ func newTextMarshalerInstr(t reflect.Type, hasPtr bool) instruction {
 func newStructInstr(t reflect.Type, canAddr bool) instruction {
 	id := fmt.Sprintf("%p-%t", typeID(t), canAddr)
 
+	return cachedRecursiveInstr(id, func() instruction {
+		return newStructFieldsInstr(t, canAddr)
+	})
+}
+
+// cachedRecursiveInstr returns the instruction of a
+// type that may be recursive from a cache, or create
+// one on the fly with the given function.
+func cachedRecursiveInstr(id string, newInstr func() instruction) instruction {
 	if instr, ok := structInstrCache.Load(id); ok {
 		return instr.(instruction)
 	}
@@ -285,7 +308,7 @@ func newStructInstr(t reflect.Type, canAddr bool) instruction {
 	}
 	// Generate the real instruction and replace
 	// the indirect func with it.
-	ins = newStructFieldsInstr(t, canAddr)
+	ins = newInstr()
 	wg.Done()
 	structInstrCache.Store(id, ins)
 
-- 
2.43.0


From 0c309ed92ad6b612e892423fbb191d4c4c77564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 17/22] fix: reject cyclic values instead of overflowing the
 stack

As encoding/json does, start to keep track of the pointers, maps and
slices being encoded once they are deeply nested, and return an
UnsupportedValueError when one is met again.
---
 encode.go      | 68 ++++++++++++++++++++++++++++++++++++++++++++++----
 instruction.go |  4 +--
 options.go     |  5 ++++
 3 files changed, 70 insertions(+), 7 deletions(-)

diff --git a/encode.go b/encode.go
index 081f595..ef51dc0 100644
--- a/encode.go
+++ b/encode.go
@@ -20,6 +20,40 @@ import (
 
 const hex = "0123456789abcdef"
 
+// startDetectCyclesAfter is the number of nested
+// pointers, maps and slices after which the encoder
+// starts to check if the value is cyclic.
+const startDetectCyclesAfter = 1000
+
+// ptrRef identifies a pointer, map or slice.
+type ptrRef struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
+}
+
+// enterRef records that the pointer, map or slice ref,
+// which is stored at p, is being encoded, and returns
+// an error if that was already the case.
+func (eo *encOpts) enterRef(ref ptrRef, p unsafe.Pointer) error {
+	if _, ok := eo.ptrSeen[ref]; ok {
+		// Copy the value, because p may point to
+		// the stack.
+		v := reflect.NewAt(ref.typ, p).Elem().Interface()
+
+		return &UnsupportedValueError{
+			reflect.ValueOf(v),
+			fmt.Sprintf("encountered a cycle via %s", ref.typ),
+		}
+	}
+	if eo.ptrSeen == nil {
+		eo.ptrSeen = make(map[ptrRef]struct{})
+	}
+	eo.ptrSeen[ref] = struct{}{}
+
+	return nil
+}
+
 //nolint:unparam
 func encodeBool(p unsafe.Pointer, dst []byte, _ encOpts) ([]byte, error) {
 	if *(*bool)(p) {
@@ -219,11 +253,21 @@ func appendFloat(dst []byte, f float64, bs int) ([]byte, error) {
 	return dst, nil
 }
 
-func encodePointer(p unsafe.Pointer, dst []byte, opts encOpts, ins instruction) ([]byte, error) {
-	if p = *(*unsafe.Pointer)(p); p != nil {
-		return ins(p, dst, opts)
+func encodePointer(
+	p unsafe.Pointer, dst []byte, opts encOpts, t reflect.Type, ins instruction,
+) ([]byte, error) {
+	e := *(*unsafe.Pointer)(p)
+	if e == nil {
+		return append(dst, "null"...), nil
 	}
-	return append(dst, "null"...), nil
+	if opts.ptrLevel++; opts.ptrLevel > startDetectCyclesAfter {
+		ref := ptrRef{t, e, 0}
+		if err := opts.enterRef(ref, p); err != nil {
+			return dst, err
+		}
+		defer delete(opts.ptrSeen, ref)
+	}
+	return ins(e, dst, opts)
 }
 
 func encodeStruct(
@@ -294,7 +338,7 @@ fieldLoop:
 }
 
 func encodeSlice(
-	p unsafe.Pointer, dst []byte, opts encOpts, ins instruction, es uintptr,
+	p unsafe.Pointer, dst []byte, opts encOpts, t reflect.Type, ins instruction, es uintptr,
 ) ([]byte, error) {
 	shdr := (*sliceHeader)(p)
 	if shdr.Data == nil {
@@ -306,6 +350,13 @@ func encodeSlice(
 	if shdr.Len == 0 {
 		return append(dst, "[]"...), nil
 	}
+	if opts.ptrLevel++; opts.ptrLevel > startDetectCyclesAfter {
+		ref := ptrRef{t, shdr.Data, shdr.Len}
+		if err := opts.enterRef(ref, p); err != nil {
+			return dst, err
+		}
+		defer delete(opts.ptrSeen, ref)
+	}
 	return encodeArray(shdr.Data, dst, opts, ins, es, shdr.Len, false)
 }
 
@@ -394,6 +445,13 @@ func encodeMap(
 	if ml == 0 {
 		return append(dst, "{}"...), nil
 	}
+	if opts.ptrLevel++; opts.ptrLevel > startDetectCyclesAfter {
+		ref := ptrRef{t, m, 0}
+		if err := opts.enterRef(ref, p); err != nil {
+			return dst, err
+		}
+		defer delete(opts.ptrSeen, ref)
+	}
 	dst = append(dst, '{')
 
 	rt := unpackEface(t).word
diff --git a/instruction.go b/instruction.go
index 8948e20..a547f6f 100644
--- a/instruction.go
+++ b/instruction.go
@@ -243,7 +243,7 @@ func newPtrInstr(t reflect.Type, quoted bool) instruction {
 	e := t.Elem()
 	i := newInstruction(e, true, quoted)
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-		return encodePointer(p, dst, opts, i)
+		return encodePointer(p, dst, opts, t, i)
 	}
 }
 
@@ -398,7 +398,7 @@ func newSliceInstr(t reflect.Type) instruction {
 		size = etyp.Size()
 	)
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-		return encodeSlice(p, dst, opts, ins, size)
+		return encodeSlice(p, dst, opts, t, ins, size)
 	}
 }
 
diff --git a/options.go b/options.go
index f9e69c7..fc22a3d 100644
--- a/options.go
+++ b/options.go
@@ -46,6 +46,11 @@ type encOpts struct {
 	flags       bitmask
 	allowList   stringSet
 	denyList    stringSet
+
+	// Keep track of the pointers, maps and slices
+	// being encoded in case of a cyclic value.
+	ptrLevel int
+	ptrSeen  map[ptrRef]struct{}
 }
 
 func defaultEncOpts() encOpts {
-- 
2.43.0


From 53cb0f090917f75cb56f3c5a4cd6a2197017df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 18/22] fix: escape the times formatted with a custom layout

The layout may have characters that must be escaped in a JSON string.
---
 encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index ef51dc0..4fa67e9 100644
--- a/encode.go
+++ b/encode.go
@@ -173,8 +173,10 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	case time.RFC3339Nano:
 		return appendRFC3339Time(t, dst, true), nil
 	default:
+		var buf [64]byte
+
 		dst = append(dst, '"')
-		dst = t.AppendFormat(dst, opts.timeLayout)
+		dst = appendEscapedBytes(dst, t.AppendFormat(buf[:0], opts.timeLayout), opts)
 		dst = append(dst, '"')
 		return dst, nil
 	}
-- 
2.43.0


From 3ce0a2568f3d7d7f6698a8132b845a439d7bd3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 19/22] fix: report the type of the value in the errors of
 pointer receiver marshalers

The Type of a MarshalerError is the type of the value that could not be
marshaled, as in encoding/json, not a pointer to it.
---
 encode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encode.go b/encode.go
index 4fa67e9..4fedc78 100644
--- a/encode.go
+++ b/encode.go
@@ -756,11 +756,12 @@ func encodeMarshaler(
 		if p == nil {
 			return append(dst, "null"...), nil
 		}
-		t = reflect.PtrTo(t)
 	}
 	var i interface{}
 
-	if t.Kind() == reflect.Interface {
+	if canAddr {
+		i = packEface(p, reflect.PtrTo(t), false)
+	} else if t.Kind() == reflect.Interface {
 		// Special case: return the element inside the
 		// interface. The empty interface has one layout,
 		// all interfaces with methods have another one.
@@ -770,7 +771,7 @@ func encodeMarshaler(
 			i = *(*interface{ M() })(p)
 		}
 	} else {
-		i = packEface(p, t, isInlined(t) && !canAddr)
+		i = packEface(p, t, isInlined(t))
 	}
 	return fn(i, dst, opts, t)
 }
-- 
2.43.0


From dcc106f290a917e183897ed65ab92e102d02cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 20/22] fix: call the append marshalers of the elements of byte
 slices and arrays

Only the types implementing json.Marshaler or encoding.TextMarshaler
were excluded from the base64 and string representations.
---
 instruction.go | 14 ++++----------
 types.go       |  9 +++++++++
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/instruction.go b/instruction.go
index a547f6f..46d23a0 100644
--- a/instruction.go
+++ b/instruction.go
@@ -370,11 +370,8 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 	// Byte arrays does not encode as a string
 	// by default, this behavior is defined by
 	// the encoder's options during marshaling.
-	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
-			isba = true
-		}
+	if etyp.Kind() == reflect.Uint8 && !implementsMarshaler(reflect.PtrTo(etyp)) {
+		isba = true
 	}
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return encodeArray(p, dst, opts, ins, size, t.Len(), isba)
@@ -384,11 +381,8 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 func newSliceInstr(t reflect.Type) instruction {
 	etyp := t.Elem()
 
-	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
-			return encodeByteSlice
-		}
+	if etyp.Kind() == reflect.Uint8 && !implementsMarshaler(reflect.PtrTo(etyp)) {
+		return encodeByteSlice
 	}
 	// Slice elements are always addressable.
 	// see https://golang.org/pkg/reflect/#Value.CanAddr
diff --git a/types.go b/types.go
index d314068..37d3d5e 100644
--- a/types.go
+++ b/types.go
@@ -79,6 +79,15 @@ func isInlined(t reflect.Type) bool {
 	}
 }
 
+// implementsMarshaler returns whether the type t
+// implements one of the marshaler interfaces.
+func implementsMarshaler(t reflect.Type) bool {
+	return t.Implements(appendMarshalerCtxType) ||
+		t.Implements(appendMarshalerType) ||
+		t.Implements(jsonMarshalerType) ||
+		t.Implements(textMarshalerType)
+}
+
 func isNilable(t reflect.Type) bool {
 	switch t.Kind() {
 	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
-- 
2.43.0


From 901d2111fc2767e3597f23ca888d1a2305aa1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 21/22] fix: apply the time options to pointers to time.Time

The method MarshalJSON of the type was used instead of the layout or
the Unix timestamp requested.
---
 instruction.go | 4 ++++
 types.go       | 1 +
 2 files changed, 5 insertions(+)

diff --git a/instruction.go b/instruction.go
index 46d23a0..c8aed1f 100644
--- a/instruction.go
+++ b/instruction.go
@@ -133,6 +133,10 @@ func newCompositeInstr(t reflect.Type, canAddr, quoted bool) instruction {
 
 func newGoTypeInstr(t reflect.Type, quoted bool) instruction {
 	switch t {
+	case timeTimePtrType:
+		// Ensure that the options apply to the
+		// time, instead of using MarshalJSON.
+		return newPtrInstr(t, quoted)
 	case syncMapType:
 		return encodeSyncMap
 	case timeTimeType:
diff --git a/types.go b/types.go
index 37d3d5e..c48ff0f 100644
--- a/types.go
+++ b/types.go
@@ -11,6 +11,7 @@ import (
 
 var (
 	timeTimeType           = reflect.TypeOf(time.Time{})
+	timeTimePtrType        = reflect.TypeOf((*time.Time)(nil))
 	timeDurationType       = reflect.TypeOf(time.Duration(0))
 	syncMapType            = reflect.TypeOf((*sync.Map)(nil)).Elem()
 	jsonNumberType         = reflect.TypeOf(json.Number(""))
-- 
2.43.0


From b6b6443f962fe44e074ccc5b305e63854c2d1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 22/22] fix: align the values of benchparse with their columns

A run without a value in some section of the benchstat file shifted
its next values under the headers of other units.
---
 tools/benchparse/benchparse.go | 39 ++++++++++++++++------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/tools/benchparse/benchparse.go b/tools/benchparse/benchparse.go
index 87f44b8..8a2d36c 100644
--- a/tools/benchparse/benchparse.go
+++ b/tools/benchparse/benchparse.go
@@ -137,27 +137,6 @@ func transform(stats set) gcDataTables {
 
 	for bname, stats := range stats {
 		values := make(map[string][]interface{})
-	L:
-		for _, s := range stats {
-			if _, ok := values[s.Name]; !ok {
-				values[s.Name] = append(values[s.Name], s.Name)
-			}
-			switch s.Unit {
-			case "MB/s":
-				if *omitBandwidth {
-					continue L
-				}
-			case "B/op": // total memory allocated
-				if *omitMem {
-					continue L
-				}
-			case "allocs/op": // number of allocs
-				if *omitAllocs {
-					continue L
-				}
-			}
-			values[s.Name] = append(values[s.Name], s.Value)
-		}
 		data[bname] = append(data[bname], []interface{}{"Name", "ns/op"})
 		if !*omitBandwidth {
 			data[bname][0] = append(data[bname][0], "MB/s")
@@ -168,6 +147,24 @@ func transform(stats set) gcDataTables {
 		if !*omitAllocs {
 			data[bname][0] = append(data[bname][0], "allocs/op")
 		}
+		header := data[bname][0]
+
+		for _, s := range stats {
+			row, ok := values[s.Name]
+			if !ok {
+				row = make([]interface{}, len(header))
+				row[0] = s.Name
+				values[s.Name] = row
+			}
+			// A run may have no value for some units,
+			// whose cells stay empty. The units that
+			// are omitted have no column.
+			for i, unit := range header {
+				if i > 0 && unit == s.Unit {
+					row[i] = s.Value
+				}
+			}
+		}
 		for _, v := range values {
 			data[bname] = append(data[bname], v)
 		}
-- 
2.43.0

